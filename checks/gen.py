"""Generators and signal recipes shared by the checks.  Cases are small JSON values; signals are expanded from (seed, recipe)."""
import numpy as np
from hypothesis import strategies as st

from vlib import models as M


def chunk_lens(max_len, max_chunks=40):
    """lengths of consecutive chunks; biased to very short ones and to the maximum"""
    one = st.one_of(st.integers(1, 3), st.integers(1, max_len), st.sampled_from([max_len, max(1, max_len - 1), 1]), st.integers(1, max(1, max_len // 8)))
    return st.lists(one, min_size=0, max_size=max_chunks)


def signal(kind, n, seed, cplx=True, amp=1.0):
    g = M.rng(seed)
    if kind == "noise":
        x = g.standard_normal(n) + (1j * g.standard_normal(n) if cplx else 0)
    elif kind == "tone":
        f = g.uniform(-0.5, 0.5)
        x = np.exp(2j * np.pi * f * np.arange(n))
        x = x if cplx else x.real
    elif kind == "dc":
        x = np.full(n, 1 + 0.5j if cplx else 1.0)
    elif kind == "impulses":
        x = np.zeros(n, complex if cplx else float)
        k = max(1, n // 37)
        x[g.integers(0, max(n, 1), k)] = 1 - (1j if cplx else 0)
    elif kind == "zeros":
        x = np.zeros(n, complex if cplx else float)
    elif kind == "steps":
        x = np.repeat(g.choice([-1.0, 1.0], n // 11 + 1), 11)[:n] * (1 + (0.3j if cplx else 0))
    elif kind == "chirp":
        t = np.arange(n) / max(n, 1)
        x = np.exp(1j * np.pi * (t * t - 0.5 * t) * n)
        x = x if cplx else x.real
    else:
        raise ValueError(kind)
    return (amp * x).astype(np.complex64 if cplx else np.float32)


KINDS = st.sampled_from(["noise", "tone", "dc", "impulses", "zeros", "steps", "chirp"])


def gfsk_samples(bits_seed, nbytes, fs, baud, dev, noise=0.0, freq=0.0, delay=0.0, phase=0.0, lead=0, data=None):
    """an ideal GFSK signal (float64, any real samples-per-symbol) with noise, frequency offset (Hz) and a fractional delay in symbols"""
    g = M.rng(bits_seed)
    if data is None:
        data = g.integers(0, 256, nbytes, dtype=np.uint8).tobytes()
    bits = M.bits_msb(data)
    over = 16
    sps = fs / baud
    # frequency pulse on a fine grid: rectangle convolved with a Gaussian of BT 0.5
    t = np.arange(-4 * over, 4 * over + 1) / over
    s = np.sqrt(np.log(2)) / (2 * np.pi * 0.5)
    gauss = np.exp(-0.5 * (t / s) ** 2)
    gauss /= gauss.sum()
    sym = np.repeat(2.0 * bits - 1.0, over)
    sym = np.concatenate([np.zeros(4 * over), sym, np.zeros(4 * over)])
    f = np.convolve(sym, gauss, "same")
    n = int((len(bits) + 8) * sps)
    pos = (np.arange(n) / sps + delay) * over
    freqs = np.interp(pos, np.arange(len(f)), f)
    ph = 2 * np.pi * np.cumsum(dev * freqs + freq) / fs + phase
    x = np.exp(1j * ph)
    if lead:
        x = np.concatenate([np.zeros(lead), x])
    if noise:
        x = x + noise * (g.standard_normal(len(x)) + 1j * g.standard_normal(len(x))) / np.sqrt(2)
    return bits, x.astype(np.complex64)
