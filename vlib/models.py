"""Reference models, written from the published definitions, in float64 (numpy).  No code is shared with the system under test."""
import numpy as np

TWO_PI = 2 * np.pi


# ---- GFSK ----
def gaussian_taps(gain, sps, bt, n):
    """GNU Radio firdes.gaussian: n samples of exp(-t^2/2s^2), t = -n/2+1 .. n/2 (in symbol periods / sps), sum = gain"""
    s = 1.0 / (np.sqrt(np.log(2.0)) / (TWO_PI * bt))
    t = (-0.5 * n + 1 + np.arange(n)) / sps
    g = np.exp(-0.5 * (s * t) ** 2)
    return gain * g / g.sum()


def bits_msb(data):
    return np.unpackbits(np.frombuffer(bytes(data), np.uint8))


def upfirdn_const(symbols, taps, k):
    """zero-stuffed interpolation by k followed by FIR, first len(symbols)*k outputs"""
    if len(symbols) == 0:
        return np.zeros(0)
    x = np.zeros(len(symbols) * k)
    x[::k] = symbols
    return np.convolve(x, taps)[: len(x)]


def gfsk_freq(data, sps, bt=0.5):
    """instantaneous frequency pulses, one value per output sample"""
    k = int(sps)
    g = gaussian_taps(1.0, sps, bt, int(4 * np.float32(sps)))
    taps = np.convolve(g, np.ones(k))
    return upfirdn_const(2.0 * bits_msb(data) - 1.0, taps, k)


def gfsk(data, sps, sens, bt=0.5):
    return np.exp(1j * np.cumsum(sens * gfsk_freq(data, sps, bt)))


# ---- filters ----
def lowpass_taps(gain, fs, cutoff, tw):
    """windowed-sinc (Hamming) low pass, odd length from the 53 dB rule, unity (gain) response at DC"""
    n = int(53.0 * fs / (22.0 * tw))
    if n % 2 == 0:
        n += 1
    m = (n - 1) // 2
    k = np.arange(-m, m + 1)
    w = 0.54 - 0.46 * np.cos(TWO_PI * np.arange(n) / (n - 1)) if n > 1 else np.ones(1)
    h = 2 * cutoff / fs * np.sinc(2 * cutoff / fs * k) * w
    return gain * h / h.sum()


def fir_decim(x, taps, d):
    """y[n] = sum taps[k] x[n*d - k], zero history"""
    if len(x) == 0:
        return np.zeros(0, np.result_type(x, float))
    return np.convolve(x, taps)[: len(x)][::d]


def quad_demod(x, gain):
    x = np.asarray(x, complex)
    p = np.concatenate([[0], x[:-1]])
    return gain * np.angle(x * np.conj(p))


def moving_average(x, n):
    c = np.concatenate([[0.0], np.cumsum(x)])
    i = np.arange(1, len(x) + 1)
    return (c[i] - c[np.maximum(i - n, 0)]) / n


def dc_blocker(x, n):
    """GNU Radio dc_blocker_ff, long form: x delayed by 2(n-1) minus four cascaded moving averages"""
    x = np.asarray(x, float)
    y = x
    for _ in range(4):
        y = moving_average(y, n)
    d = 2 * (n - 1)
    xd = np.concatenate([np.zeros(d), x])[: len(x)]
    return xd - y


# ---- helpers ----
def split(x, lens):
    """consecutive pieces of x with the given lengths, then the rest"""
    out, i = [], 0
    for n in lens:
        if i >= len(x):
            break
        out.append(x[i:i + n])
        i += n
    if i < len(x):
        out.append(x[i:])
    return out


def cat(parts, dtype):
    parts = [p for p in parts if len(p)]
    return np.concatenate(parts) if parts else np.zeros(0, dtype)


def rng(seed):
    return np.random.Generator(np.random.PCG64(seed))


# ---- symbol clock ----
def mmse_taps(steps=128, band=0.25):
    """the eight weights that minimise the mean squared error over the band, for each fractional delay; solved from the normal equations"""
    d = np.arange(8)
    r = 2 * band * np.sinc(2 * band * (d[:, None] - d))
    return np.array([np.linalg.solve(r, 2 * band * np.sinc(2 * band * (d - 3 - i / steps))) for i in range(steps + 1)])


MMSE = None


class Clock:
    """Mueller and Mueller timing recovery, following the outputs of the system (so that errors cannot accumulate).

    expect(x) yields for every output: (index, mu, value, tolerance); send the actual output back."""

    def __init__(self, omega, gain_omega, mu, gain_mu, lim):
        f = np.float32
        self.omega, self.mid, self.mu, self.go, self.gm = f(omega), f(omega), f(mu), f(gain_omega), f(gain_mu)
        self.lim = f(self.mid * f(lim))
        self.last = f(0)
        self.i = 0

    def value(self, x):
        global MMSE
        if MMSE is None:
            MMSE = mmse_taps()
        win = x[self.i:self.i + 8].astype(float)
        k = int(np.rint(self.mu * np.float32(128)))
        with np.errstate(all="ignore"):
            v = float(win @ MMSE[k])
        # the fractional position is rounded to 1/128: allow the neighbour
        near = max(abs(float(win @ MMSE[max(k - 1, 0)]) - v), abs(float(win @ MMSE[min(k + 1, 128)]) - v)) if np.isfinite(v) else 0.0
        return v, near, float(np.abs(win).max())

    def step(self, o, finite=True):
        f = np.float32
        if not finite:
            self.i += int(np.floor(self.omega))
            return
        o = f(o)
        s = lambda v: f(-1) if v < 0 else f(1)
        mm = f(s(self.last) * o - s(o) * self.last)
        self.last = o
        d = f(f(self.omega + f(self.go * mm)) - self.mid)
        clip = f(f(0.5) * f(f(abs(f(d + self.lim))) - f(abs(f(d - self.lim)))))
        self.omega = f(self.mid + clip)
        mu = f(f(self.mu + self.omega) + f(self.gm * mm))
        st = np.floor(mu)
        self.mu = f(mu - st)
        self.i += int(st)
