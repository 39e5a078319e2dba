"""Writes MANIFEST.json from properties.jsonl and the table below (run by hand when a check is added)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "property-based testing against a float64 GFSK reference model, metamorphic message splitting",
    "C02": "metamorphic property-based testing: the same samples in different blocks, stage-by-stage reference model",
    "C03": "round-trip property-based testing: modulate, impair, demodulate",
    "C04": "property-based testing against a convolution model and measured frequency response",
    "C05": "property-based testing against exact phase differences",
    "C06": "property-based testing against a moving-average model",
    "C07": "property-based testing against a model of the timing loop; metamorphic block splitting",
    "C08": "property-based testing against exact complex exponentials",
    "C09": "property-based testing against an independent orbital and Doppler model",
    "C10": "differential and metamorphic property-based testing against an independent SGP4/SDP4 and geometry model",
    "C11": "grammar-based generation and mutation of element sets against a reference parser, under AddressSanitizer",
    "C12": "stateful model-based testing of queue histories; generated thread schedules with history invariants",
    "C13": "stateful model-based testing against a Python list, with allocation faults",
    "C14": "stateful model-based testing of the running server: generated requests, reference validator",
    "C15": "fuzzing of the running sanitized server with mutated and hostile connections, concurrent victim session as oracle",
    "C16": "stateful property-based testing of the running server: transmit sessions against the reference waveform",
    "C17": "property-based testing of the running server: receive sessions against the demodulator model",
    "C18": "stateful property-based testing of the running server with a generated upstream sdr-server",
    "C19": "generated session histories with disconnects and stop requests; resource invariants on the running server",
    "C20": "stateful property-based testing against a scripted device library with injected failures",
    "C21": "fault enumeration over generated constructions: every allocation and thread creation fails in turn",
    "C22": "property-based testing of file devices against the file contents",
    "C23": "metamorphic property-based testing with an independent codec: segmentations, encodings, partial reads and writes",
    "C24": "grammar-based generation of configuration files against a reference reading",
}
LEVEL = {"C21": "fault_enumeration"}
NOTE = {}
DEFAULT_NOTE = ("Generated-input search with an explicit oracle on the code of /repo compiled with AddressSanitizer and bounds checks; "
                "assurance grows with the number of cases, nothing is proved. Bounds, tolerances and trusted parts are in DESIGN.md.")
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NA:
            cmd = "python3-vt run_check.py " + i
            checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "evidence_file": "evidence/%s.json" % i,
                           "technique": T[i], "level": LEVEL.get(i, "exploration"), "level_note": NOTE.get(i, DEFAULT_NOTE)})
        else:
            na.append({"property": i, "reason": NA.get(i, "the check is not built yet")})
    m = {"version": 1, "setup_cmd": "python3-vt -m vlib.build", "checks": checks, "not_applicable": na,
         "notes": "All checks: python3-vt run_check.py <id>; a replay: python3-vt run_check.py <id> --replay <file>. No hooks in /repo: interception is done at link time in /verif."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(checks), "claimed,", len(na), "not")


if __name__ == "__main__":
    main()
