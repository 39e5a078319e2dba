"""The sanitized worker: loads the code under test, executes pickled (op, args) requests from stdin."""
import os
import pickle
import struct
import sys


def main():
    lib = sys.argv[1]
    req = os.fdopen(int(sys.argv[2]), "rb")
    res = os.fdopen(int(sys.argv[3]), "wb")
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vlib import ops
    ops.load(lib)
    while True:
        head = req.read(4)
        if len(head) < 4:
            os._exit(0)
        op, args = pickle.loads(req.read(struct.unpack("<I", head)[0]))
        try:
            r = ("ok", getattr(ops, op)(*args))
        except Exception as e:  # an error of the harness, not of the code under test
            import traceback
            r = ("err", traceback.format_exc())
        data = pickle.dumps(r, protocol=4)
        res.write(struct.pack("<I", len(data)) + data)
        res.flush()


main()
