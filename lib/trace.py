"""Reading the evaluation traces written by harness/trace.cpp and harness/trace_fit.cpp."""
import struct

import numpy as np

FIT, DEV, BOOT, START, FINAL = 1, 2, 3, 9, 10
TRACED = lambda prog: ("t-" + prog, ["harness/trace.cpp"], prog)  # noqa: E731


def read(path):
    """list of (type, params, value, extra)"""
    b = open(path, "rb").read()
    out, o = [], 0
    while o + 24 <= len(b):
        t, n, v, k = struct.unpack_from("<iidq", b, o)
        o += 24
        if o + 8 * (n + k) > len(b):
            break
        a = np.frombuffer(b, "<f8", n + k, o)
        out.append((t, a[:n], v, a[n:]))
        o += 8 * (n + k)
    return out
