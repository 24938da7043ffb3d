"""record arrays"""
import numpy as np
from hypothesis import strategies as st
import vgen
BASE = ["?", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8", "g", "c8", "c16", "S1", "S2", "S3", "S7", "S8", "S9", "S16", "S20", "S33", "U1", "U3", "U5",
        "M8[ns]", "m8[s]", ">i4", ">f8", "V3", "V8", "S0"]

@st.composite
def rec_dtype(draw):
    k = draw(st.integers(1, 7))
    style = draw(st.sampled_from(["packed"] * 4 + ["align", "gaps", "titles", "reorder"]))
    fmts = []
    for i in range(k):
        f = draw(st.sampled_from(BASE))
        x = draw(st.integers(0, 25))
        if x == 0:
            f = [f if f != "S0" else "i4", draw(st.sampled_from([[2], [3], [2, 2], [0]]))]
        elif x == 1:
            f = ["nested"]
        elif x == 2:
            f = ["O"]
        fmts.append(f)
    return {"fmts": fmts, "style": style, "gap": [draw(st.integers(0, 9)) for _ in range(k + 1)]}

def fmt(f):
    if isinstance(f, list):
        if f[0] == "nested":
            return np.dtype([("p", "i2"), ("q", "f8")])
        if f[0] == "O":
            return np.dtype("O")
        return np.dtype((f[0], tuple(f[1])))
    return np.dtype(f)

def dtype(d):
    fs = [fmt(f) for f in d["fmts"]]
    names = ["f%d" % i for i in range(len(fs))]
    if d["style"] == "align":
        return np.dtype({"names": names, "formats": fs}, align=True)
    if d["style"] == "titles":
        return np.dtype([(("t%d" % i, n), f) if i % 2 == 0 else (n, f) for i, (n, f) in enumerate(zip(names, fs))])
    if d["style"] in ("gaps", "reorder"):
        offs, cur = [], d["gap"][0]
        for f, g in zip(fs, d["gap"][1:]):
            if f.hasobject:
                cur = -(-cur // 8) * 8
            offs.append(cur); cur += f.itemsize + g
        if d["style"] == "reorder":
            names, fs, offs = names[::-1], fs[::-1], offs[::-1]
        return np.dtype({"names": names, "formats": fs, "offsets": offs, "itemsize": max(cur, 1)})
    return np.dtype([(n, f) for n, f in zip(names, fs)])
