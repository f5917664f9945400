"""Writing IDL save files, as FHD leaves them (scipy only reads them).

A value is a dict: num (ty, d, v), txt (d, v), nul, ptr (v), ptrs (d, v), rec (f, v: rows)."""
import struct
import zlib

import numpy as np

TC = {"byte": (1, ">u1", 1), "int": (2, ">i2", 2), "long": (3, ">i4", 4), "float": (4, ">f4", 4), "double": (5, ">f8", 8), "complex": (6, ">c8", 8),
      "dcomplex": (9, ">c16", 16), "uint": (12, ">u2", 2), "ulong": (13, ">u4", 4), "long64": (14, ">i8", 8)}
L = lambda *a: struct.pack(">%dl" % len(a), *a)


def pad(b):
    return b + b"\0" * (-len(b) % 4)


def name(s):
    return L(len(s)) + pad(s.encode("latin1"))


def size(d):
    n = 1
    for k in d:
        n *= k
    return n


class Writer:
    def __init__(self):
        self.heap = []

    def keep(self, v):
        if v["k"] == "nul":
            return 0
        self.heap.append(None)
        i = len(self.heap)
        self.heap[i - 1] = self.variable(v)
        return i

    def arraydesc(self, d, nbytes):
        d = [1] if not d else list(d)[::-1]
        return L(8, 0, nbytes, size(d), len(d), 0, 0, 8) + L(*(d + [1] * (8 - len(d))))

    def code(self, v):
        return {"num": lambda: TC[v["ty"]][0], "txt": lambda: 7, "nul": lambda: 10, "ptr": lambda: 10, "ptrs": lambda: 10, "rec": lambda: 8}[v["k"]]()

    def flags(self, v):
        return 36 if v["k"] == "rec" else 4 if v["k"] == "ptrs" or (v["k"] in ("num", "txt") and v["d"]) else 0

    def nbytes(self, v):
        return {"num": lambda: TC[v["ty"]][2] * size(v["d"]), "txt": lambda: 12 * size(v["d"]), "rec": lambda: 8 * len(v["v"]), "ptrs": lambda: 4 * size(v["d"])}[v["k"]]()

    def adesc(self, v):
        return self.arraydesc([len(v["v"])] if v["k"] == "rec" else v["d"], self.nbytes(v))

    def sdesc(self, v):
        """The columns of a structure: as those of its first row."""
        row, out = v["v"][0], b""
        for j, c in enumerate(row):
            out += L(8 * j, self.code(c), self.flags(c))
        for n in v["f"]:
            out += name(n.upper())
        for c in row:
            if self.flags(c):
                out += self.adesc(c)
        for c in row:
            if c["k"] == "rec":
                out += self.sdesc(c)
        return L(9) + name("") + L(0, len(row), 8 * len(row)) + out

    def data(self, v):
        if v["k"] == "rec":
            return b"".join(self.data(c) for row in v["v"] for c in row)
        if v["k"] in ("nul", "ptr"):
            return L(0 if v["k"] == "nul" else self.keep(v["v"]))
        if v["k"] == "ptrs":
            return b"".join(L(self.keep(c)) for c in v["v"])
        if v["k"] == "txt":
            return b"".join(L(len(s)) + ((L(len(s)) + pad(s.encode())) if s else b"") for s in v["v"])
        code, dt, w = TC[v["ty"]]
        a = np.array([complex(*x) if code in (6, 9) else x[0] for x in v["v"]]).astype(dt)
        if code in (2, 12):
            return b"".join(struct.pack(">i" if code == 2 else ">I", int(x)) for x in a)
        return (L(a.size) if code == 1 else b"") + pad(a.tobytes())

    def variable(self, v):
        f = self.flags(v)
        return L(self.code(v), f) + (self.adesc(v) if f else b"") + (self.sdesc(v) if v["k"] == "rec" else b"") + L(7) + self.data(v)


def save(path, fields, compress=False):
    """fields: [(name, value)] as variables of the file."""
    w = Writer()
    recs = [(2, name(n.upper()) + w.variable(v)) for n, v in fields]
    recs = [(16, L(i + 1, 0) + b) for i, b in enumerate(w.heap)] + recs
    with open(path, "wb") as f:
        f.write(b"SR\0\6" if compress else b"SR\0\4")
        for t, b in recs:
            b = zlib.compress(b) if compress else b
            at = f.tell() + 16 + len(b)
            f.write(L(t) + struct.pack(">III", at, 0, 0) + b)
        f.write(L(6) + struct.pack(">III", 0, 0, 0))
