"""Random-group (UVFITS) and metafits files written word by word."""
import io

import numpy as np
from astropy.io import fits


def groups(path, pars, data, cards, columns, acards):
    """pars: (name, raw values, scale, zero); data: rows first, component last."""
    n, shp = len(data), data.shape[1:]
    h = fits.Header()
    h["SIMPLE"], h["BITPIX"], h["NAXIS"], h["NAXIS1"] = True, -32, len(shp) + 1, 0
    for i, s in enumerate(shp[::-1]):
        h["NAXIS%d" % (i + 2)] = s
    h["EXTEND"], h["GROUPS"], h["PCOUNT"], h["GCOUNT"] = True, True, len(pars), n
    for i, (nm, raw, scal, zero) in enumerate(pars):
        h["PTYPE%d" % (i + 1)], h["PSCAL%d" % (i + 1)], h["PZERO%d" % (i + 1)] = nm, scal, zero
    for k, v in cards:
        h[k] = v
    raw = np.concatenate([np.array([p[1] for p in pars], float).T.reshape(n, -1), data.reshape(n, -1)], axis=1).astype(">f4").tobytes()
    raw += b"\0" * (-len(raw) % 2880)
    t = fits.BinTableHDU.from_columns(columns, name="AIPS AN")
    for k, v in acards:
        t.header[k] = v
    tmp = io.BytesIO()
    fits.HDUList([fits.PrimaryHDU(), t]).writeto(tmp)
    with open(path, "wb") as f:
        f.write(h.tostring(sep="", endcard=True, padding=True).encode() + raw + tmp.getvalue()[2880:])


def metafits(path, cards, columns):
    p = fits.PrimaryHDU()
    for k, v in cards:
        p.header[k] = v
    fits.HDUList([p, fits.BinTableHDU.from_columns(columns)]).writeto(path, overwrite=True)
