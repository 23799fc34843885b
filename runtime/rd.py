"""Shared pieces of the reader checks (C01-C03)."""
import os, shutil, tempfile
import numpy as np
from runtime import gen, boot


def opened(p, F=None, how=0, **k):
    """Write the payload's files into a scratch directory, open them with the real reader."""
    from harmonisation.core.matchup.matchupIO.MatchUpReader import open_matchup
    F = F or gen.Files(p)
    d = tempfile.mkdtemp(dir=boot.TREE)
    try:
        paths = F.write(d)
        if how == 1: paths = d                                     # a directory: its netCDF files in name order
        if how == 2:                                               # a list of directories
            d2 = os.path.join(d, "a_second"); os.mkdir(d2)
            d1 = os.path.join(d, "b_first"); os.mkdir(d1)
            h = (len(paths) + 1) // 2
            for q, f in enumerate(paths): shutil.move(f, d1 if q < h else d2)
            paths = [d1, d2] if h < len(F.f) else [d1]
        if how:
            for x in (paths if how == 2 else [paths]): open(os.path.join(x, "notes.txt"), "w").close()
        return open_matchup(paths, **k), F, gen.Layout(p)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def block_of(idx, L, b):
    """Position of block b of the reference layout in the opened index structure (None unless exactly one)."""
    v, s, pos = L.blocks[b]
    hit = [q for q, t in enumerate(zip(idx["n_sensor"], idx["n_mu"], idx["n_cov"]))
           if (idx["sensors"][t[0]], t[1], t[2]) == (L.sensors[L.Im[s][pos]], s + 1, v + 1)]
    return hit[0] if len(hit) == 1 else None
