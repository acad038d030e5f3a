"""Independent geometry oracles: moments, half planes, membership."""
from __future__ import annotations

import math

import numpy as np

from . import ref


def surf_of(poly):
    """Plain surface dict from a shapely polygon."""
    return dict(
        ext=[tuple(c) for c in list(poly.exterior.coords)[:-1]],
        holes=[[tuple(c) for c in list(i.coords)[:-1]] for i in poly.interiors],
    )


def mom(K):
    return np.array([K[0, 0], -K[0, 2], K[0, 1], K[2, 2], -K[1, 2], K[1, 1]])


def magn(G):
    return np.array([G[0, 0], G[0, 2], G[0, 1], G[2, 2], G[1, 2], G[1, 1]])


def band_law(lo, hi):
    def f(e):
        return ((e >= lo) & (e <= hi)).astype(float)

    kk = [v for v in (lo, hi) if math.isfinite(v)]
    return ref.RefLaw(f, f, kk, (lo, hi), (lo, hi))


def moments(surfs, normal=None, off=0.0, lo=-math.inf, hi=math.inf):
    """(A, y, z, yy, yz, zz) of the part with lo <= normal.x - off <= hi."""
    law = band_law(lo, hi)
    if normal is None:
        law, strain = band_law(-1, 1), (0.0, 0.0, 0.0)
    else:
        strain = (-off, float(normal[1]), -float(normal[0]))
    K, G = ref.section_integral([(s, law) for s in surfs], [], strain, 'modulus')
    return mom(K), magn(G)


def inside(surf, q):
    """Even-odd membership with distance to the boundary: (inside, dist)."""
    y, z = q
    odd = False
    dist = math.inf
    for ring in [surf['ext'], *surf.get('holes', [])]:
        a = np.asarray(ring, float)
        b = np.roll(a, -1, axis=0)
        d = b - a
        L2 = np.maximum(np.sum(d * d, axis=1), 1e-300)
        t = np.clip(((y - a[:, 0]) * d[:, 0] + (z - a[:, 1]) * d[:, 1]) / L2, 0, 1)
        dist = min(dist, float(np.min(np.hypot(a[:, 0] + t * d[:, 0] - y, a[:, 1] + t * d[:, 1] - z))))
        cr = (a[:, 1] > z) != (b[:, 1] > z)
        with np.errstate(all='ignore'):
            xs = a[:, 0] + (z - a[:, 1]) * d[:, 0] / np.where(d[:, 1] == 0, 1, d[:, 1])
        odd ^= bool(np.sum(cr & (y < xs)) % 2)
    return odd, dist
