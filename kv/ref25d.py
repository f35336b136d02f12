"""Independent model of the 2.5D capacitance rules on rectilinear layouts.

Works on the arrangement (coordinate-compressed cell grid) of all rectangles:
 * plate:    every cell where two different nets face each other vertically with no conductor
             in between contributes area * coefficient;
 * sidewall: every boundary piece of a net sees the nearest conductor on its own layer;
 * fringe:   every boundary piece sees, on every other layer, the part of each conductor within
             the halo that is neither behind the nearest conductor of its own layer nor covered
             by a conductor on a layer in between.
Returned values are [lo, hi] bounds in fF: the tool may ignore pieces below its documented
reporting threshold, and may see 2 dbu beyond the halo.
"""
import bisect
import math
from collections import defaultdict

import numpy as np

THRESH = 0.0001     # fF, the smallest fringe piece that is reported


def pair(a, b):
    return (a, b) if a <= b else (b, a)


class Arrangement:
    def __init__(self, shapes, n_layers, margin):
        """shapes: [layer (0 = lowest metal), net, rect]"""
        xs, ys = set(), set()
        for _, _, (x1, y1, x2, y2) in shapes:
            xs |= {x1, x2}
            ys |= {y1, y2}
        xs |= {min(xs) - margin, max(xs) + margin}
        ys |= {min(ys) - margin, max(ys) + margin}
        self.xs, self.ys = sorted(xs), sorted(ys)
        self.nets = ['']
        idx = {}
        self.g = np.zeros((n_layers + 1, len(self.xs) - 1, len(self.ys) - 1), dtype=np.int32)
        for l, n, (x1, y1, x2, y2) in shapes:
            if n not in idx:
                idx[n] = len(self.nets)
                self.nets.append(n)
            i1, i2 = bisect.bisect_left(self.xs, x1), bisect.bisect_left(self.xs, x2)
            j1, j2 = bisect.bisect_left(self.ys, y1), bisect.bisect_left(self.ys, y2)
            self.g[l + 1, i1:i2, j1:j2] = idx[n]
        if 'VSUBS' not in idx:
            idx['VSUBS'] = len(self.nets)
            self.nets.append('VSUBS')
        self.g[0, :, :] = idx['VSUBS']
        self.dx = np.diff(np.array(self.xs, dtype=np.int64))
        self.dy = np.diff(np.array(self.ys, dtype=np.int64))


def plate(arr: Arrangement, names, coefs, dbu):
    out = defaultdict(float)
    g = arr.g
    area = np.outer(arr.dx, arr.dy) * dbu * dbu
    for b in range(g.shape[0]):
        shield = np.zeros(g.shape[1:], dtype=bool)
        for t in range(b + 1, g.shape[0]):
            cond = (g[b] > 0) & (g[t] > 0) & (g[b] != g[t]) & ~shield
            if cond.any():
                k = coefs.area(names[t], names[b])
                for code in np.unique(g[b][cond].astype(np.int64) * 100000 + g[t][cond]):
                    nb, nt = int(code) // 100000, int(code) % 100000
                    m = cond & (g[b] == nb) & (g[t] == nt)
                    out[pair(arr.nets[nb], arr.nets[nt])] += float(area[m].sum()) * k / 1000.0
            shield |= g[t] > 0
    return dict(out)


def _walks(g, xs, ys):
    """All boundary pieces: (layer, net, length, key for adjacency, iterator of outward cells).
    Yields (layer, net, run id, length, cells) with cells = [(i, j, near, far)...] outward."""
    n_l, nx, ny = g.shape
    for l in range(1, n_l):
        lay = g[l]
        for i in range(nx):
            for j in range(ny):
                n = lay[i, j]
                if n == 0:
                    continue
                # right / left / up / down
                if i + 1 < nx and lay[i + 1, j] != n:
                    yield l, n, (l, n, 'R', i, j), ys[j + 1] - ys[j], [(a, j, xs[a] - xs[i + 1], xs[a + 1] - xs[i + 1]) for a in range(i + 1, nx)]
                if i - 1 >= 0 and lay[i - 1, j] != n:
                    yield l, n, (l, n, 'L', i, j), ys[j + 1] - ys[j], [(a, j, xs[i] - xs[a + 1], xs[i] - xs[a]) for a in range(i - 1, -1, -1)]
                if j + 1 < ny and lay[i, j + 1] != n:
                    yield l, n, (l, n, 'U', j, i), xs[i + 1] - xs[i], [(i, b, ys[b] - ys[j + 1], ys[b + 1] - ys[j + 1]) for b in range(j + 1, ny)]
                if j - 1 >= 0 and lay[i, j - 1] != n:
                    yield l, n, (l, n, 'D', j, i), xs[i + 1] - xs[i], [(i, b, ys[j] - ys[b + 1], ys[j] - ys[b]) for b in range(j - 1, -1, -1)]


def key_cell(key):
    return (key[3], key[4]) if key[2] in 'RL' else (key[4], key[3])


def _components(lay):
    """8-connected components of equal net in one layer"""
    comp = np.zeros(lay.shape, dtype=np.int32)
    nx, ny = lay.shape
    c = 0
    for i in range(nx):
        for j in range(ny):
            if lay[i, j] and not comp[i, j]:
                c += 1
                comp[i, j] = c
                todo = [(i, j)]
                while todo:
                    a, b = todo.pop()
                    for da in (-1, 0, 1):
                        for db in (-1, 0, 1):
                            p, q = a + da, b + db
                            if 0 <= p < nx and 0 <= q < ny and not comp[p, q] and lay[p, q] == lay[i, j]:
                                comp[p, q] = c
                                todo.append((p, q))
    return comp


def sidewall_and_fringe(arr: Arrangement, names, coefs, dbu, scale, strict_self=False):
    """-> (sidewall {pair: [lo, hi]}, fringe {pair: [lo, hi]}, stats)

    Known finding S1: another arm of the very same polygon does not shield the sidewall behind it.
    Unless `strict_self`, both readings are accepted for exactly these pieces."""
    comps = [None] + [_components(arr.g[k]) for k in range(1, arr.g.shape[0])]
    g, xs, ys = arr.g, arr.xs, arr.ys
    n_l = g.shape[0]
    halo = int(round(coefs.halo / dbu))
    sw = defaultdict(lambda: [0.0, 0.0])
    pieces = []          # fringe: (run key, length, inside layer, net, {(layer, net): [(near, far)...]})
    stats = defaultdict(int)
    for l, n, key, length, cells in _walks(g, xs, ys):
        lat = math.inf
        for (i, j, near, far) in cells:
            if near > halo + 2:
                break
            m = g[l, i, j]
            if m != 0:
                lat = near
                if m != n:
                    c, off = coefs.sidewall[names[l]]
                    v = (length * dbu * c) / (near * dbu + off) / 2.0 / 1000.0
                    e = sw[pair(arr.nets[n], arr.nets[m])]
                    e[1] += v
                    if near < halo:
                        e[0] += v
                    stats['sidewall'] += 1
                else:
                    stats['self-lateral'] += 1
                    if not strict_self and comps[l][i, j] == comps[l][key_cell(key)]:
                        for (i2, j2, near2, far2) in cells:
                            if near2 > halo + 2:
                                break
                            m2 = g[l, i2, j2]
                            if m2 != 0 and not (m2 == n and comps[l][i2, j2] == comps[l][key_cell(key)]):
                                if m2 != n:
                                    c, off = coefs.sidewall[names[l]]
                                    sw[pair(arr.nets[n], arr.nets[m2])][1] += \
                                        (length * dbu * c) / (near2 * dbu + off) / 2.0 / 1000.0
                                    stats['excluded-finding-S1'] += 1
                                break
                break
        prof = {}
        for k in range(n_l):
            if k == l:
                continue
            between = range(k + 1, l) if k < l else range(l + 1, k)
            parts = []
            for (i, j, near, far) in cells:
                if near >= halo + 2 or near >= lat:
                    break
                m = g[k, i, j]
                if m == 0 or m == n:
                    if m == n:
                        stats['same-net-below-above'] += 1
                    continue
                if any(g[b, i, j] != 0 for b in between):
                    stats['vertically-shielded'] += 1
                    continue
                far = min(far, lat)
                if parts and parts[-1][0] == m and parts[-1][2] == near:
                    parts[-1][2] = far
                else:
                    parts.append([int(m), near, far])
            if parts:
                prof[k] = parts
        if prof:
            pieces.append((key, length, l, int(n), prof))
            if lat <= halo:
                stats['laterally-shielded-fringe'] += 1
    fr = defaultdict(lambda: [0.0, 0.0])

    def value(l, k, length, near, far):
        if (names[l], names[k]) in coefs.overlap or names[k] == 'VSUBS':
            oc = coefs.area(names[l], names[k])
        else:
            oc = coefs.area(names[k], names[l])
        if not oc:
            return 0.0          # no overlap capacitance specified between the two layers
        a = oc * 0.02
        f = lambda d: (2.0 / math.pi) * math.atan(a * d * dbu)
        frac = f(far) - f(near)
        if scale:
            full = (2.0 / math.pi) * math.atan(a * coefs.halo)
            if full < 1.0:
                frac /= full
        return frac * length * dbu * coefs.fringe(names[l], names[k]) / 1000.0

    def bounds(l, k, length, near, far):
        lo = value(l, k, length, near, min(far, halo)) if near < halo else 0.0
        hi = value(l, k, length, near, min(far, halo + 2))
        return lo, hi

    # lower bound: finest partition
    for key, length, l, n, prof in pieces:
        for k, parts in prof.items():
            for m, near, far in parts:
                lo, hi = bounds(l, k, length, near, far)
                e = fr[pair(arr.nets[n], arr.nets[m])]
                if lo > THRESH * 1.0001:
                    e[0] += lo
                stats['fringe'] += 1
    # upper bound: neighbouring pieces of one edge with the same view are one piece
    runs = defaultdict(list)
    for key, length, l, n, prof in pieces:
        runs[key[:4]].append((key[4], length, l, n, prof))
    for items in runs.values():
        items.sort(key=lambda t: t[0])
        merged = []
        for pos, length, l, n, prof in items:
            if merged and merged[-1][0] == pos - 1 and merged[-1][4] == prof:
                merged[-1][0] = pos
                merged[-1][1] += length
            else:
                merged.append([pos, length, l, n, prof])
        for pos, length, l, n, prof in merged:
            for k, parts in prof.items():
                for m, near, far in parts:
                    lo, hi = bounds(l, k, length, near, far)
                    if hi > THRESH * 0.9999:
                        fr[pair(arr.nets[n], arr.nets[m])][1] += hi
    return {k: v for k, v in sw.items()}, {k: v for k, v in fr.items() if v[1] > 0}, stats


def total(shapes, tech_pb, metal_names, scale, dbu=0.001, parts=('plate', 'sidewall', 'fringe'), strict_self=False):
    from .layers import Coefs
    coefs = Coefs(tech_pb)
    names = ['VSUBS'] + list(metal_names)
    halo = int(round(coefs.halo / dbu))
    arr = Arrangement(shapes, len(metal_names), halo)
    res = defaultdict(lambda: [0.0, 0.0])
    info = {}
    p = plate(arr, names, coefs, dbu)
    info['plate'] = len(p)
    if 'plate' in parts:
        for k, v in p.items():
            res[k][0] += v
            res[k][1] += v
    sw, fr, stats = sidewall_and_fringe(arr, names, coefs, dbu, scale, strict_self)
    info.update(stats)
    for name, tb in (('sidewall', sw), ('fringe', fr)):
        if name in parts:
            for k, (lo, hi) in tb.items():
                res[k][0] += lo
                res[k][1] += hi
    return dict(res), info


def compare(actual, expect, what, tol_rel=1e-6, tol_abs=1e-9):
    """actual {pair: fF}, expect {pair: [lo, hi]} -> list of differences"""
    bad = []
    for k in sorted(set(actual) | set(expect)):
        a = actual.get(k, 0.0)
        lo, hi = expect.get(k, (0.0, 0.0))
        if not (lo - abs(lo) * tol_rel - tol_abs <= a <= hi + abs(hi) * tol_rel + tol_abs):
            bad.append(f'{what} {k[0]}-{k[1]}: got {a:.9g} fF, expected {lo:.9g}..{hi:.9g} fF')
    return bad
