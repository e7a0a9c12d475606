"""Generic hierarchies: all small forests, their datasets, and the plain model of them.

A forest is a list of levels, each a list of rows (id, parent id or None, value)."""
import itertools

import numpy as np
import xarray as xr

ID_SCHEMES = {
    # level -> ids by row; None of the numbers is shared in a way that could hide a mix-up
    'up': lambda lvl, n: [10 * (lvl + 1) + i for i in range(n)],
    'down': lambda lvl, n: [50 + 10 * lvl - i for i in range(n)],
    'same': lambda lvl, n: [i for i in range(n)],          # ids start at 0 and repeat at every level
    'mixed': lambda lvl, n: [[3, 70000, 1, 40000, 2, 9][i] + lvl for i in range(n)],
    'large': lambda lvl, n: [2 ** 32 - 1 - ((i * 2 + 1) % (2 * n + 1)) * 1000 - lvl for i in range(n)],
    'u16': lambda lvl, n: [[65535, 0, 32768, 32767, 1, 9][i] for i in range(n)],
    'neg': lambda lvl, n: [[-1, 5, -7, 0, 3, 2][i] for i in range(n)],
}
DTYPES = {'up': 'int64', 'down': 'int32', 'same': 'uint32', 'mixed': 'uint64', 'large': 'uint32', 'u16': 'uint16', 'neg': 'int64'}
ABSENT = {'up': 999, 'down': 999, 'same': 50, 'mixed': 123456, 'large': 17, 'u16': 4242, 'neg': -9}


def aliases(scheme, i):
    """Absent ids that a cast to the stored type would turn into id i."""
    dt = np.dtype(DTYPES[scheme])
    return [i + k * 2 ** (8 * dt.itemsize) for k in (1, -1)] if dt.itemsize < 8 else []


def spread(sizes, k=7):
    """Parents of a large forest: children of one parent are not next to each other."""
    return [[(i * k) % up for i in range(n)] for up, n in zip(sizes, sizes[1:])]


def forests(sizes, orphan=False):
    """All assignments of parents to rows, as lists of parent row indices (-1: missing parent)."""
    opts = []
    for up, n in zip(sizes, sizes[1:]):
        rng = list(range(up)) + ([-1] if orphan else [])
        opts.append(list(itertools.product(rng, repeat=n)) if n else [()])
    for combo in itertools.product(*opts):
        yield [list(c) for c in combo]


def build(sizes, parents, scheme):
    """Levels of rows (id, parent id, value)."""
    levels = []
    for lvl, n in enumerate(sizes):
        ids = ID_SCHEMES[scheme](lvl, n)
        rows = []
        for i in range(n):
            par = None
            if lvl:
                p = parents[lvl - 1][i]
                par = ABSENT[scheme] if p < 0 else levels[lvl - 1][p][0]
            rows.append((ids[i], par, 1.5 * i + 100 * lvl + 0.25))
        levels.append(rows)
    return levels


def names(n):
    ent = ['l%d_id' % i for i in range(n)]
    par = ['l%d_parent_l%d_id' % (i, i - 1) for i in range(1, n)]
    return ent, par


def dataset(levels, scheme):
    ent, par = names(len(levels))
    v = {}
    coords = []
    for i, rows in enumerate(levels):
        dim = 'dim%d' % i
        v[ent[i]] = (dim, np.array([r[0] for r in rows], dtype=DTYPES[scheme]))
        coords.append(ent[i])
        if i:
            v[par[i - 1]] = (dim, np.array([r[1] for r in rows], dtype=DTYPES[scheme]))
            coords.append(par[i - 1])
        v['value%d' % i] = (dim, np.array([r[2] for r in rows], dtype='f8'))
        v['pair%d' % i] = ((dim, 'two'), np.array([[r[2], -r[2]] for r in rows], dtype='f8').reshape(-1, 2))
    v['product_time'] = ((), np.float64(42.0))
    v['bounds'] = ('two', np.array([1.0, 2.0]))
    return xr.Dataset({k: xr.Variable(*x) for k, x in v.items()}).set_coords(coords)


def rows_of(ds, n):
    """Levels of rows read back from a dataset."""
    ent, par = names(n)
    out = []
    for i in range(n):
        ids = [int(x) for x in ds[ent[i]].values]
        ps = [int(x) for x in ds[par[i - 1]].values] if i else [None] * len(ids)
        vs = [float(x) for x in ds['value%d' % i].values]
        pv = ds['pair%d' % i].values
        for k, val in enumerate(vs):
            if tuple(pv[k]) != (val, -val):
                raise AssertionError('level %d row %d: values of one row come from different rows' % (i, k))
        if not (len(ids) == len(ps) == len(vs) == pv.shape[0]):
            raise AssertionError('level %d: variables differ in length' % i)
        out.append(list(zip(ids, ps, vs)))
    return out


def reduce_model(levels, lvl, wanted):
    """What reducing to the ids ``wanted`` at level ``lvl`` must keep.

    Returns (rows of that level in order, {other level: multiset as sorted list})."""
    at = {}
    for r in levels[lvl]:
        at.setdefault(r[0], []).append(r)
    here = [r for w in wanted for r in at.get(w, ())]
    keep = {}
    up = {r[1] for r in here}
    for i in range(lvl - 1, -1, -1):
        keep[i] = sorted(r for r in levels[i] if r[0] in up)
        up = {r[1] for r in keep[i]}
    cur = [r[0] for r in here]
    for i in range(lvl + 1, len(levels)):
        under = {}
        for r in levels[i]:
            under.setdefault(r[1], []).append(r)
        nxt = [r for p in cur for r in under.get(p, ())]
        keep[i] = sorted(nxt)
        cur = [r[0] for r in nxt]
    return here, keep
