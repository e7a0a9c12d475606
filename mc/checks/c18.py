"""C18: accumulators and record selection over every short sequence of batches."""
import itertools

import numpy as np
import pandas as pd
import xarray as xr

from mc.core import require
from glmtools.grid import accumulate as A
from lmatools.stream.subset import coroutine, broadcast

BOUNDS = {
    'quick': 'grids 2 x 3 and 3 x 2 of f4, f8; batches: every assignment of nothing or one of 2 values to 3 cells (26); all sequences of up to 3 batches as records, '
             'up to 2 as data frames and datasets; 3 values of full precision and very different size over 2 cells, up to 3 batches; selection: all sequences of up to 4 batches of 0 to 2 event and 0 to 2 parent records',
    'thorough': 'as quick with 3 values (63 batches), 4 cells for sequences of 2, frames and datasets up to length 3 over 2 values, selection also 5 and 6 batches that are all different after the first',
}
CELLS = [(0, 0), (1, 2), (0, 1), (1, 0)]          # (y, x)
VALUES = [2.5, 0.25, 7.0]
FINE = [1 / 3., 3e-13, 2.0 ** 30 + 0.1]
DT = [('yi', 'i4'), ('xi', 'i4'), ('v', 'f4'), ('other', 'f4')]


def batches(ncell, nval, values=VALUES):
    out = []
    for pick in itertools.product(range(nval + 1), repeat=ncell):
        b = [(c, values[p - 1]) for c, p in zip(CELLS[:ncell], pick) if p]
        if b:
            # rows not in cell order
            out.append(b[::-1] if len(out) % 2 else b)
    return out


def cases(tier):
    th = tier == 'thorough'
    nval = 3 if th else 2
    for kind in ('sum', 'min'):
        for dtype in ('f4', 'f8'):
            for tr in (False, True):
                n = len(batches(3, nval))
                yield dict(kind=kind, dtype=dtype, tr=tr, form='rec', ncell=3, nval=nval, first=None, depth=0)
                for f in range(n):
                    yield dict(kind=kind, dtype=dtype, tr=tr, form='rec', ncell=3, nval=nval, first=f, depth=3)
                if th:
                    for f in range(len(batches(4, 3))):
                        yield dict(kind=kind, dtype=dtype, tr=tr, form='rec', ncell=4, nval=3, first=f, depth=2)
        # values that need the full precision of the grid
        for form in ('rec', 'frame'):
            for f in range(len(batches(2, 3))):
                yield dict(kind=kind, dtype='f8', tr=False, form=form, ncell=2, nval=3, first=f, depth=3, fine=True)
        for form in ('frame', 'dataset'):
            for f in range(len(batches(3, 2))):
                yield dict(kind=kind, dtype='f4', tr=False, form=form, ncell=3, nval=2, first=f, depth=3 if th else 2)
    for use in (True, False, None):
        for f in range(9):
            yield dict(kind='select', use=use, first=f, depth=6 if th else 4)


def as_form(b, form, tr, fine=False):
    rec = np.zeros(len(b), dtype=[(n, 'f8' if fine and n == 'v' else t) for n, t in DT])
    for i, ((y, x), v) in enumerate(b):
        rec[i] = (x, y, v, 99.0) if tr else (y, x, v, 99.0)
    if form == 'rec':
        return rec
    if form == 'frame':
        return pd.DataFrame(rec)
    return xr.Dataset({n: (('n',), rec[n]) for n in rec.dtype.names})


def check(case, trace):
    if case['kind'] == 'select':
        return check_select(case, trace)
    tr = case['tr']
    fine = case.get('fine', False)
    alpha = batches(case['ncell'], case['nval'], FINE if fine else VALUES)
    data = [as_form(b, case['form'], tr, fine) for b in alpha]
    keep = [as_form(b, 'rec', tr, fine) for b in alpha]
    make = A.accumulate_var_on_grid_direct_idx if case['kind'] == 'sum' else A.accumulate_minvar_on_grid_direct_idx
    shape = (3, 2) if tr else (2, 3)

    def run(seq):
        # a frame of a larger stack of grids, as used while gridding
        stack = np.zeros(shape + (2,), dtype=case['dtype'])
        grid = stack[:, :, 1]
        out = {}
        acc = make(grid, 'v', 'xi', 'yi', out=out)
        model = {}
        for n, k in enumerate(seq):
            acc.send(data[k])
            for (y, x), v in alpha[k]:
                c = (x, y) if tr else (y, x)
                if case['kind'] == 'sum':
                    model[c] = model.get(c, 0.0) + v
                else:
                    model[c] = min(model.get(c, v), v)
            want = np.zeros(shape)
            for c, v in model.items():
                want[c] = v
            trace.step(case['kind'], grid)
            require(np.allclose(stack[:, :, 1], want, rtol=1e-14 if fine else 1e-6, atol=0), 'after batches %s the grid is %s, expected %s', seq[:n + 1], grid.tolist(), want.tolist())
        acc.close()
        require(not stack[:, :, 0].any(), 'another frame was changed')
        require('out' in out and np.shares_memory(out['out'], stack) and out['out'].shape == shape, 'grid is not handed over on closing')
        # without a place to put it
        acc = make(grid, 'v', 'xi', 'yi')
        acc.close()
        trace.agree(len(seq) + 1)

    if case['first'] is None:
        run(())
        return
    for n in range(case['depth']):
        for rest in itertools.product(range(len(alpha)), repeat=n):
            run((case['first'],) + rest)
    for d, k in zip(data, keep):
        for name in k.dtype.names:
            require(np.array_equal(np.asarray(d[name]), k[name]), 'a batch was modified')


def check_select(case, trace):
    ev = [np.arange(n * 10, n * 10 + n) for n in range(3)]
    pa = [np.arange(n * 100, n * 100 + n) for n in range(3)]
    alpha = list(itertools.product(range(3), range(3)))
    for n in range(case['depth']):
        for rest in itertools.product(range(9), repeat=n):
            if n > 3 and len(set(rest)) < n:
                continue
            got = []

            @coroutine
            def sink():
                while True:
                    got.append((yield))
            kw = {} if case['use'] is None else dict(use_event_data=case['use'])
            s = A.select_dataset(sink(), **kw)
            want = []
            for k in (case['first'],) + rest:
                e, p = alpha[k]
                s.send((ev[e], pa[p]))
                use = (ev[e] if case['use'] in (True, None) else pa[p])
                if len(use):
                    want.append(use)
                trace.step('select', case['use'], [w.tolist() for w in want][-2:])
            s.close()
            require(len(got) == len(want) and all(np.array_equal(a, b) for a, b in zip(got, want)),
                    'batches %s: forwarded %s, expected %s', (case['first'],) + rest, [g.tolist() for g in got], [w.tolist() for w in want])
            trace.agree()
