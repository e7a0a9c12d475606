"""C23: drawing one flash."""
import datetime as dt

import numpy as np
import matplotlib.pyplot as plt
import matplotlib.transforms as mtr

from mc import hier, lcfa
from mc.core import require, digest
from glmtools.io.glm import GLMDataset
from glmtools.plot.locations import plot_flash

BOUNDS = {
    'quick': 'all trees of up to 3 flashes, 3 groups and 4 events in any row order, 3 sets of ids; each flash drawn on new axes, on given axes, on given axes with a transform, after another flash and with axes of another figure current',
    'thorough': 'the same with trees of 3 flashes, 4 groups and 4 events and of 2 flashes, 3 groups and 5 events',
}
ASSUMPTIONS = ['matplotlib draws the markers it is given']


def cases(tier):
    fams = [(1, 1, 1), (1, 1, 2), (1, 2, 3), (2, 2, 2), (2, 2, 3), (2, 3, 3), (3, 3, 3), (2, 3, 4), (3, 3, 4)]
    if tier == 'thorough':
        fams += [(3, 4, 4), (2, 3, 5)]
    n = 0
    for sizes in fams:
        for parents in hier.forests(sizes):
            if any(set(range(m)) - set(p) for m, p in zip(sizes, parents)):
                continue
            yield dict(kind='tree', sizes=list(sizes), parents=parents, scheme=('up', 'u16', 'mixed')[n % 3])
            n += 1


def marks(ax, skip=0):
    """every marker drawn: (place, colour value or None)"""
    out = []
    for c in ax.collections[skip:]:
        off = np.ma.getdata(c.get_offsets()).reshape(-1, 2)
        val = c.get_array()
        vals = [None] * len(off) if val is None else [float(v) for v in np.ma.getdata(val)]
        require(len(vals) == len(off), '%d places but %d values', len(off), len(vals))
        out += [(float(p[0]), float(p[1]), v) for p, v in zip(off, vals)]
    return out


def check(case, trace):
    F, G, E = hier.build(case['sizes'], case['parents'], case['scheme'])
    d = lcfa.filled(dict(F=[dict(id=r[0]) for r in F], G=[dict(id=r[0], fl=r[1]) for r in G], E=[dict(id=r[0], gr=r[1]) for r in E],
                         flash_id_bytes=4 if case['scheme'] == 'mixed' else 2))
    glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
    before = digest(glm.dataset)
    en = lambda r: lcfa.float_energy(r['energy'], d) * 1e9
    fl = {g['id']: g['fl'] for g in d['G']}
    t0 = lcfa.when(d['start'])
    for f in d['F']:
        want = [(f['lon'], f['lat'], None)]
        want += [(g['lon'], g['lat'], en(g)) for g in d['G'] if g['fl'] == f['id']]
        for e in d['E']:
            if fl[e['gr']] == f['id']:
                lon, lat = lcfa.event_lonlat([e['lat']], [e['lon']], d['nadir'])
                want.append((float(lon[0]), float(lat[0]), en(e)))
        want.sort(key=lambda m: (round(m[0], 3), round(m[1], 3), m[2] or 0))
        for how in ('new', 'given', 'transform', 'again', 'other'):
            fig = None
            skip = 0
            if how == 'new':
                ax = plot_flash(glm, f['id'])
            elif how == 'other':
                # axes of a figure drawn earlier are left alone
                old = plt.figure().add_subplot(111)
                old.plot([1, 2], [3, 4])
                ax = plot_flash(glm, f['id'])
                require(ax is not old and not old.collections and not old.get_title(), 'drawn on axes that were not given')
            else:
                fig = plt.figure()
                mine = fig.add_subplot(111)
                if how == 'again':
                    plot_flash(glm, d['F'][0]['id'], ax=mine)
                    skip = len(mine.collections)
                tr = mtr.Affine2D().scale(2.0, 3.0).translate(1.0, -2.0) + mine.transData
                ax = plot_flash(glm, f['id'], ax=mine, **(dict(proj=tr) if how == 'transform' else {}))
                require(ax is mine, 'drawn on other axes than those given')
                if how == 'transform':
                    require(all(np.allclose(c.get_offset_transform().transform([(1., 2.), (-80., 30.)]), tr.transform([(1., 2.), (-80., 30.)])) for c in ax.collections), 'the given transform is not used')
            got = sorted(marks(ax, skip), key=lambda m: (round(m[0], 3), round(m[1], 3), m[2] or 0))
            require(len(got) == len(want), 'flash %s: %d markers, expected %d', f['id'], len(got), len(want))
            for a, b in zip(got, want):
                require(abs(a[0] - b[0]) < 1e-4 and abs(a[1] - b[1]) < 1e-4, 'flash %s: marker at %s, expected %s', f['id'], a[:2], b[:2])
                require((a[2] is None) == (b[2] is None) and (b[2] is None or abs(a[2] - b[2]) < 1e-5 * b[2]), 'flash %s: value %s, expected %s', f['id'], a[2], b[2])
            title = ax.get_title()
            require(str(f['id']) in title, 'title %r does not name flash %s', title, f['id'])
            for ms in (f['t'], f['t1']):
                when = (t0 + dt.timedelta(milliseconds=ms)).isoformat(timespec='milliseconds')
                require(when in title, 'title %r does not give %s', title, when)
            plt.close('all')
            trace.step(how, len(got), [round(m[0], 2) for m in got])
            trace.agree(len(got) * 2 + 3)
    require(digest(glm.dataset) == before, 'the dataset was changed')
