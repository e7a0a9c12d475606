"""C27: areas of events."""
import collections
import itertools

import numpy as np

from mc import hier, lcfa
from mc.core import require, digest, scratch
from glmtools.io.glm import GLMDataset, event_areas

BOUNDS = {
    'quick': 'all trees up to 3 flashes, 3 groups and 4 events in which every flash and group has children, with 3 id schemes and 2 units, whole and reduced to every set of flashes, groups and events; a file without lightning; 300 groups with 900 events',
    'thorough': 'as quick with trees up to 2 flashes, 4 groups and 5 events',
}
ASSUMPTIONS = ['the number of events of a group is the one found on opening, also where only some of the events are looked at']


def cases(tier):
    th = tier == 'thorough'
    yield dict(kind='empty')
    yield dict(kind='tree', sizes=[2, 300, 900], parents=None, scheme='large')
    shapes = [(1, 1, 1), (1, 1, 2), (1, 2, 2), (2, 2, 2), (1, 2, 3), (2, 2, 3), (1, 3, 3), (2, 3, 3), (3, 3, 3), (1, 2, 4), (2, 2, 4), (2, 3, 4), (3, 3, 4)] + ([(1, 3, 5), (2, 4, 4), (2, 4, 5)] if th else [])
    for sizes in shapes:
        for parents in hier.forests(sizes):
            if any(set(range(n)) - set(p) for n, p in zip(sizes, parents)):
                continue
            for s in (['up', 'u16', 'down'] if sum(sizes) < 8 else ['u16']):
                yield dict(kind='tree', sizes=list(sizes), parents=parents, scheme=s)


def judge(sub, area, count, what, trace):
    """area and count: of each group"""
    before = digest(sub)
    got = event_areas(sub)
    require(got is not None and np.shape(got) == (sub.event_id.size,), '%s: areas %s of %d events', what, got, sub.event_id.size)
    require(digest(sub) == before, '%s: the dataset was changed', what)
    want = [area[g] / count[g] for g in sub.event_parent_group_id.values.tolist()]
    require(np.allclose(np.asarray(got, 'f8'), want, rtol=1e-5, atol=0), '%s: areas %s of the events, expected %s', what, np.asarray(got), want)
    require(getattr(got, 'dims', sub.event_id.dims) == sub.event_id.dims, '%s: areas along %s', what, getattr(got, 'dims', None))
    trace.step(what, np.round(np.asarray(got, 'f8'), 3).tolist()[:20])
    trace.agree(len(want))


def check(case, trace):
    if case['kind'] == 'empty':
        glm = GLMDataset(lcfa.decoded(dict(F=[], G=[], E=[])), ellipse_rev=0)
        return judge(glm.dataset, {}, {}, 'no lightning', trace)
    F, G, E = hier.build(case['sizes'], case['parents'] or hier.spread(case['sizes']), case['scheme'])
    count = collections.Counter(e[1] for e in E)
    for units in ('km2', 'm2'):
        d = dict(F=[dict(id=r[0]) for r in F], G=[dict(id=r[0], fl=r[1]) for r in G], E=[dict(id=r[0], gr=r[1]) for r in E], aunits=units,
                 flash_id_bytes=4 if case['scheme'] == 'large' else 2)
        glm = GLMDataset(lcfa.write(d, scratch(), 'a-%s.nc' % units) if len(E) == 2 else lcfa.decoded(d), ellipse_rev=0)
        area = {r['id']: lcfa.float_area(r['area'], units) for r in lcfa.filled(d)['G']}
        judge(glm.dataset, area, count, 'all', trace)
        if case['scheme'] == 'large':
            judge(glm.get_flashes([F[1][0]]), area, count, 'a flash', trace)
            continue
        for var, rows in (('flash_id', F), ('group_id', G), ('event_id', E)):
            for n in range(1, len(rows) + (var == 'event_id')):
                for ids in itertools.combinations([r[0] for r in rows], n):
                    judge(glm.reduce_to_entities(var, list(ids)), area, count, '%s %s' % (var, ids), trace)
