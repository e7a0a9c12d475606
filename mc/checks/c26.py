"""C26: walking a tree by the groups of its rows."""
import numpy as np

from mc import hier, lcfa
from mc.core import require, digest, scratch
from glmtools.io.traversal import OneToManyTraversal
from glmtools.io.glm import GLMDataset

BOUNDS = {
    'quick': 'all forests: 2 levels up to 4/4 rows, 3 levels up to 2/3/3 with 7 id schemes and 3/3/3, 4 levels 2/2/2/2, with empty levels, each next to another hierarchy of the same names; one of 40/1100/1300 rows with interleaved parents; '
             'opened files up to 2 flashes, 3 groups, 3 events with 2 units of areas, complete and with rows that are pruned on opening, each walked down from flashes to events and up from events to flashes',
    'thorough': 'as quick with 2 levels up to 4/5, 3 levels up to 3/3/4, 4 levels up to 2/3/3/2 and files up to 3/3/4',
}
ASSUMPTIONS = ['ids are unique within a level', 'a level without rows has no groups']


def cases(tier):
    th = tier == 'thorough'
    alls = list(hier.ID_SCHEMES)
    fam = [((a, b, c), alls) for a in (1, 2) for b in (1, 2, 3) for c in (1, 2, 3)]
    fam += [((4, 4), ['mixed', 'u16']), ((1, 3), ['up']), ((1, 2, 0), alls), ((2, 0, 0), alls), ((1, 0), alls), ((3, 3, 3), alls if th else ['mixed']),
            ((2, 2, 2, 2), alls if th else ['mixed'])]
    if th:
        fam += [((4, 5), ['mixed']), ((3, 3, 4), ['u16']), ((2, 3, 3, 2), ['mixed'])]
    for sizes, schemes in fam:
        for parents in hier.forests(sizes):
            for s in schemes:
                yield dict(kind='forest', sizes=list(sizes), parents=parents, scheme=s)
    yield dict(kind='forest', sizes=[40, 1100, 1300], parents=[[(7 * i) % 40 for i in range(1100)], [(11 * i + i // 1100) % 1100 for i in range(1300)]], scheme='up')
    shapes = [(1, 1, 1), (1, 2, 2), (2, 2, 2), (1, 3, 3), (2, 2, 3), (2, 3, 3)] + ([(3, 3, 3), (3, 3, 4)] if th else [])
    for sizes in shapes:
        for parents in hier.forests(sizes):
            for s in (['up', 'u16', 'down'] if sum(sizes) < 7 else ['down']):
                yield dict(kind='file', sizes=list(sizes), parents=parents, scheme=s)


def check(case, trace):
    levels = hier.build(case['sizes'], case['parents'], case['scheme'])
    if case['kind'] == 'file':
        return check_file(case, levels, trace)
    n = len(levels)
    ent, par = hier.names(n)
    ds = hier.dataset(levels, case['scheme'])
    before = digest(ds)
    trav = OneToManyTraversal(ds, ent, par)
    # another hierarchy with the same names is there at the same time
    other = hier.build([1] * n, [[0]] * (n - 1), 'up')
    twin = OneToManyTraversal(hier.dataset(other, 'up'), ent, par)
    walk(trav, levels, ent, par, ['value%d' % i for i in range(n)], [{r[0]: r[2] for r in rows} for rows in levels], trace)
    walk(twin, other, ent, par, ['value%d' % i for i in range(n)], [{r[0]: r[2] for r in rows} for rows in other], trace)
    require(digest(ds) == before, 'the dataset was modified')
    # refusing names that do not fit
    try:
        OneToManyTraversal(ds, ent, par + par[:1])
    except ValueError:
        pass
    else:
        require(False, 'a hierarchy with as many parents as entities was accepted')


def groups(by):
    return {} if by is None else {int(k): [int(i) for i in np.atleast_1d(np.arange(v.start, v.stop) if isinstance(v, slice) else v)] for k, v in by.groups.items()}


def parts(by, var):
    """What iterating over the groups gives: id -> the rows of var, in order."""
    out = {}
    for k, sub in (() if by is None else by):
        require(int(k) not in out, 'id %s is visited twice', k)
        out[int(k)] = sub[var].values.tolist()
    return out


def walk(trav, levels, ent, par, var, value, trace):
    """All groups of all levels against the rows they should have."""
    for i, rows in enumerate(levels):
        up = par[i - 1] if i else None
        own = {r[0]: [k] for k, r in enumerate(rows)}
        for by in (trav.entity_groups[ent[i]], trav.entity_groups_by_parent[up]):
            require(groups(by) == own, 'rows of level %d by id: %s, expected %s', i, groups(by), own)
            got, want = parts(by, var[i]), {r[0]: [value[i][r[0]]] for r in rows}
            require(got == want, '%s of level %d by id: %s, expected %s', var[i], i, got, want)
            trace.step('entity', i, got)
            trace.agree(2)
        if i == 0:
            continue
        kids = {}
        for k, r in enumerate(rows):
            kids.setdefault(r[1], []).append(k)
        for by in (trav.parent_groups[up], trav.parent_groups_by_entity[ent[i]]):
            require(groups(by) == kids, 'rows of level %d by parent: %s, expected %s', i, groups(by), kids)
            got, want = parts(by, var[i]), {p: [value[i][rows[k][0]] for k in ks] for p, ks in kids.items()}
            require(got == want, '%s of level %d by parent: %s, expected %s', var[i], i, got, want)
            trace.step('parent', i, got)
            trace.agree(2)


def check_file(case, levels, trace):
    F, G, E = levels
    for units in ('km2', 'm2'):
        d = dict(F=[dict(id=r[0]) for r in F], G=[dict(id=r[0], fl=r[1]) for r in G], E=[dict(id=r[0], gr=r[1]) for r in E], aunits=units)
        glm = GLMDataset(lcfa.write(d, scratch(), 'a-%s.nc' % units) if len(E) == 2 else lcfa.decoded(d), ellipse_rev=0)
        # rows with a complete lineage and with children
        gk = [r for r in G if r[0] in {e[1] for e in E}]
        fk = [r for r in F if r[0] in {g[1] for g in gk}]
        rows = lcfa.filled(d)
        code = {l: {r['id']: r for r in rows[l]} for l in 'FGE'}
        ds = glm.dataset
        # walking shows the values of the opened dataset, in its units
        value = [dict(zip(ds[i].values.tolist(), ds[v].values.tolist())) for i, v in (('flash_id', 'flash_area'), ('group_id', 'group_area'), ('event_id', 'event_energy'))]
        for l, v in (('F', value[0]), ('G', value[1])):
            for i, x in v.items():
                w = lcfa.float_area(code[l][i]['area'], units)
                require(abs(x - w) <= 1e-5 * w, 'area of %s is %s km2, expected %s', i, x, w)
        order = [[r for i in ds[n].values.tolist() for r in rows_ if r[0] == i] for n, rows_ in (('flash_id', fk), ('group_id', gk), ('event_id', E))]
        require([len(o) for o in order] == [len(fk), len(gk), len(E)], 'rows %s', order)
        walk(glm, order, ['flash_id', 'group_id', 'event_id'], ['group_parent_flash_id', 'event_parent_group_id'], ['flash_area', 'group_area', 'event_energy'], value, trace)
        # the first group of each flash, as in the example of where flashes begin
        first = {}
        for fid, sub in glm.parent_groups['group_parent_flash_id']:
            k = int(sub.group_time_offset.values.argmin())
            first[int(fid)] = (float(sub.group_lat.values[k]), float(sub.group_lon.values[k]))
        want = {}
        for f in fk:
            g = min((code['G'][r[0]] for r in order[1] if r[1] == f[0]), key=lambda g: g['t'])
            want[f[0]] = (float(np.float32(g['lat'])), float(np.float32(g['lon'])))
        require(first == want, 'flashes begin at %s, expected %s', first, want)
        # down to the events and back up
        for f in fk:
            gs = sorted(r[0] for r in gk if r[1] == f[0])
            down = sorted(int(e) for g in gs for e in glm.dataset.event_id.values[glm.parent_groups['event_parent_group_id'].groups[g]])
            require(down == sorted(e[0] for e in E if e[1] in gs), 'events of flash %s: %s', f[0], down)
        trace.step('file', units, sorted(first.items()))
        trace.agree(len(fk) + 1)
