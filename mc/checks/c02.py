"""C02: derived counts and ancestor ids agree with the tree."""
import collections
import itertools

import numpy as np

from mc import hier, lcfa
from mc.core import require, digest, scratch
from glmtools.io.traversal import OneToManyTraversal
from glmtools.io.glm import GLMDataset

BOUNDS = {
    'quick': 'all forests: 2 levels up to 4/4 rows, 3 levels up to 3/3/3 with 7 id schemes on up to 2/3/3, 4 levels up to 2/2/3/2; every pair of levels; '
             'opened data up to 2 flashes, 3 groups, 3 events, with and without childless flashes and groups; 6 large trees (up to 70,000 children of one row, 40,000 rows)',
    'thorough': 'all forests: 2 levels up to 4/5 rows, 3 levels up to 3/3/4, 4 levels up to 2/3/3/3, 7 id schemes; every pair of levels; '
                'opened data up to 3 flashes, 3 groups, 4 events; large trees as in quick',
}
ASSUMPTIONS = ['ids are unique within a level', 'every parent reference exists (broken references are the subject of C03)']


def cases(tier):
    th = tier == 'thorough'
    alls = list(hier.ID_SCHEMES)
    fam = [((a, b, c), alls) for a in (1, 2) for b in (1, 2, 3) for c in (1, 2, 3)]
    fam += [((3, 3, 3), alls if th else ['mixed']), ((4, 4), ['mixed', 'u16']), ((1, 3), ['up']), ((3, 4), ['down']), ((1, 2, 0), alls), ((2, 0, 0), alls), ((1, 0), alls),
            ((2, 2, 2, 2), alls if th else ['up', 'mixed']), ((2, 2, 3, 2), alls if th else ['mixed']), ((1, 1, 1, 1), alls), ((2, 2, 2, 0), ['up'])]
    if th:
        fam += [((4, 5), ['mixed']), ((3, 3, 4), ['mixed', 'u16']), ((2, 3, 3, 3), ['mixed'])]
    for sizes in ((1, 300, 300), (2, 700, 2100), (1, 1, 70000), (40000, 40000), (1, 70000), (3, 3, 300, 900)):
        yield dict(kind='forest', sizes=list(sizes), parents=None, scheme='large')
        if len(sizes) == 3:
            yield dict(kind='file', sizes=list(sizes), parents=None, scheme='large')
    for sizes, schemes in fam:
        for parents in hier.forests(sizes):
            for s in schemes:
                yield dict(kind='forest', sizes=list(sizes), parents=parents, scheme=s)
    shapes = [(1, 1, 1), (1, 2, 2), (2, 2, 2), (1, 2, 3), (1, 3, 3), (2, 2, 3), (2, 3, 3)] + ([(3, 3, 3), (3, 3, 4)] if th else [])
    for sizes in shapes:
        for parents in hier.forests(sizes):
            for s in (['up', 'u16', 'down'] if sum(sizes) < 8 else ['u16', 'down'] if th else ['u16']):
                yield dict(kind='file', sizes=list(sizes), parents=parents, scheme=s)


def check(case, trace):
    if case['parents'] is None:
        case = dict(case, parents=hier.spread(case['sizes']))
    levels = hier.build(case['sizes'], case['parents'], case['scheme'])
    if case['kind'] == 'file':
        return check_file(case, levels, trace)
    n = len(levels)
    ent, par = hier.names(n)
    ds = hier.dataset(levels, case['scheme'])
    before = digest(ds)
    trav = OneToManyTraversal(ds, ent, par)
    kids = [collections.Counter(c[1] for c in rows) for rows in levels]
    nch = [[kids[i + 1][r[0]] for r in levels[i]] for i in range(n - 1)]
    for i in range(n - 1):
        got = trav.count_children(ent[i])
        require(len(got) == 1 and list(got[0]) == nch[i], 'children of level %d: %s, expected %s', i, got, nch[i])
        trace.step('count', i, got)
        trace.agree()
        for j in range(i + 1, n):
            got = trav.count_children(ent[i], ent[j])
            require([list(g) for g in got] == nch[i:j], 'counts from level %d to %d: %s, expected %s', i, j, got, nch[i:j])
            trace.step('counts', i, j, [list(g) for g in got])
            trace.agree(j - i)
            got = [int(x) for x in trav.replicate_parent_ids(ent[i], par[j - 1])]
            want = ancestors(levels, j, i)
            require(got == want, 'level %d ids on rows of level %d: %s, expected %s', i, j, got, want)
            trace.step('ids', i, j, got)
            trace.agree()
    require(digest(ds) == before, 'the source dataset was modified')


def ancestors(levels, lvl, top):
    """The id at level ``top`` that each row of level ``lvl`` descends from."""
    out = [r[1] for r in levels[lvl]]
    for i in range(lvl - 1, top, -1):
        up = {r[0]: r[1] for r in levels[i]}
        out = [up[x] for x in out]
    return out


def check_file(case, levels, trace):
    d = dict(F=[dict(id=r[0]) for r in levels[0]], G=[dict(id=r[0], fl=r[1]) for r in levels[1]], E=[dict(id=r[0], gr=r[1]) for r in levels[2]],
             flash_id_bytes=4 if case['scheme'] == 'large' else 2)
    complete = not any(set(range(n)) - set(p) for n, p in zip(case['sizes'], case['parents']))
    ways = [dict(check_tree=False)] + ([dict()] if complete else [])
    for kw in ways:
        ds = GLMDataset(lcfa.decoded(d), ellipse_rev=0, **kw).dataset
        judge(ds, levels, trace)


def judge(ds, levels, trace):
    F, G, E = levels
    evfl = dict(zip((e[0] for e in E), ancestors(levels, 2, 0)))
    ng, ne, nge = (collections.Counter(x) for x in ((g[1] for g in G), evfl.values(), (e[1] for e in E)))
    want = {
        'flash_child_group_count': {f[0]: ng[f[0]] for f in F},
        'flash_child_event_count': {f[0]: ne[f[0]] for f in F},
        'group_child_event_count': {g[0]: nge[g[0]] for g in G},
        'event_parent_flash_id': evfl,
    }
    for var, w in want.items():
        ids = ds[{'f': 'flash_id', 'g': 'group_id', 'e': 'event_id'}[var[0]]].values
        got = {int(i): int(x) for i, x in zip(ids, ds[var].values)}
        require(got == w and len(ids) == len(w) == ds[var].size, '%s is %s, expected %s', var, got, w)
        trace.step('open', var, got)
        trace.agree()
