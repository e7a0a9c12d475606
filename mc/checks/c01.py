"""C01: subsetting keeps exactly the requested lineage."""
import itertools

import numpy as np

from mc import hier, lcfa
from mc.core import require, digest
from glmtools.io.traversal import OneToManyTraversal
from glmtools.io.glm import GLMDataset

BOUNDS = {
    'quick': 'all forests of 3 levels up to 2/3/3 rows, 2 levels up to 3/3, 4 levels up to 2/2/2/2, orphan forests up to 2/2/2; '
             '7 id schemes on the 2/2/2 family, 2 on the rest; all request lists up to length 2 (3 on small forests) with repeats and an absent id; chains of depth 2; requests that differ only in the middle, the order or the level one after another on one object; '
             'opened files up to 2 flashes, 3 groups, 3 events; absent ids that differ from a present one by a multiple of the range of the stored type; 5 large forests (up to 70,000 rows)',
    'thorough': 'all forests of 3 levels up to 3/3/4 rows, 2 levels up to 3/4, 4 levels up to 2/2/3/3, orphan forests up to 2/3/3; all id schemes; '
                'all request lists up to length 3; chains of depth 3; opened files up to 3 flashes, 3 groups, 4 events; aliases and large forests as in quick',
}
ASSUMPTIONS = ['entity ids are unique within their level', 'repeated requests repeat the entity and its descendants']


def cases(tier):
    thorough = tier == 'thorough'
    allschemes = list(hier.ID_SCHEMES)
    fam = []
    for n in itertools.product((1, 2), (0, 1, 2), (0, 1, 2)):
        fam.append((n, False, allschemes, 3, 0))
    for n in ((1, 3, 3), (2, 3, 2), (2, 2, 3), (2, 3, 3), (3, 3, 1), (3, 2), (3, 3), (2, 3), (1, 1), (2, 2, 2, 2), (1, 2, 2, 2), (2, 1, 2, 2)):
        fam.append((n, False, allschemes if thorough else ['up', 'mixed'], 3 if thorough else 2, 0))
    for n in ((1, 1, 1), (1, 2, 1), (2, 2, 2), (2, 2)) + (((2, 3, 3),) if thorough else ()):
        fam.append((n, True, ['up', 'u16'], 2, 0))
    for n in ((1, 1, 1), (1, 2, 2), (2, 2, 2), (2, 3, 3)):
        fam.append((n, False, ['up', 'down'], 1, 3 if thorough and sum(n) < 8 else 2))
    if thorough:
        for n in ((3, 3, 4), (3, 4), (2, 2, 3, 3)):
            fam.append((n, False, ['mixed'], 2, 0))
    for sizes in ((3, 300, 1200), (300, 300, 300), (1, 1, 70000), (40000, 40000), (2, 3, 300, 600)):
        yield dict(kind='large', sizes=list(sizes), scheme='large')
    for sizes, orphan, schemes, maxlen, depth in fam:
        for parents in hier.forests(sizes, orphan):
            if sizes[0] == 0 or any(a == 0 and b for a, b in zip(sizes, sizes[1:])) and not orphan:
                continue
            for s in schemes:
                yield dict(kind='chain' if depth else 'forest', sizes=list(sizes), parents=parents, scheme=s, maxlen=maxlen, depth=depth)
    shapes = [(1, 1, 1), (1, 2, 2), (2, 2, 2), (2, 2, 3), (2, 3, 3)] + ([(3, 3, 3), (3, 3, 4)] if thorough else [])
    for sizes in shapes:
        for parents in hier.forests(sizes):
            if any(set(range(n)) - set(p) for n, p in zip(sizes, parents)):
                continue    # every flash has a group and every group an event
            for s in (['up', 'u16', 'down'] if sum(sizes) < 8 or thorough else ['down']):
                yield dict(kind='file', sizes=list(sizes), parents=parents, scheme=s)


def requests(ids, absent, maxlen):
    pool = list(ids) + [absent]
    for k in range(maxlen + 1):
        for r in itertools.product(pool, repeat=k):
            yield list(r)


def compare(ds, levels, lvl, wanted):
    n = len(levels)
    here, keep = hier.reduce_model(levels, lvl, wanted)
    got = hier.rows_of(ds, n)
    require(got[lvl] == here, 'level %d reduced to %s: rows %s, expected %s', lvl, wanted, got[lvl], here)
    for i, rows in keep.items():
        g, w = sorted(got[i]), rows
        if len(set(wanted)) < len(wanted) and i > lvl:
            g, w = sorted(set(g)), sorted(set(w))
        require(g == w, 'level %d reduced to %s: level %d has %s, expected %s', lvl, wanted, i, got[i], rows)
    require(float(ds['product_time']) == 42.0 and list(ds['bounds'].values) == [1.0, 2.0], 'variables outside the tree changed')
    return got


def check(case, trace):
    if case['kind'] == 'file':
        return check_file(case, trace)
    if case['kind'] == 'large':
        return check_large(case, trace)
    levels = hier.build(case['sizes'], case['parents'], case['scheme'])
    explore(levels, case, trace, case['depth'] or 1, True)


def explore(levels, case, trace, depth, top):
    n = len(levels)
    ent, par = hier.names(n)
    ds = hier.dataset(levels, case['scheme'])
    before = digest(ds)
    trav = OneToManyTraversal(ds, ent, par)
    absent = hier.ABSENT[case['scheme']]
    for lvl in range(n):
        ids = [r[0] for r in levels[lvl]]
        for k, wanted in enumerate(requests(ids, absent, case['maxlen'])):
            arg = wanted if k % 2 else np.array(wanted, dtype=hier.DTYPES[case['scheme']])
            out = trav.reduce_to_entities(ent[lvl], arg)
            got = compare(out, levels, lvl, wanted)
            trace.step(got)
            trace.agree(n)
            if depth > 1:
                chain(out, got, case, trace, depth - 1)
        for i in ids:
            for a in hier.aliases(case['scheme'], i):
                for wanted in ([a], [a, ids[0]]):
                    for arg in (wanted, np.array(wanted)):
                        trace.step(compare(trav.reduce_to_entities(ent[lvl], arg), levels, lvl, wanted))
                        trace.agree(n)
    if depth == 1:
        again(trav, levels, case, trace, ent)
    require(digest(ds) == before, 'the source dataset was modified')


def again(trav, levels, case, trace, ent):
    """Requests one after another on one object that differ in a single respect: in the middle, in order, in level, in an array written over."""
    n = len(levels)
    absent = hier.ABSENT[case['scheme']]
    for lvl in range(n):
        ids = [r[0] for r in levels[lvl]][:3]
        three = sorted(([a, b, c] for a, c in itertools.product(ids[:2], repeat=2) for b in ids + [absent]), key=lambda r: (r[0], r[2]))
        flip = [r for p in itertools.combinations(ids, 2) for r in (list(p), list(p)[::-1], [p[0], p[0]], [p[0], absent])]
        buf = np.zeros(3, dtype=hier.DTYPES[case['scheme']])
        for wanted in three + flip:
            arg = wanted
            if len(wanted) == 3:
                buf[:] = wanted
                arg = buf
            trace.step(compare(trav.reduce_to_entities(ent[lvl], arg), levels, lvl, wanted))
            trace.agree(n)
    pool = [r[0] for r in max(levels, key=len)][:3]
    for wanted in [[i] for i in pool] + [pool, []]:
        for lvl in list(range(n)) + list(range(n - 1, -1, -1)):
            trace.step(compare(trav.reduce_to_entities(ent[lvl], np.array(wanted, dtype=hier.DTYPES[case['scheme']])), levels, lvl, wanted))
            trace.agree(n)


def check_large(case, trace):
    """Many rows: single ids, every second one, and all of each level in another order."""
    levels = hier.build(case['sizes'], hier.spread(case['sizes']), case['scheme'])
    n = len(levels)
    ent, par = hier.names(n)
    trav = OneToManyTraversal(hier.dataset(levels, case['scheme']), ent, par)
    for lvl in range(n):
        ids = [r[0] for r in levels[lvl]]
        for wanted in ([ids[0]], [ids[-1]], [ids[len(ids) // 2]], ids[::2], ids[1::2][:300], ids[::-1], ids[:257]):
            got = compare(trav.reduce_to_entities(ent[lvl], np.array(wanted)), levels, lvl, wanted)
            trace.step(got)
            trace.agree(n)


def chain(ds, levels, case, trace, depth):
    """Reduce the result again, every id of every level."""
    n = len(levels)
    ent, par = hier.names(n)
    trav = OneToManyTraversal(ds, ent, par)
    for lvl in range(n):
        for wanted in [[]] + [[i] for i in dict.fromkeys(r[0] for r in levels[lvl])] + [[r[0] for r in levels[lvl]]]:
            out = trav.reduce_to_entities(ent[lvl], wanted)
            got = compare(out, levels, lvl, wanted)
            trace.step(got)
            trace.agree(n)
            if depth > 1:
                chain(out, got, case, trace, depth - 1)


LEVEL_VARS = {
    'F': ['flash_lat', 'flash_lon', 'flash_area', 'flash_energy', 'flash_time_offset_of_first_event',
          'flash_time_offset_of_last_event', 'flash_x', 'flash_y', 'flash_child_group_count', 'flash_child_event_count'],
    'G': ['group_parent_flash_id', 'group_lat', 'group_lon', 'group_area', 'group_energy', 'group_time_offset',
          'group_x', 'group_y', 'group_child_event_count'],
    'E': ['event_parent_group_id', 'event_lat', 'event_lon', 'event_energy', 'event_time_offset', 'event_x', 'event_y',
          'event_parent_flash_id'],
}
ID_VAR = {'F': 'flash_id', 'G': 'group_id', 'E': 'event_id'}


def file_rows(ds, lvl):
    cols = [ds[v].values for v in [ID_VAR[lvl]] + LEVEL_VARS[lvl]]
    return {int(c[0]): tuple(c[1:]) for c in zip(*cols)}, [int(i) for i in cols[0]]


def describe(case):
    levels = hier.build(case['sizes'], case['parents'], case['scheme'])
    # group and event ids have 32 bits in the file, flash ids 16
    return levels, dict(F=[dict(id=r[0]) for r in levels[0]],
                        G=[dict(id=r[0], fl=r[1]) for r in levels[1]],
                        E=[dict(id=r[0], gr=r[1]) for r in levels[2]])


def check_file(case, trace):
    levels, d = describe(case)
    glm = GLMDataset(lcfa.decoded(d), ellipse_rev=0)
    src = {l: file_rows(glm.dataset, l)[0] for l in 'FGE'}
    before = digest(glm.dataset)
    absent = hier.ABSENT[case['scheme']]
    fl = [r[0] for r in levels[0]]
    more = sorted(([a, b, c] for a, b, c in itertools.permutations(fl + [absent], 3) if absent != a), key=lambda r: (r[0], r[2]))
    for wanted in list(requests(fl, absent, 2)) + more + [fl[:1], fl[-1:], fl[:1]]:
        if len(set(wanted)) < len(wanted):
            continue
        out = glm.get_flashes(wanted)
        here, keep = hier.reduce_model(levels, 0, wanted)
        for l, rows in zip('FGE', (here, keep[1], keep[2])):
            got, order = file_rows(out, l)
            require(sorted(order) == sorted(r[0] for r in rows), 'flashes %s: %s ids %s, expected %s',
                    wanted, l, order, [r[0] for r in rows])
            for i in got:
                require(all(a == b or (a != a and b != b) for a, b in zip(got[i], src[l][i])),
                        'flashes %s: row %s %d differs from the source', wanted, l, i)
            trace.agree()
        require(out.attrs == glm.dataset.attrs and out.product_time.values == glm.dataset.product_time.values,
                'file level data changed')
        trace.step('file', [file_rows(out, l)[1] for l in 'FGE'], case['parents'])
    require(digest(glm.dataset) == before, 'the source dataset was modified')
