"""C03: broken trees are reported exactly and repaired on open; empty files open."""
import itertools

from mc import hier, lcfa
from mc.checks import c02
from mc.checks.c01 import file_rows
from mc.core import require, digest, scratch
from glmtools.io.traversal import OneToManyTraversal
from glmtools.io.glm import GLMDataset

BOUNDS = {
    'quick': 'all consistent trees up to 2 flashes, 3 groups, 3 events, with every set of up to 2 faults out of: remove any row, redirect any parent reference to a missing id; '
             'every combination of empty levels; 600 flashes, 1200 groups and 1200 events with 300 childless flashes and groups, 300 groups and events without parent, or both; generic forests of up to 3/3/2 rows with any references missing (absent ids positive and negative) for the report alone',
    'thorough': 'all consistent trees up to 3 flashes, 3 groups, 4 events, up to 2 faults, and up to 3 faults on trees up to 2/3/3; the same with many faults at ten times the size; generic forests up to 3/3/3 and 4 levels up to 2/2/2/2',
}
ASSUMPTIONS = ['ids are unique within a level']


def trees(limit):
    for sizes in itertools.product(range(1, limit[0] + 1), range(1, limit[1] + 1), range(1, limit[2] + 1)):
        for parents in hier.forests(sizes):
            if any(set(range(n)) - set(p) for n, p in zip(sizes, parents)):
                continue
            # renaming flashes or groups gives nothing new for repair: keep the canonical ones
            if all(p == canonical(p) for p in parents):
                yield sizes, parents


def canonical(p):
    seen = {}
    return [seen.setdefault(x, len(seen)) for x in p]


def cases(tier):
    th = tier == 'thorough'
    fam = [((2, 3, 3), 2, 'down')]
    if th:
        fam = [((2, 3, 3), 3, 'down'), ((2, 2, 3), 2, 'u16'), ((3, 3, 4), 2, 'mixed')]
    for limit, k, scheme in fam:
        done = set()
        for sizes, parents in trees(limit):
            faults = [('drop', l, i) for l in range(3) for i in range(sizes[l])]
            faults += [('miss', l, i) for l in (1, 2) for i in range(sizes[l])]
            for n in range(k + 1):
                for fs in itertools.combinations(faults, n):
                    yield dict(kind='file', sizes=list(sizes), parents=parents, scheme=scheme, faults=[list(f) for f in fs], disk=(n == 1 and sum(sizes) == 5))
    for sizes in itertools.product((0, 1), repeat=3):
        for rows in ([1, 1, 1], [2, 2, 2]):
            yield dict(kind='empty', keep=[s * r for s, r in zip(sizes, rows)], disk=True)
    # many faults of one kind, or of all kinds at once
    for n in (300, 3000) if th else (300,):
        for what in ('orphans', 'childless', 'both', 'none'):
            yield dict(kind='many', n=n, what=what, disk=n == 300)
    gen = [(2, 2, 2), (1, 2, 2), (2, 1, 1), (3, 3), (3, 3, 2), (0, 2, 1), (2, 0, 2), (0, 0, 0), (0, 0), (2, 2, 0), (0, 0, 2)]
    gen += [(3, 3, 3), (2, 2, 2, 2)] if th else [(2, 1, 2, 1)]
    for sizes in gen:
        for parents in hier.forests(sizes, orphan=True):
            for s in ('up', 'u16', 'neg'):
                yield dict(kind='report', sizes=list(sizes), parents=parents, scheme=s)


def report_model(levels):
    ent, par = hier.names(len(levels))
    e, p = {}, {}
    for i in range(len(levels) - 1):
        have = {r[0] for r in levels[i]}
        used = {r[1] for r in levels[i + 1]}
        e[ent[i]] = (len(have), len(have - used), have - used)
        p[par[i]] = (len(used), len(used - have), used - have)
    return e, p


def norm(stats):
    return {k: (int(a), int(b), {int(x) for x in c}) for k, (a, b, c) in stats.items()}


def check(case, trace):
    if case['kind'] == 'report':
        levels = hier.build(case['sizes'], case['parents'], case['scheme'])
        ent, par = hier.names(len(levels))
        ds = hier.dataset(levels, case['scheme'])
        got = [norm(s) for s in OneToManyTraversal(ds, ent, par).check_parent_child()]
        want = list(report_model(levels))
        require(got == want, 'report %s, expected %s', got, want)
        trace.step(got)
        trace.agree()
        return
    if case['kind'] == 'many':
        n, what = case['n'], case['what']
        F, G, E = ([[i + 1, None, {}] for i in range(2 * n)], [[10000 + i, i // 2 + 1, {}] for i in range(4 * n)], [[50000 + i, 10000 + i, {}] for i in range(4 * n)])
        if what in ('orphans', 'both'):
            for i in range(n):
                G[i][1] = 40000 + i
                E[4 * n - 1 - i][1] = 900000 + i
        if what in ('childless', 'both'):
            F += [[20000 + i, None, {}] for i in range(n)]
            G += [[200000 + i, n, {}] for i in range(n)]
        levels = [[tuple(r) for r in rows] for rows in (F, G, E)]
    elif case['kind'] == 'empty':
        levels = hier.build([2, 2, 2], [[0, 1], [0, 1]], 'up')
        levels = [rows[:n] for rows, n in zip(levels, case['keep'])]
    else:
        levels = hier.build(case['sizes'], case['parents'], case['scheme'])
        gone = {(l, i) for f, l, i in case['faults'] if f == 'drop'}
        miss = {(l, i) for f, l, i in case['faults'] if f == 'miss'}
        absent = hier.ABSENT[case['scheme']]
        levels = [[(r[0], absent, r[2]) if (l, i) in miss else r for i, r in enumerate(rows) if (l, i) not in gone]
                  for l, rows in enumerate(levels)]
    F, G, E = levels
    # 16 bit flash ids unless the scheme needs more
    big = any(r[0] > 65535 for r in F) or any((r[1] or 0) > 65535 for r in G)
    d = dict(F=[dict(id=r[0]) for r in F], G=[dict(id=r[0], fl=r[1]) for r in G], E=[dict(id=r[0], gr=r[1]) for r in E],
             flash_id_bytes=4 if big else 2)
    src = lcfa.decoded(d)
    trav = OneToManyTraversal(src, ['flash_id', 'group_id', 'event_id'], ['group_parent_flash_id', 'event_parent_group_id'])
    got = [norm(s) for s in trav.check_parent_child()]
    e, p = report_model(levels)
    want = [{'flash_id': e['l0_id'], 'group_id': e['l1_id']},
            {'group_parent_flash_id': p['l1_parent_l0_id'], 'event_parent_group_id': p['l2_parent_l1_id']}]
    require(got == want, 'report %s, expected %s', got, want)
    trace.step(got)
    trace.agree()
    # complete lineages only
    fl = {r[0] for r in F}
    gr = {r[0] for r in G if r[1] in fl}
    kE = [r for r in E if r[1] in gr]
    kG = [r for r in G if r[0] in gr and r[0] in {e[1] for e in kE}]
    kF = [r for r in F if r[0] in {g[1] for g in kG}]
    opened = [GLMDataset(src, ellipse_rev=0)]
    if case['disk']:
        opened.append(GLMDataset(lcfa.write(d, scratch()), ellipse_rev=0))
    plain = lcfa.decoded(d)
    for g in opened:
        ds = g.dataset
        for v, rows in zip(('flash_id', 'group_id', 'event_id'), (kF, kG, kE)):
            ids = [int(x) for x in ds[v].values]
            require(sorted(ids) == sorted(r[0] for r in rows), '%s after opening: %s, expected %s', v, ids, [r[0] for r in rows])
            if len(kF) + len(kG) + len(kE) == len(F) + len(G) + len(E):
                require(ids == [r[0] for r in rows], 'a consistent file was reordered')
            # parents and values of each row as stored
            pv = {'group_id': 'group_parent_flash_id', 'event_id': 'event_parent_group_id'}.get(v)
            if pv:
                require(dict(zip(ids, (int(x) for x in ds[pv].values))) == {r[0]: r[1] for r in rows}, '%s altered', pv)
            for var in (v.replace('_id', '_lat'), v.replace('_id', '_lon')):
                full = dict(zip((int(x) for x in plain[v].values), plain[var].values))
                require(all(full[i] == x for i, x in zip(ids, ds[var].values)), '%s moved to another row', var)
        c02.judge(ds, [kF, kG, kE], trace)
        for sel in ([], [r[0] for r in kF]):
            sub = g.get_flashes(sel)
            require(sorted(int(x) for x in sub.flash_id.values) == sorted(sel), 'flashes cannot be retrieved after repair')
            trace.step('get', len(sel), lcfa.ids(sub))
        trace.step('repair', lcfa.ids(ds))
        trace.agree()
        ds.close()
