"""C05: every past revision of a document can be revisited exactly.

Monitor: generated multi-revision files are rewound step by step; each step is compared with the generator's record of that revision and with the
same file truncated after that revision; documents edited and committed in memory are rewound and compared with the snapshots taken on the way."""
from ..lib import Name, Ref, Stm, from_lib, short
from .. import gen, docs, edits
from . import c04

ID = 'C05'
QUICK, THOROUGH = 2200, 40000
SCALED = 12
RULE = ('random files of 1-6 revisions in every index layout, rewound to the first; every other case is an in-memory history of edits and commits on a '
        'blank or loaded document, rewound to its start; distinct: file bytes or final snapshot; non-trivial: at least one revision undone')
NEED = {'oracle_checks': 50000, 'generations_checked': 30000, 'in_use_checked': 2000, 'rewind': 4000, 'layout:table': 100, 'layout:stream': 100, 'layout:objstm': 100, 'layout:hybrid': 100,
        'truncated': 300, 'undone_open': 300, 'undone_commit': 300, 'kind:a': 100, 'kind:u': 100, 'kind:d': 50, 'layout:lintable': 20, 'layout:linstream': 20,
        'indirect_filters': 300, 'plain_checks': 15000}
N = docs.N


def expected_changes(f, j):
    """{num: set of accepted actions} of revision j (0 based), containers left out."""
    new = f.states[j].objs
    old = f.states[j - 1].objs if j else {}
    ever = set()
    for s in f.states[:j]:
        ever |= set(s.objs)
    out = {}
    for n in new:
        if n not in old:
            out[n] = {'a', 'u'} if n in ever else {'a'}
        elif new[n][0] != old[n][0]:
            out[n] = {'a', 'u'}
        elif not docs.same(new[n][1], old[n][1]):
            out[n] = {'u'}
    for n in old:
        if n not in new:
            out[n] = {'d'}
    return out


def check_changes(c, f, j, chg, where):
    want = expected_changes(f, j)
    got, gens = {}, {}
    for iref, a in chg:
        n = int(iref.imag)
        c.check(n not in got, f'{where}: object {n} is listed twice among the changes')
        got[n] = a
        gens[n] = int(iref.real)
    for n, a in got.items():
        if n in f.containers:
            continue
        c.check(n in want, f'{where}: object {n} is listed as {a!r} but did not change')
        c.check(a in want[n], f'{where}: object {n} is listed as {a!r} instead of {sorted(want[n])}')
        objs = f.states[j - 1 if a == 'd' else j].objs
        if n in objs:
            c.check(gens[n] == objs[n][0], f'{where}: object {n} is listed as {a!r} with generation {gens[n]} instead of {objs[n][0]}')
            c.count('generations_checked')
        c.feat('kind:' + a)
        c.count('kind:' + a)
    missing = sorted(set(want) - set(got))
    c.check(not missing, f'{where}: changes do not list {missing[:8]}')


def from_file(c):
    r, L = c.r, c.L
    f, b = gen.random_file(r, revs=r.choice([1, 2, 2, 3, 4, 5, 6]), build=dict(gens=r.random() < .4, sparse=r.choice([0, 0, .1]), wild=r.choice([0, 0, 1, 2])))
    data = f.data()
    c.digest(data)
    for ly in f.layouts:
        c.feat('layout:' + ly)
        c.count('layout:' + ly)
    n = len(f.states)
    doc, fo = c04.open_any(c, data)
    c.check(L.updates(doc) == n, f'{n} revisions, updates() says {L.updates(doc)}')
    c.check(L.changes(doc) == [], f'an untouched document lists changes: {short(L.changes(doc))}')
    for k in range(n):
        where = f'revision {k} of {"/".join(f.layouts)}'
        check_changes(c, f, k, L.changes(doc, k), 'changes of ' + where)
        got = [(int(i.imag), int(i.real)) for i in L.in_use(doc, k) if int(i.imag) not in f.containers]
        want = [(x, f.states[k].objs[x][0]) for x in sorted(f.states[k].objs) if x not in f.containers]
        c.check(sorted(got) == want, f'{where}: objects in use differ: {short(sorted(set(got) ^ set(want)))}')
        c.count('in_use_checked')
    c.sample('%s: %d objects' % ('/'.join(f.layouts), len(f.states[-1].objs)))
    d = doc
    order = r.random() < .3
    for k in range(1, n + 2):
        if order:                     # reading objects in between must not matter
            for x in r.sample(sorted(f.states[-1].objs), min(4, len(f.states[-1].objs))):
                L.get_object(d, complex(0, x))
        d = L.rewind(d)
        j = max(0, n - k)
        where = f'{"/".join(f.layouts)} rewound {k} time(s), revision {j}'
        docs.check_state(c, L, d, f.states[j], where, f.containers)
        c.check(L.updates(d) == j, f'{where}: updates() says {L.updates(d)} instead of {j}')
        check_changes(c, f, j, L.changes(d), where)
    k = r.randrange(n)
    cut = data[:f.ends[k]]
    d2, fo2 = c04.open_any(c, cut)
    where = f'{"/".join(f.layouts)} truncated after revision {k}'
    c.count('truncated')
    docs.check_state(c, L, d2, f.states[k], where, f.containers)
    c.check(L.updates(d2) == k + 1, f'{where}: updates() says {L.updates(d2)}')
    # the original is still the newest revision
    docs.check_state(c, L, doc, f.states[-1], 'original after rewinding copies of it', f.containers)
    for x in (fo, fo2):
        if x:
            x.close()


def from_edits(c):
    r, L = c.r, c.L
    if r.random() < .3:
        doc = edits.blank(c)
    else:
        doc, f, b = edits.loaded(c)
        c.count('layout:' + f.layouts[-1])
    base = docs.snapshot(L, doc)
    hist = []                          # snapshots of the open revisions at commit time
    log = []
    for _ in range(r.randint(1, 4)):
        for _ in range(r.randint(0, 3)):
            doc, name = edits.op(c, doc, [o for o in edits.OPS if o not in ('commit', 'concat')])
            log.append(name)
        if r.random() < .2:            # writing commits
            snap = docs.snapshot(L, doc)
            n0 = snap['updates']
            doc, _ = L.write(doc, c.path())
            log.append('write')
        else:
            snap = docs.snapshot(L, doc)
            n0 = snap['updates']
            doc = L.commit(doc)
            log.append('commit')
        if L.updates(doc) == n0 + 1:
            hist.append(snap)
        else:
            c.check(not snap['changes'] and L.updates(doc) == n0, f'commit of {len(snap["changes"])} change(s) leads to revision {L.updates(doc)}')
    pend = []
    for _ in range(r.randint(0, 3)):
        doc, name = edits.op(c, doc, [o for o in edits.OPS if o not in ('commit', 'concat')])
        pend.append(name)
    where = f'history {" ".join(log)} | {" ".join(pend)}'
    c.sample(where)
    c.digest(repr(log + pend) + repr(sorted(docs.snapshot(L, doc)['objects'])))
    if not hist:
        c.trivial()
    final = docs.snapshot(L, doc)
    if final['changes']:
        c.count('undone_open')
    d = doc
    for i, snap in enumerate(reversed(hist)):
        d = L.rewind(d)
        got = docs.snapshot(L, d)
        diff = docs.diff_snapshot(drop_x(snap), drop_x(got))
        c.count('oracle_checks')
        c.count('undone_commit')
        if diff:
            c.fail(f'rewinding {i + 1} of {len(hist)} revision(s): {diff}', history=where)
    d = L.rewind(d)
    got = docs.snapshot(L, d)
    got['changes'] = base['changes']
    if base['updates'] == 0:
        got['updates'] = 0
    else:
        got['updates'] += 1            # the revision opened for editing is undone as well
    diff = docs.diff_snapshot(drop_x(base), drop_x(got)) if hist else None
    if diff:
        c.fail(f'rewinding to the start: {diff}', history=where)
    c.count('oracle_checks')


def drop_x(s):
    s = dict(s)
    s['trailer'] = docs.trailer_view(s['trailer'])
    return s


def case(c):
    if c.i % 2:
        from_edits(c)
    else:
        from_file(c)


def d_n(i):
    def f(c):
        c.r.seed(i)
        c.i = i
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(10)}
