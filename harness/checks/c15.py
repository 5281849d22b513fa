"""C15: object edits are last-write-wins and reported exactly.

Monitor: a dictionary model follows random histories of additions, updates, deletions, reads and commits on every storage layout; after each step random or all
objects, the numbers in use and the change list are compared, older documents are re-read, and the end state is written and reopened."""
from ..lib import Name, Ref, Stm, from_lib, to_lib, short, same
from .. import gen, docs, edits
from . import c04, c07

ID = 'C15'
QUICK, THOROUGH = 1600, 28000
SCALED = 12
RULE = ('random histories of add, update, delete, reuse of deleted numbers and commit on blank and generated documents, with objects read before, between or only after '
        'the edits; distinct: histories; non-trivial: an object is written more than once or deleted')
NEED = {'oracle_checks': 80000, 'steps': 4000, 'op:add': 800, 'op:update': 1000, 'op:delete': 350, 'op:commit': 400, 'op:reuse': 100, 'op:readd': 100, 'values_read': 25000,
        'unread_updates': 500, 'change_lists': 3500, 'noop_commits': 120, 'files': 300, 'embedded_edits': 300, 'old_documents': 800, 'generations': 300, 'summaries': 4000}
N = docs.N


class Model:
    def __init__(self, objs, dead):
        self.now = dict(objs)           # num -> model value
        self.base = set(objs)           # in use at the last commit
        self.dead = set(dead)           # known numbers not in use
        self.gens = {}                  # num -> generation, for numbers that were never deleted
        self.touched = set()
        self.revs = 0

    def copy(self):
        m = Model({}, ())
        m.now, m.base, m.dead, m.touched, m.revs = dict(self.now), set(self.base), set(self.dead), set(self.touched), self.revs
        m.gens = self.gens
        return m

    def changes(self):
        """{num: allowed kinds}"""
        out = {}
        for n in self.touched:
            if n in self.now:
                out[n] = {'u'} if n in self.base else {'a', 'u'} if n in self.reused else {'a'}
            elif n in self.base:
                out[n] = {'d'}
        return out
    reused = frozenset()


def check_step(c, L, doc, m, where, full, skip):
    used = {int(i.imag): int(i.real) for i in L.in_use(doc)}
    want = set(m.now)
    c.check(set(used) - skip == want - skip, lambda: f'{where}: objects in use: missing {sorted(want - set(used) - skip)[:5]}, unexpected {sorted(set(used) - want - skip)[:5]}')
    for n, g in m.gens.items():
        if n in used and n not in m.dead:
            c.check(used[n] == g, lambda: f'{where}: object {n} has generation {used[n]} instead of {g}')
            c.count('generations', g > 0)
    got = {}
    for i, k in L.changes(doc):
        n = int(i.imag)
        c.check(m.gens.get(n, int(i.real)) == int(i.real) or n in m.dead, lambda: f'{where}: the change of object {n} is reported with generation {int(i.real)} instead of {m.gens[n]}')
        c.check(n not in got, f'{where}: object {n} is listed twice as changed')
        got[n] = k
    exp = m.changes()
    s = L.do('repr', lambda: repr(doc))
    c.count('summaries')
    c.check(s == f'<PDF Doc in revision {m.revs} with {len(got)} modified object(s)>', lambda: f'{where}: the summary is {s!r}, in revision {m.revs} with {len(got)} changes')
    c.count('change_lists')
    c.check(set(got) - skip == set(exp) - skip, lambda: f'{where}: change list {got} instead of {exp}')
    for n in exp:
        if n not in skip:
            c.check(got[n] in exp[n], f'{where}: object {n} is listed as {got[n]!r} instead of {sorted(exp[n])}')
    nums = sorted(m.now) if full else c.r.sample(sorted(m.now), min(len(m.now), c.r.choice([0, 1, 3])))
    for n in nums:
        c.count('values_read')
        x = c.r.random()
        if x < .5:
            v = L.get_object(doc, complex(used.get(n, 0), n))
        elif x < .8:
            v = L.do('doc.obj', lambda: doc.obj(n))
        else:
            v = L.do('doc.get_object', lambda: doc.get_object(complex(used.get(n, 0), n)))
        v = from_lib(v)
        c.check(docs.same_value(m.now[n], v), lambda: f'{where}: object {n}: {docs.diff_value(m.now[n], v)}')
        w = m.now[n]
        if isinstance(w, Stm) and w.plain is not None and (docs.decodable(w) or docs.indirect_filters(w)):
            c.check(v.plain == w.plain, lambda: f'{where}: object {n}: decoded data {short(v.plain)} instead of {short(w.plain)}')
    for n in (sorted(m.dead) if full else c.r.sample(sorted(m.dead), min(2, len(m.dead)))):
        v = L.get_object(doc, complex(0, n))
        c.check(v is None or v == 'null', f'{where}: deleted object {n} shows {short(v)}')


def case(c):
    r, L = c.r, c.L
    fo = None
    emb, skip = set(), set()
    if r.random() < .15:
        doc, desc = edits.blank(c), 'blank'
        live = L.live(doc)
        m = Model({n: v for n, (g, v) in live.items()}, ())
        m.revs = 1
    else:
        f, b = gen.random_file(r, revs=r.choice([1, 1, 2, 3]), build=dict(objects=r.choice([2, 4, 8]), pages=r.choice([1, 2]), gens=r.random() < .2, sparse=r.choice([0, 0, .3])))
        doc, fo = c04.open_any(c, f.data())
        desc = '/'.join(f.layouts)
        for ly in f.layouts:
            c.feat('layout:' + ly)
        st = f.states[-1]
        m = Model({n: v for n, (g, v) in st.objs.items()}, [n for n in st.freed if n not in st.objs and any(n in s.objs for s in f.states)])
        emb = {n for n, e in f.entries.items() if e[0] == 'c'} if hasattr(f, 'entries') else set()
        skip = set(f.containers)
        m.gens = {n: g for n, (g, v) in st.objs.items()}
        m.revs = len(f.states)
    # objects that hold the document together stay readable: Root, page tree, stream lengths
    keep = set()
    for n, v in m.now.items():
        if edits.structural(v):
            keep.add(n)
        keep |= edits.held(v)
    m.reused = set()
    hist, log = [], []
    seen = set()
    fresh = set()
    twice = False
    nums_ever = set(m.now) | m.dead | skip
    for step in range(r.choice([2, 4, 6, 10, 16])):
        c.count('steps')
        k = r.choice(['add', 'add', 'update', 'update', 'update', 'delete', 'commit', 'reuse', 'readd', 'noop'])
        if r.random() < .25:
            hist.append((doc, m.copy(), desc))
        free = [n for n in sorted(m.now) if n not in keep]
        live = {n: (0, None) for n in m.now}
        if k == 'add':
            v = edits.value(c, live)
            doc, iref = L.add_object(doc, v)
            n = int(iref.imag)
            c.check(n not in nums_ever and n > 0, f'{desc}: the new object got number {n}, which is not fresh')
            nums_ever.add(n)
            m.now[n] = from_lib(v)
            m.touched.add(n)
            fresh.add(n)
        elif k == 'update':
            n = r.choice(free or sorted(m.now))
            if n in keep:
                continue
            v = edits.value(c, live)
            doc = L.update_object(doc, n, v)
            twice |= n in m.touched
            m.now[n] = from_lib(v)
            m.touched.add(n)
            c.count('embedded_edits', n in emb)
            c.count('unread_updates', n not in seen)
        elif k == 'delete':
            if not free:
                continue
            n = r.choice(free)
            doc = L.update_object(doc, n, None)
            twice = True
            del m.now[n]
            m.touched.add(n)
            m.dead.add(n)
            m.gens = {k: g for k, g in m.gens.items() if k != n}
            c.count('embedded_edits', n in emb)
        elif k in ('reuse', 'readd'):           # write to a number deleted earlier
            cand = sorted(n for n in m.dead if (n in m.base or n in fresh) == (k == 'readd'))
            cand = cand or sorted(m.dead)
            if not cand:
                continue
            n = r.choice(cand)
            v = edits.value(c, live)
            doc = L.update_object(doc, n, v)
            m.dead.discard(n)
            m.now[n] = from_lib(v)
            m.touched.add(n)
            if n not in m.base:
                m.reused = set(m.reused) | {n}
        elif k == 'commit':
            had = bool(m.changes())
            d2 = L.commit(doc)
            if had:
                c.check(L.updates(d2) == L.updates(doc) + 1, f'{desc}: commit of changes: {L.updates(doc)} revisions became {L.updates(d2)}')
            m.touched = set()
            m.base = set(m.now)
            m.revs += had
            m.reused = set()
            fresh = set()
            new = {int(i.imag) for i in L.in_use(d2)} - set(m.now) - skip
            for n in new:                       # the cross-reference stream of the committed revision
                v = L.get_object(d2, complex(0, n))
                c.check(v is None or isinstance(v, L_STREAM()) and v['entries'].get('/Type') in ('/XRef', '/ObjStm'), f'{desc}: commit: object {n} appeared: {short(v)}')
                skip.add(n)
                nums_ever.add(n)
            doc = d2
        else:
            if m.changes():
                continue
            n0 = L.updates(doc)
            d2 = L.commit(doc)
            c.count('noop_commits')
            c.check(L.updates(d2) == n0, f'{desc}: commit without changes: {n0} revisions became {L.updates(d2)}')
            a, b2 = L.write(doc, c.path())[1], L.write(d2, c.path())[1]
            c.check(a == b2, f'{desc}: commit without changes changes the file: {len(a)} bytes, {len(b2)} bytes')
            c.check(L.changes(d2) == [], f'{desc}: commit without changes lists {L.changes(d2)}')
            doc = d2
        c.count('op:' + k)
        log.append((k, n if k not in ('commit', 'noop') else None))
        desc += f' {k}' + (f'({n})' if k not in ('commit', 'noop') else '')
        full = r.random() < .25
        check_step(c, L, doc, m, desc, full, skip)
        if full:
            seen |= set(m.now)
    check_step(c, L, doc, m, desc + ' (end)', True, skip)
    for d, mm, ds in hist[:4]:
        c.count('old_documents')
        mm.reused = set(mm.dead | set(mm.now)) - mm.base
        for n in mm.now:
            v = from_lib(L.do('doc.obj', lambda: d.obj(n)))
            c.check(docs.same_value(mm.now[n], v), lambda: f'{ds} (re-read later): object {n}: {docs.diff_value(mm.now[n], v)}')
    if r.random() < .6:
        c.count('files')
        d3 = L.loads(L.write(doc, c.path())[1])
        live = {n: x for n, x in L.live(d3).items() if n not in skip}
        c.check(set(live) == set(m.now) - skip, lambda: f'{desc}: written and reopened: missing {sorted(set(m.now) - skip - set(live))[:6]} unexpected {[(n, short(live[n])) for n in sorted(set(live) - (set(m.now) - skip))[:6]]}')
        for n, (g, v) in live.items():
            c.check(m.gens.get(n, g) == g, lambda: f'{desc}: written and reopened: object {n} has generation {g} instead of {m.gens[n]}')
            c.check(docs.same_value(m.now[n], v), lambda: f'{desc}: written and reopened: object {n}: {docs.diff_value(m.now[n], v)}')
    if not twice:
        c.trivial()
    c.digest(repr(log) + desc)
    c.sample(desc)
    if fo:
        fo.close()


def L_STREAM():
    from ..lib import P
    return P.Stream


def d_n(i):
    def f(c):
        c.r.seed(15000 + i)
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(4)}
