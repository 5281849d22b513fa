"""C11: page selection behaves like list selection.

Monitor: sequences of keep, remove, index, slice and iteration are mirrored on a Python list of the effective pages; after each step the page list, the counts
of every tree node, everything the remaining pages and the catalog reach, and finally the written file are compared."""
from ..lib import Name, Ref, Stm, from_lib, short, same, differ
from .. import gen, docs, edits, refpdf
from . import c04, c07

ID = 'C11'
QUICK, THOROUGH = 1400, 26000
SCALED = 12
RULE = ('random sequences of page selections (with rotations, annotations and edits in between) on generated documents with page trees of any shape and links '
        'between pages; distinct: selections and final page list; non-trivial: at least one page removed and one kept')
NEED = {'oracle_checks': 60000, 'selections': 2500, 'pages_kept': 3000, 'pages_removed': 2000, 'objects_reached': 20000, 'nodes_counted': 3000, 'iterated': 300,
        'files': 1000, 'emptied': 50, 'sel:slice': 200, 'sel:index': 100, 'sel:negindex': 50, 'sel:keep': 200, 'sel:remove': 200, 'sel:step': 100, 'entangled:length': 20, 'entangled:parent': 80}
N = docs.N


def reach(objs, roots, stop):
    """Numbers reached from values without entering page tree nodes or the numbers in stop."""
    seen, todo = set(), list(roots)
    while todo:
        v = todo.pop()
        if isinstance(v, Ref):
            if v.num in seen or v.num in stop or v.num not in objs:
                continue
            x = objs[v.num][1]
            if isinstance(x, dict) and x.get(N('Type')) == b'Pages':
                continue
            seen.add(v.num)
            todo.append(x)
        elif isinstance(v, Stm):
            todo.append(v.d)
        elif isinstance(v, dict):
            todo.extend(v.values())
        elif isinstance(v, list):
            todo.extend(v)
    return seen


def check_tree(c, L, doc, live, where):
    """Counts and parents of every node of the page tree; returns the leaves."""
    tr = L.trail(doc)
    deref = lambda v: live[v.num][1] if isinstance(v, Ref) and v.num in live else v
    cat = deref(tr[N('Root')])
    leaves = []

    def walk(ref, parent):
        node = deref(ref)
        c.check(isinstance(node, dict), f'{where}: page tree node {ref} is {short(node)}')
        if parent is not None:
            c.check(node.get(N('Parent')) == parent, f'{where}: Parent of {ref} is {node.get(N("Parent"))!r} instead of {parent!r}')
        if node.get(N('Type')) == b'Page':
            leaves.append(ref)
            return 1
        kids = deref(node.get(N('Kids')))
        n = sum(walk(k, ref) for k in kids)
        c.count('nodes_counted')
        c.check(deref(node.get(N('Count'))) == n, f'{where}: Count of {ref} is {node.get(N("Count"))!r}, it has {n} leaves')
        return n
    walk(cat[N('Pages')], None)
    return leaves


def check_sel(c, L, doc, live0, pages0, want, where):
    """doc shows exactly the pages want (a sublist of pages0), with all they reached."""
    got = L.eff_pages(doc)
    c.check([a for a, _ in got] == [a for a, _ in want], lambda: f'{where}: pages {[a.num for a, _ in got]} instead of {[a.num for a, _ in want]}')
    for i, ((a, x), (b, y)) in enumerate(zip(want, got)):
        c.check(same({k: v for k, v in x.items() if k != b'Parent'}, {k: v for k, v in y.items() if k != b'Parent'}), lambda: f'{where}: page {i} ({a}): {differ(x, y)}')
    n = L.number_pages(doc)
    c.check(n == len(want) == L.do('len', lambda: len(doc)), f'{where}: number_pages {n}, len {len(doc)}, expected {len(want)}')
    live = L.live(doc)
    leaves = check_tree(c, L, doc, live, where)
    c.check(leaves == [a for a, _ in want], f'{where}: leaves {leaves}')
    kept = {a.num for a, _ in want}
    gone = {a.num for a, _ in pages0} - kept
    roots = [L.trail(doc)] + [a for a, _ in want] + [p for _, p in want]
    need = reach(live0, roots, gone)
    for m in sorted(need):
        c.count('objects_reached')
        c.check(m in live, f'{where}: object {m}, which the remaining document refers to, disappeared')
        c.check(docs.same_value(live0[m][1], live[m][1]), lambda: f'{where}: object {m} changed: {docs.diff_value(live0[m][1], live[m][1])}')
    for m in gone:
        c.check(m not in live, f'{where}: the removed page {m} is still in use')
    for m in live:
        c.check(m in live0, f'{where}: object {m} appeared')
    c.count('pages_kept', len(kept))
    c.count('pages_removed', len(gone))
    return live


def select(c, doc, pages):
    """Random selection -> (new doc, list of kept indexes, description)."""
    r, L = c.r, c.L
    n = len(pages)
    k = r.choice(['keep', 'keep1', 'remove', 'remove1', 'index', 'negindex', 'slice', 'slice', 'step', 'all', 'none'])
    if k == 'none' and r.random() < .6:
        k = 'slice'
    c.count('selections')
    c.count('sel:' + k)
    if k == 'keep':
        s = set(r.sample(range(n), r.randint(1, n)))
        return L.keep_pages(doc, set(s)), sorted(s), f'keep {sorted(s)}'
    if k == 'keep1':
        i = r.randrange(n)
        return L.keep_pages(doc, i), [i], f'keep {i}'
    if k == 'remove':
        s = set(r.sample(range(n), r.randint(0, n - 1)))
        return L.remove_pages(doc, set(s)), [i for i in range(n) if i not in s], f'remove {sorted(s)}'
    if k == 'remove1':
        i = r.randrange(n)
        return L.remove_pages(doc, i), [j for j in range(n) if j != i], f'remove {i}'
    if k == 'index':
        i = r.randrange(n)
        return L.do('doc[i]', lambda: doc[i]), [i], f'[{i}]'
    if k == 'negindex':
        i = -r.randint(1, n)
        return L.do('doc[i]', lambda: doc[i]), [n + i], f'[{i}]'
    if k == 'all':
        return L.do('doc[:]', lambda: doc[:]), list(range(n)), '[:]'
    if k == 'none':
        x = r.choice([slice(n, None), slice(0, 0), slice(2, 1)])
        return L.do('doc[a:b]', lambda: doc[x]), [], f'[{x.start}:{x.stop}]'
    a = r.choice([None, r.randint(-n - 1, n + 1)])
    b = r.choice([None, r.randint(-n - 1, n + 1)])
    s = r.choice([None, 1]) if k == 'slice' else r.choice([2, 3, n])
    x = slice(a, b, s)
    return L.do('doc[a:b:c]', lambda: doc[x]), list(range(n))[x], f'[{a}:{b}:{s}]'


def entangle(c, doc):
    """A page refers to an object that the rest of the document needs in an unusual way."""
    r, L = c.r, c.L
    pages = L.eff_pages(doc)
    live = L.live(doc)
    i = r.randrange(len(pages))
    a = pages[i][0]
    reached = reach(live, [L.trail(doc)] + [p for _, p in pages], ())
    lengths = [v.d[N('Length')] for n, (g, v) in live.items() if n in reached and isinstance(v, Stm) and isinstance(v.d.get(N('Length')), Ref)]
    name = r.choice(['length', 'parent', 'dest']) if lengths else r.choice(['parent', 'dest'])
    if name == 'length':
        x = r.choice(lengths)
        x = complex(x.gen, x.num)
    else:
        doc, x = L.add_object(doc, {'/VfShared': r.randrange(10 ** 6)})
        if name == 'parent':                 # kept through a P or Parent entry only
            k = r.choice(['/P', '/P', '/Parent'])
            if r.random() < .5:
                doc, y = L.add_object(doc, {k: x})
            else:
                y = {k: x}
            if r.random() < .5 and len(pages) > 1:
                b = pages[(i + 1) % len(pages)][0]
                b = complex(b.gen, b.num)
            else:
                b = L.trailer(doc)['/Root']
            d = L.get_object(doc, b)
            d['/VfD'] = [1, y]
            doc = L.update_object(doc, int(b.imag), d)
    c.count('entangled:' + name)
    d = L.get_object(doc, complex(a.gen, a.num))
    d['/VfK'] = r.choice([x, [0, x], {'/VfX': x}])
    return L.update_object(doc, a.num, d), 'entangled:' + name


def case(c):
    r, L = c.r, c.L
    big = r.random() < .15
    f, b = gen.random_file(r, revs=r.choice([1, 1, 2]), build=dict(indirect_kids=r.random() < .3, pages=r.choice([8, 12, 20]) if big else r.choice([1, 2, 3, 4, 5, 6, 7]),
                                                                  objects=r.choice([0, 2, 4]), wild=r.choice([0, 1]), gens=r.random() < .2))
    doc, fo = c04.open_any(c, f.data())
    desc = '/'.join(f.layouts)
    for _ in range(r.choice([0, 0, 1, 2])):
        doc, nm = edits.op(c, doc, ['rotate', 'annot', 'append', 'commit', 'addref'])
        desc += ' ' + nm
    if r.random() < .35:
        doc, nm = entangle(c, doc)
        desc += ' ' + nm
    log = []
    changed = False
    for step in range(r.choice([1, 2, 2, 3, 4])):
        pages = L.eff_pages(doc)
        if not pages:
            c.count('emptied')
            break
        live = L.live(doc)
        if r.random() < .12:                     # iteration yields one document per page
            c.count('iterated')
            k = 0
            for i, d in enumerate(L.do('iter', lambda: list(doc))):
                check_sel(c, L, d, live, pages, [pages[i]], f'{desc}: iteration {i}')
                k += 1
            c.check(k == len(pages), f'{desc}: {k} iterations over {len(pages)} pages')
        new, idx, what = select(c, doc, pages)
        want = [pages[i] for i in idx]
        desc += ' ' + what
        log.append(what)
        changed |= 0 < len(want) < len(pages)
        check_sel(c, L, new, live, pages, want, desc)
        c.check(not docs.diff_value(live, live) and [a for a, _ in L.eff_pages(doc)] == [a for a, _ in pages], f'{desc}: the original document lost pages')
        doc = new
        if not want:
            c.count('emptied')
        if r.random() < .3:
            ops = ['commit', 'addref', 'version'] + (['rotate', 'annot'] if want else [])
            doc, nm = edits.op(c, doc, ops)
            desc += ' ' + nm
        if r.random() < .1:
            doc = L.loads(L.write(doc, c.path())[1])
            desc += ' reopen'
        elif r.random() < .08:
            doc = r.choice([L.squash, L.compress])(doc)
            desc += ' squash/compress'
    if not changed:
        c.trivial()
    snap = docs.snapshot(L, doc)
    check_tree(c, L, doc, snap['objects'], desc)
    _, w = L.write(doc, c.path())
    c.count('files')
    base = f.data().rindex(b'%%EOF') + 5
    c07.strict_read(c, w, base if w[:base] == f.data()[:base] else 0, snap, desc)
    c07.reopen(c, w, snap, desc)
    c.digest(repr(log) + repr([a for a, _ in snap['pages']]))
    c.sample(desc)
    if fo:
        fo.close()


def d_n(i):
    def f(c):
        c.r.seed(6000 + i)
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(4)}
