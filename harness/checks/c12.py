"""C12: concatenation appends all pages of both documents.

Monitor: after each concatenation (function in both directions, + operator, the document with itself, chains) every page of the result is compared with its
origin: position, effective attributes and, by a simultaneous walk of both object graphs, everything it references; all counts of the tree are recomputed."""
from ..lib import Name, Ref, Stm, from_lib, short, same, differ
from .. import gen, docs, edits
from . import c04, c07, c11

ID = 'C12'
QUICK, THOROUGH = 1100, 20000
SCALED = 12
RULE = ('random pairs and chains of generated, blank, edited, sliced and reopened documents concatenated in either direction; distinct: page lists and graphs of the '
        'result; non-trivial: both sides have pages')
NEED = {'oracle_checks': 40000, 'concats': 1000, 'pages_left': 1500, 'pages_right': 1500, 'objects_matched': 15000, 'nodes_counted': 2500, 'op:+': 150, 'op:left': 150,
        'op:right': 150, 'op:self': 30, 'chained': 200, 'files': 500, 'inherited_root': 200, 'emptied': 10}
N = docs.N
TREE = {N('Kids'), N('Count'), N('Parent')}


def pages_graph(L, doc):
    """The graph seen from the pages: the shape of the page tree is judged separately."""
    g = docs.Graph.of(L, doc)
    objs = {}
    for n, (gen_, v) in g.objs.items():
        if isinstance(v, dict) and v.get(N('Type')) == b'Pages':
            v = {k: x for k, x in v.items() if k not in TREE}
        elif isinstance(v, dict) and v.get(N('Type')) == b'Catalog':
            v = {k: x for k, x in v.items() if k != b'Pages'}
        elif isinstance(v, dict) and v.get(N('Type')) == b'Page':
            v = {k: x for k, x in v.items() if k != b'Parent'}
        objs[n] = (gen_, v)
    return docs.Graph(g.trailer, objs), [(a, {k: x for k, x in p.items() if k != b'Parent'}) for a, p in L.eff_pages(doc)]


def compare(c, origin, res, pages, where, recode=False):
    """Pages of an origin document against a stretch of the page list of the result."""
    a, pa = origin
    c.check(len(pa) == len(pages), f'{where}: {len(pages)} pages for {len(pa)}')
    iso = docs.Iso(a, res, recode)
    for i, ((r1, p1), (r2, p2)) in enumerate(zip(pa, pages)):
        e = iso.run((r1, r2, f'page {i}'), (p1, p2, f'effective page {i}'))
        c.check(not e, lambda: f'{where}: {e}')
    c.count('objects_matched', len(iso.fwd))


def check_concat(c, L, doc, left, right, where):
    res, pages = pages_graph(L, doc)
    n = len(left[1])
    want = n + len(right[1])
    c.check(len(pages) == want, f'{where}: {len(pages)} pages instead of {want}')
    c.check(L.number_pages(doc) == want == L.do('len', lambda: len(doc)), f'{where}: number_pages {L.number_pages(doc)}, expected {want}')
    compare(c, left, res, pages[:n], f'{where}: left part')
    compare(c, right, res, pages[n:], f'{where}: right part')
    leaves = c11.check_tree(c, L, doc, L.live(doc), where)
    c.check(leaves == [a for a, _ in pages], f'{where}: leaves {leaves}')
    c.check(len(set(leaves)) == len(leaves), f'{where}: a page occurs twice: {leaves}')


def some_doc(c):
    r, L = c.r, c.L
    x = r.random()
    if x < .12:
        doc, desc = edits.blank(c), 'blank'
    else:
        f, b = gen.random_file(r, revs=r.choice([1, 1, 2, 3]), build=dict(pages=r.choice([1, 1, 2, 3, 5]), objects=r.choice([0, 1, 3]), indirect_kids=r.random() < .3,
                                                                         gens=r.random() < .25, sparse=r.choice([0, 0, .2])))
        doc, fo = c04.open_any(c, f.data())
        c.fo.append(fo)
        desc = '/'.join(f.layouts)
    for _ in range(r.choice([0, 0, 1, 2])):
        doc, nm = edits.op(c, doc, ['rotate', 'annot', 'commit', 'addref', 'delete', 'update', 'keep', 'remove', 'compress', 'squash', 'rewind'])
        desc += ' ' + nm
    if r.random() < .06:
        doc = L.do('doc[0:0]', lambda: doc[0:0])
        desc += ' [0:0]'
        c.count('emptied')
    return doc, desc


def root_attrs(L, doc):
    cat, _ = L.catalog(doc)
    return any(k in L.get_object(doc, cat['/Pages']) for k in ('/Resources', '/MediaBox', '/CropBox', '/Rotate'))


def case(c):
    r, L = c.r, c.L
    c.fo = []
    doc, desc = some_doc(c)
    log = []
    for step in range(r.choice([1, 1, 2, 3])):
        c.count('concats')
        if step:
            c.count('chained')
        left = pages_graph(L, doc)
        if len(left[1]) > 40:
            break
        if r.random() < .08:
            other, od = doc, 'itself'
            c.count('op:self')
        else:
            other, od = some_doc(c)
        right = pages_graph(L, other)
        a, b, la, lb = doc, other, left, right
        if r.random() < .4:
            a, b, la, lb = b, a, lb, la
        k = r.choice(['+', 'left', 'right', 'default'])
        c.count('op:' + k)
        if root_attrs(L, a) or root_attrs(L, b):
            c.count('inherited_root')
        if k == '+':
            doc2 = L.do('+', lambda: a + b)
        elif k == 'default':
            doc2 = L.concat(a, b)
        else:
            doc2 = L.concat(a, b, k == 'left')
        desc += f' {k} ({od})'
        log.append((len(la[1]), len(lb[1]), k))
        if not la[1] or not lb[1]:
            c.trivial()
        c.count('pages_left', len(la[1]))
        c.count('pages_right', len(lb[1]))
        check_concat(c, L, doc2, la, lb, desc)
        # the target side keeps its objects where they are
        tgt = b if k == 'right' else a
        live, tl = L.live(doc2), L.live(tgt)
        tree_root = L.catalog(tgt)[0]['/Pages']
        for n, (g, v) in tl.items():
            c.check(n in live and live[n][0] == g, f'{desc}: object {n} of the target is gone')
            if n not in (int(tree_root.imag), int(L.catalog(tgt)[1].imag)) and n not in edits.held(tl[int(tree_root.imag)][1]):
                c.check(docs.same_value(v, live[n][1]), lambda: f'{desc}: object {n} of the target changed: {docs.diff_value(v, live[n][1])}')
        c.check(same(docs.trailer_view(L.trail(tgt)), docs.trailer_view(L.trail(doc2))), f'{desc}: the trailer changed')
        doc = doc2
        x = r.random()
        if x < .25:                     # used like any other document
            pages = L.eff_pages(doc)
            if pages:
                live0 = L.live(doc)
                new, idx, what = c11.select(c, doc, pages)
                desc += ' ' + what
                want = [pages[i] for i in idx]
                c11.check_sel(c, L, new, live0, pages, want, desc)
                doc = new
        elif x < .5 and L.number_pages(doc):
            doc, nm = edits.op(c, doc, ['rotate', 'annot', 'commit', 'addref', 'update'])
            desc += ' ' + nm
        elif x < .6:
            before = pages_graph(L, doc)
            doc = r.choice([L.squash, L.compress])(doc)
            desc += ' squash/compress'
            res, pages = pages_graph(L, doc)
            compare(c, before, res, pages, desc, recode=True)
    snap = docs.snapshot(L, doc)
    where = desc + ': written'
    g = pages_graph(L, doc)
    d1, w = L.write(doc, c.path())
    c.count('files')
    d2, fo = c04.open_any(c, w)
    c.fo.append(fo)
    for d, nm in ((d1, 'document returned by writefile'), (d2, 'reopened')):
        res, pages = pages_graph(L, d)
        compare(c, g, res, pages, f'{where}, {nm}')
        c11.check_tree(c, L, d, L.live(d), f'{where}, {nm}')
    c.digest(repr(log) + repr(sorted(snap['objects'])) + str(len(w)))
    c.sample(desc)
    for f in c.fo:
        if f:
            f.close()


def d_n(i):
    def f(c):
        c.r.seed(12000 + i)
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(4)}
