"""C13: page attributes follow inheritance, rotation is relative.

Monitor: page lists (complete, limited, of every revision, of interleaved documents) are compared with an inheritance model over generated page trees; after each
rotation the effective rotation of every page and the equality of everything else are checked."""
from ..lib import Name, Ref, Stm, from_lib, short, same, differ
from .. import gen, docs, edits
from . import c04, c07

ID = 'C13'
QUICK, THOROUGH = 1800, 30000
SCALED = 12
RULE = ('random page trees (depth up to 5, empty nodes, attributes defined at any level directly, by reference, as null or as a reference to nothing), in several '
        'revisions and layouts, rotated repeatedly by any multiple of 90; distinct: file bytes and rotations; non-trivial: some attribute is inherited')
NEED = {'oracle_checks': 40000, 'pages_compared': 8000, 'inherited_attributes': 5000, 'rotations': 1500, 'rotated_pages': 2500, 'untouched_objects': 15000, 'revisions': 800,
        'null_attributes': 300, 'indirect_attributes': 500, 'interleaved': 300, 'empty_nodes': 100, 'files': 400, 'limited': 500}
N = docs.N
INH = gen.Doc.INH


def tweak_for(c):
    r = c.r

    def tweak(b):
        doc = b.doc
        nodes = [n for n, (g, v) in doc.objs.items() if isinstance(v, dict) and v.get(N('Type')) in (b'Pages', b'Page')]
        for n in nodes:
            g, v = doc.objs[n]
            v = dict(v)
            for k in INH:
                x = r.random()
                if k in v and isinstance(v[k], (list, int)) and x < .2:
                    v[k] = b.new(v[k])
                    c.count('indirect_attributes')
                elif k not in v and x < .08:
                    v[k] = None if r.random() < .5 else Ref(b.alloc.next + 500, 0)
                    c.count('null_attributes')
                elif isinstance(v.get(k), list) and x > .9:
                    v[k] = [b.new(e) if r.random() < .4 and not isinstance(e, Ref) else e for e in v[k]]
                    c.count('indirect_attributes')
            if not v.get(N('Kids'), 1):
                c.count('empty_nodes')
            doc.objs[n] = (g, v)
    return tweak


def eff(state, v):
    """The effective values with references resolved one level."""
    return {k: state.deref(x) for k, x in v.items()}


def compare_pages(c, state, got, where):
    want = state.pages()
    docs.check_pages(c, want, got, where)
    c.count('pages_compared', len(want))
    for n, d in want:
        own = state.val(n)
        c.count('inherited_attributes', sum(k in d and state.deref(own.get(k)) is None for k in INH))


def layouts_of(state):
    out = []
    for n, d in state.pages():
        mb = [state.deref(x) for x in state.deref(d[N('MediaBox')])]
        out.append((mb, state.deref(d.get(N('Rotate')))))
    return out


def check_layouts(c, L, doc, state, where):
    got = [(from_lib(a), from_lib(b)) for a, b in L.page_layouts(doc)]
    want = layouts_of(state)
    c.check(got == want, f'{where}: page layouts {short(got)} instead of {short(want)}')


def case(c):
    r, L = c.r, c.L
    f, b = gen.random_file(r, revs=r.choice([1, 1, 2, 3]), tweak=tweak_for(c), build=dict(objects=r.choice([0, 2]), pages=r.choice([1, 2, 3, 5, 8]), indirect_kids=r.random() < .3,
                                                                                      gens=r.random() < .2))
    data = f.data()
    desc = '/'.join(f.layouts)
    doc, fo = c04.open_any(c, data)
    for ly in f.layouts:
        c.feat('layout:' + ly)
    st = f.states[-1]
    compare_pages(c, st, L.eff_pages(doc), desc)
    check_layouts(c, L, doc, st, desc)
    k = r.randint(0, len(st.pages()) + 1)
    got = [from_lib(p) for p in L.pages(doc, k)]
    c.count('limited')
    c.check(same(got, [d for n, d in st.pages()[:k]]), f'{desc}: the first {k} pages: {short(got)}')
    # revisions and other documents
    d2 = doc
    other = None
    if r.random() < .3:
        f2, b2 = gen.random_file(r, revs=1, tweak=tweak_for(c), build=dict(objects=0))
        other = L.loads(f2.data())
        c.count('interleaved')
    for i in range(len(f.states) - 1, -1, -1):
        d2 = L.rewind(d2)
        if other is not None:
            compare_pages(c, f2.states[-1], L.eff_pages(other), f'{desc}: other document')
        c.count('revisions')
        compare_pages(c, f.states[i], L.eff_pages(d2), f'{desc}: revision {i}')
        if r.random() < .3:
            check_layouts(c, L, d2, f.states[i], f'{desc}: revision {i}')
        if not i:
            break
    if not any(k in d and st.deref(st.val(n).get(k)) is None for n, d in st.pages() for k in INH):
        c.trivial()
    # rotations
    st = st.clone()
    log = []
    for _ in range(r.choice([1, 1, 2, 3])):
        pages = st.pages()
        n = len(pages)
        deg = r.choice([90, 180, 270, 360, -90, -180, -270, 450, 0, -360, 720])
        x = r.random()
        if x < .3 or not n:
            sel, args = list(range(n)), (doc,) if deg == 90 and r.random() < .5 else (doc, deg)
        else:
            sel = r.sample(range(n), r.randint(1, n))
            args = (doc, deg, list(sel))
        before = L.live(doc)
        doc = L.rotate(*args) if r.random() < .6 else L.do('doc.rotate', lambda: args[0].rotate(*args[1:]))
        c.count('rotations')
        c.count('rotated_pages', len(sel))
        desc += f' rotate {deg} {sorted(sel)}'
        log.append((deg, sorted(sel)))
        for i in sel:
            m, d = pages[i]
            g, v = st.objs[m]
            v = dict(v)
            v[N('Rotate')] = ((st.deref(d.get(N('Rotate'))) or 0) + deg) % 360
            st.objs[m] = (g, v)
        after = L.live(doc)
        c.check(set(before) == set(after), f'{desc}: objects {sorted(set(before) ^ set(after))[:5]} appeared or disappeared')
        turned = {pages[i][0] for i in sel}
        for m in before:
            if m in turned:
                a = {k: v for k, v in before[m][1].items() if k != b'Rotate'}
                e = {k: v for k, v in after[m][1].items() if k != b'Rotate'}
                c.check(same(a, e), lambda: f'{desc}: page object {m}: {differ(a, e)}')
            else:
                c.count('untouched_objects')
                c.check(docs.same_value(before[m][1], after[m][1]), lambda: f'{desc}: object {m}: {docs.diff_value(before[m][1], after[m][1])}')
        compare_pages(c, st, L.eff_pages(doc), desc)
        check_layouts(c, L, doc, st, desc)
        if r.random() < .3:
            doc = L.commit(doc)
            desc += ' commit'
        elif r.random() < .2:
            doc = L.loads(L.write(doc, c.path())[1])
            desc += ' reopened'
            c.count('files')
            compare_pages(c, st, L.eff_pages(doc), desc)
    if r.random() < .3:
        doc = L.loads(L.write(doc, c.path())[1])
        c.count('files')
        compare_pages(c, st, L.eff_pages(doc), desc + ' written and reopened')
        check_layouts(c, L, doc, st, desc + ' written and reopened')
    c.digest(data + repr(log).encode())
    c.sample(desc)
    if fo:
        fo.close()


def d_n(i):
    def f(c):
        c.r.seed(13000 + i)
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(4)}
