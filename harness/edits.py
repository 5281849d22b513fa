"""Random operations on library documents, chosen so that every one of them is legal."""
from .lib import from_lib, to_lib, Name, Str, Ref, Stm, P
from . import gen

N = gen.N
STRUCT = (b'Catalog', b'Pages', b'Page')


def blank(c):
    r = c.r
    return c.L.blank(r.choice(['A4', 'US Letter', 'A0', 'A10']))


def loaded(c, **opt):
    opt.setdefault('revs', c.r.choice([1, 1, 2, 3]))
    f, b = gen.random_file(c.r, **opt)
    return c.L.loads(f.data()), f, b


def structural(v):
    return isinstance(v, dict) and v.get(N('Type')) in STRUCT


def refs(v):
    if isinstance(v, Ref):
        return {v.num}
    return set().union(*map(refs, v.values() if isinstance(v, dict) else v)) if isinstance(v, (dict, list)) else set()


def held(v):
    """Numbers of the objects that hold a part of v the document cannot do without."""
    if isinstance(v, Stm):
        return set().union(*[refs(v.d.get(N(k))) for k in ('Length', 'Filter', 'DecodeParms')])
    if isinstance(v, dict) and v.get(N('Type')) == b'Pages':
        return {x.num for x in [v.get(N('Kids')), v.get(N('Count'))] if isinstance(x, Ref)}
    return set()


def editable(c, doc, live=None):
    """Numbers that may be replaced or deleted without breaking the page tree."""
    live = live if live is not None else c.L.live(doc)
    tree = set()
    for v in live.values():
        v = v[1]
        todo = list(held(v))
        while todo:                      # parameters may be given through several references
            n = todo.pop()
            if n in tree:
                continue
            tree.add(n)
            if isinstance(v, Stm) and n in live and isinstance(live[n][1], (dict, list, Ref)):
                todo.extend(refs(live[n][1]))
        if isinstance(v, dict) and v.get(N('Type')) in (b'Page', b'Pages'):
            for k in ('Annots', 'Resources', 'Contents', 'MediaBox', 'CropBox', 'Rotate'):
                x = v.get(N(k))
                if isinstance(x, Ref):
                    tree.add(x.num)
    return [n for n, (g, v) in sorted(live.items()) if not structural(v) and n not in tree], live


def value(c, live, wild=1):
    """A random library value (and its model)."""
    r = c.r
    known = [Ref(n, live[n][0]) for n in live]
    x = r.random()
    if x < .3:
        v = gen.g_stream(r, {N('VfId'): r.randrange(10 ** 6)}, unsup=0)
        if v.plain is not None and r.random() < .5:
            s, _ = c.L.forge_stream(to_lib(Stm({k: x for k, x in v.d.items() if k not in (b'DecodeParms',)}, b'', b''))['entries'], v.plain)
            return s
        d = dict(v.d)
        d[N('Length')] = len(v.raw)
        return to_lib(Stm(d, v.raw, v.plain if v.plain is not None else v.raw))
    if x < .45:
        s = gen.g_scalar(r, wild, known)
        return to_lib(s if s is not None else 7)
    v = gen.g_value(r, wild, 3, known)
    if v is None:
        v = {N('VfId'): 1}
    return to_lib(v)


OPS = ['add', 'add', 'addref', 'update', 'update', 'delete', 'rotate', 'annot', 'commit', 'commit', 'version', 'remove', 'keep']


def op(c, doc, ops=OPS, log=None):
    """One random operation; returns (doc, name)."""
    L, r = c.L, c.r
    for _ in range(10):
        k = r.choice(ops)
        if k == 'add':
            live = L.live(doc)
            d, iref = L.add_object(doc, value(c, live))
            return d, k
        if k == 'addref':
            live = L.live(doc)
            d, iref = L.add_object(doc, value(c, live))
            cat, ci = L.catalog(d)
            cat['/VfX%d' % r.randrange(10 ** 6)] = iref
            return L.update_object(d, int(ci.imag), cat), k
        if k == 'update':
            c_, live = editable(c, doc)
            if not c_:
                continue
            n = r.choice(c_)
            c.touched = getattr(c, 'touched', set()) | {n}
            v = value(c, live)
            if type(v) == complex and (int(v.imag) == n or isinstance(live[int(v.imag)][1], Ref)):
                continue                                 # no chains of references that may end nowhere
            return L.update_object(doc, n, v), k
        if k == 'delete':
            c_, live = editable(c, doc)
            if not c_:
                continue
            return L.update_object(doc, r.choice(c_), None), k
        if k == 'commit':
            return L.commit(doc), k
        n = L.number_pages(doc)
        if k == 'version':
            return L.update_version(doc, r.choice(['1.4', '1.5', '1.7', '2.0'])), k
        if n == 0:
            continue
        if k == 'rotate':
            pgs = sorted(r.sample(range(n), r.randint(1, n))) if r.random() < .7 else []
            c.touched = getattr(c, 'touched', set()) | {int(x[0].imag) for x in L.flat_page_tree(doc)}
            return L.rotate(doc, r.choice([90, 180, 270, -90]), pgs), k
        if k == 'annot':
            return L.add_text_annotation(doc, r.randrange(n), 'note %d' % r.randrange(10 ** 6), [1, 2, 3, 4], r.random() < .5), k
        if k == 'remove' and n > 1:
            return L.remove_pages(doc, set(r.sample(range(n), r.randint(1, n - 1)))), k
        if k == 'keep' and n > 1:
            return L.keep_pages(doc, set(r.sample(range(n), r.randint(1, n)))), k
        if k == 'squash':
            return L.squash(doc), k
        if k == 'compress':
            return L.compress(doc), k
        if k == 'concat':
            o = blank(c) if r.random() < .4 else loaded(c, revs=1, build=dict(pages=r.randint(1, 2), objects=2))[0]
            return (L.concat(doc, o, r.random() < .5) if r.random() < .7 else L.concat(o, doc, r.random() < .5)), k
        if k == 'append':              # concatenation as an update of doc
            o = blank(c) if r.random() < .4 else loaded(c, revs=1, build=dict(pages=r.randint(1, 2), objects=2))[0]
            return (L.concat(doc, o) if r.random() < .6 else L.concat(o, doc, False)), k
        if k == 'rewind':
            return L.rewind(doc), k
    return doc, 'none'
