"""C04: an opened file resolves every reference to its newest object.

Monitor: files written by an independent generator (all index layouts, 1-5 revisions) are opened in every access mode; every object number is
requested repeatedly in random orders and compared with the generator's own record of the newest values."""
import io
from ..lib import Name, Ref, Stm, from_lib, same, short
from .. import gen, docs

ID = 'C04'
QUICK, THOROUGH = 3500, 60000
SCALED = 12
RULE = ('random documents written in 1-5 revisions, each indexed by a table, a stream, object streams, a hybrid or linearized section, with deleted, '
        'reused and undefined numbers; every number requested in two random orders; distinct: file bytes; non-trivial: more than one object resolved')
NEED = {'oracle_checks': 20000, 'get_object': 20000, 'layout:table': 100, 'layout:stream': 100, 'layout:objstm': 100, 'layout:hybrid': 100,
        'layout:lintable': 20, 'layout:linstream': 20, 'deleted': 50, 'undefined': 500, 'mode:file': 50, 'mode:ondemand': 50, 'mode:path': 50, 'reused': 5}
N = docs.N


def open_any(c, data, mode=None):
    """A document and the file object to keep alive."""
    L, r = c.L, c.r
    mode = mode or r.choice(['bytes', 'bytes', 'file', 'ondemand', 'path', 'bytesio'])
    c.feat('mode:' + mode)
    if mode == 'bytes':
        return L.loads(data), None
    if mode == 'bytesio':
        return L.load(io.BytesIO(data)), None
    p = c.path()
    with open(p, 'wb') as f:
        f.write(data)
    if mode == 'path':
        return L.readfile(p), None
    f = open(p, 'rb')
    if mode == 'file':
        return L.load(f), f
    return L.load(f, 'CONTINUOUS'), f


def resolve_all(c, doc, want, ask, where):
    L, r = c.L, c.r
    for n in ask:
        e = want.get(n)
        if e is None:
            got = L.get_object(doc, complex(0, n))
            c.check(got is None or got == 'null', f'{where}: reference to object {n}, deleted or undefined, gives {short(got)}')
            continue
        g, v = e
        got = from_lib(L.get_object(doc, complex(g, n)))
        docs.check_value(c, v, got, f'{where}: object {n} {g}')


def case(c, **opt):
    r, L = c.r, c.L
    o = dict(build=dict(gens=r.random() < .4, sparse=r.choice([0, 0, .1, .3]), dangling=True, wild=r.choice([0, 1, 1, 2])))
    o.update(opt)
    f, b = gen.random_file(r, revs=r.choice([1, 1, 2, 2, 3, 4, 5]), **o)
    data = f.data()
    c.digest(data)
    for ly in f.layouts:
        c.feat('layout:' + ly)
    c.feat('revs:%d' % len(f.states), 'eol:%r' % f.eol)
    st = f.states[-1]
    doc, fo = open_any(c, data)
    where = 'file ' + '/'.join(f.layouts)
    want = {n: (g, v) for n, (g, v) in st.objs.items()}
    dead = [n for n in st.freed if n not in st.objs]
    undef = [n for n in range(1, b.alloc.next) if n not in st.objs and n not in f.containers and n not in dead][:3]
    undef += [b.alloc.next + r.choice([0, 1, 1000]) for _ in range(2)]
    if dead:
        c.count('deleted', len(dead))
    c.count('undefined', len(undef))
    if any(e[0] == 'n' and e[2] > 0 and n in want for n, e in f.entries.items()):
        c.count('reused')
    ask = list(want) + dead + undef
    c.n_objs = len(want)
    if len(want) < 2:
        c.trivial()
    c.sample(f'{where}: {len(want)} objects, {len(data)} bytes, {len(dead)} deleted')
    r.shuffle(ask)
    if r.random() < .5:
        docs.check_trailer(c, st.trailer, L.trail(doc), f'{where}: trailer')
    resolve_all(c, doc, want, ask, where)
    r.shuffle(ask)
    resolve_all(c, doc, want, ask, where + ' (again)')
    docs.check_trailer(c, st.trailer, L.trail(doc), f'{where}: trailer')
    cat, iref = L.catalog(doc)
    docs.check_value(c, st.deref(st.trailer[N('Root')]), from_lib(cat), f'{where}: catalog')
    c.check(from_lib(iref) == st.trailer[N('Root')], f'{where}: catalog reference {iref}')
    # the same through in_use and through obj(), on a fresh document
    doc2, fo2 = open_any(c, data)
    docs.check_objects(c, want, L.live(doc2), where + ' (objects in use)', f.containers)
    n = r.choice(sorted(want))
    got = from_lib(L.do('doc.obj', lambda: doc2.obj(n)))
    docs.check_value(c, want[n][1], got, f'{where}: doc.obj({n})')
    docs.check_pages(c, st.pages(), L.eff_pages(doc2), where)
    for x in (fo, fo2):
        if x:
            x.close()


def d_layout(layout, n):
    def f(c):
        c.r.seed(f'{layout}{n}')
        if layout.startswith('lin'):
            f_ = dict(linearized=True)
        else:
            f_ = dict(linearized=False, layouts=[layout])
        case(c, **f_)
    return f


def d_high(layout):
    """Object numbers up to the usual limit of 8388607."""
    def f(c):
        r, L = c.r, c.L
        f_, b = gen.random_file(r, revs=1, linearized=False, layouts=[layout], scale=0)
        want = {}
        for n in (70000, 1048577, 8388606):
            b.alloc.next = n
            want[n] = {N('VfId'): b.u()}
            ref = b.new(dict(want[n]))
            b.doc.objs[b.cat.num][1][N('Vf%d' % n)] = ref
        f_.revision(b.doc, b.alloc, layout)
        c.digest(layout)
        c.sample(f'{layout}: objects up to 8388606')
        doc, fo = open_any(c, f_.data())
        ask = list(f_.states[-1].objs)
        r.shuffle(ask)
        resolve_all(c, doc, f_.states[-1].objs, ask + [70001, 8388605], f'file {layout} with high object numbers')
        c.count('high_numbers')
        if fo:
            fo.close()
    return f


DIRECTED = {f'{ly}{k}': d_layout(ly, k) for ly in ['table', 'stream', 'objstm', 'hybrid', 'lin'] for k in range(6)}
DIRECTED.update({f'high_{ly}': d_high(ly) for ly in ('table', 'stream')})
