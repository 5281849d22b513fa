"""C10: compression is lossless.

Monitor: after random histories the compressed document, in memory, as read back by the library and as read by the strict reader, is compared with the original
as a graph up to renumbering, every stream by its decoded data (or, under an unsupported filter, by its encoded data and filter)."""
import re
from ..lib import Name, Ref, Stm, from_lib, short
from .. import gen, docs, edits, refpdf
from . import c04, c07, c09

ID = 'C10'
QUICK, THOROUGH = 1300, 24000
SCALED = 12
RULE = ('random histories on blank and generated documents of every layout, stream filter and size, compressed once or several times, with edits afterwards; '
        'distinct: written bytes; non-trivial: the document has streams')
NEED = {'oracle_checks': 20000, 'graphs': 3000, 'objects_matched': 20000, 'streams': 3000, 'unsupported': 200, 'reference_reads': 1000, 'reopened': 1000,
        'objstm_objects': 5000}
N = docs.N
OPS = edits.OPS + ['append', 'concat', 'rewind', 'squash', 'compress']


def later(v, lo='1.5'):
    f = lambda s: tuple(int(x) for x in s.split('.'))
    return v if f(v) >= f(lo) else lo


def skipper(v):
    if later(v) != v:
        return lambda p: re.search(r'>catalog\(\d+->\d+\)/Version$', p)
    return lambda p: False


def compare(c, before, after, where):
    c09.compare(c, before, after, where, recode=True, skip=skipper(before[3]))
    for n, (g, v) in after[0].objs.items():
        if isinstance(v, Stm):
            c.count('streams')
            if not docs.decodable(v):
                c.count('unsupported')
    c.check(after[3] == later(before[3]), f'{where}: version {before[3]} became {after[3]}')


def compare_file(c, before, w, where):
    ref = c09.compare_file(c, before, w, where, recode=True, skip=skipper(before[3]))
    c.check(ref.sections[0].kind == 'stream', f'{where}: the file has a cross-reference table')
    c.count('objstm_objects', sum(e[0] == 'c' for e in ref.sections[0].entries.values()))
    return ref


def big(c, doc):
    """Objects in number and size beyond the usual."""
    r, L = c.r, c.L
    k = r.choice([60, 150, 300])
    for i in range(k):
        doc, _ = L.add_object(doc, {'/VfId': 5000000 + i, '/VfP': 'null' if i == 0 else 1j, '/VfS': b'(' + b'x' * r.choice([0, 1, 5, 200]) + b')'})
    if r.random() < .5:
        for i in range(r.choice([1, 5])):
            s, _ = L.forge_stream({'/VfId': 6000000 + i}, bytes(r.randrange(256) for _ in range(r.choice([1000, 70000]))))
            doc, _ = L.add_object(doc, s)
    return doc


def case(c):
    r, L = c.r, c.L
    c.fo = None
    doc, seen, desc = c09.history(c)
    if r.random() < .06:
        doc = big(c, doc)
        desc += ' big'
    before = c09.graph_of(L, doc)
    if not any(isinstance(v, Stm) for g, v in before[0].objs.values()):
        c.trivial()
    cp = L.compress(doc)
    where = f'{desc}: compress'
    compare(c, before, c09.graph_of(L, cp), where)
    d1, w = L.write(cp, c.path()) if r.random() < .7 else L.write_stdout(cp)
    c.digest(w)
    c.sample(f'{where}: {len(w)} bytes')
    compare_file(c, before, w, where)
    d2, fo = c04.open_any(c, w)
    c.count('reopened')
    compare(c, before, c09.graph_of(L, d2), f'{where}, reopened')
    st = L.structure(d2)
    c.check(st['Revisions'] == 1, f'{where}, reopened: {st["Revisions"]} revisions')
    if r.random() < .4:
        d3 = r.choice([cp, d1, d2])
        for _ in range(r.randint(1, 3)):
            d3, nm = edits.op(c, d3, edits.OPS)
            where += ' ' + nm
        b3 = c09.graph_of(L, d3)
        d4, w4 = L.write(d3, c.path())
        c09.compare(c, b3, c09.graph_of(L, L.loads(w4)), f'{where}, written and reopened')
        s5 = L.compress(r.choice([d3, d4, L.loads(w4)]))
        compare(c, b3, c09.graph_of(L, s5), f'{where}, compressed again')
        _, w5 = L.write(s5, c.path())
        compare_file(c, b3, w5, f'{where}, compressed again')
    for f in (fo, c.fo):
        if f:
            f.close()


def d_n(i):
    def f(c):
        c.r.seed(5000 + i)
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(4)}
