"""C09: squash keeps the document and drops its history.

Monitor: after random histories the squashed document, in memory, read back by the library and read by the strict reader, is compared with the original as a
graph up to renumbering; the written bytes are searched for markers of superseded and deleted content."""
import re
from ..lib import Name, Ref, Stm, from_lib, short
from .. import gen, docs, edits, refpdf
from . import c04, c07

ID = 'C09'
QUICK, THOROUGH = 1400, 24000
SCALED = 12
RULE = ('random histories on blank and generated documents of every layout, squashed once or several times, with edits afterwards; distinct: written bytes; '
        'non-trivial: the document has more than one revision or edits')
NEED = {'oracle_checks': 20000, 'graphs': 3000, 'objects_matched': 20000, 'dropped_markers': 1000, 'dropped_strings': 300, 'reference_reads': 1000, 'reopened': 1000, 'multi_revision': 500}
N = docs.N
OPS = edits.OPS + ['append', 'concat', 'rewind', 'compress']


def graph_of(L, doc):
    return docs.Graph.of(L, doc), L.eff_pages(doc), L.metadata(doc), L.version(doc)


def compare(c, before, after, where, recode=False, skip=lambda p: False):
    a, pa, ma, va = before
    b, pb, mb, vb = after
    c.count('graphs')
    e, iso = docs.same_document(a, b, pa, pb, recode, skip)
    c.check(not e, lambda: f'{where}: {e}')
    e = iso.unreachable()
    c.check(not e, lambda: f'{where}: {e}')
    c.count('objects_matched', len(iso.fwd))
    c.check(ma == mb, lambda: f'{where}: metadata {short(ma)} became {short(mb)}')
    return iso


def dense(c, b, where):
    nums = sorted(b.objs)
    return nums


def compare_file(c, before, w, where, recode=False, skip=lambda p: False):
    """The written bytes hold exactly the document, in one revision."""
    c.count('reference_reads')
    ref = refpdf.RefPDF(w)
    issues = ref.check()
    c.check(not issues, f'{where}: {issues[:3]}')
    st = ref.state()
    for n, (g, v) in st.items():
        if isinstance(v, Stm):
            docs.fill_plain(v, st)
    st = {n: x for n, x in st.items() if not (isinstance(x[1], Stm) and x[1].d.get(N('Type')) in (b'XRef', b'ObjStm'))}
    b = docs.Graph(ref.trailer, st)
    pages = [x if isinstance(x[0], Ref) else (Ref(x[0], b.objs[x[0]][0]), x[1]) for x in ref.pages()]
    a, pa, ma, va = before
    e, iso = docs.same_document(a, b, pa, pages, recode, skip)
    c.check(not e, lambda: f'{where}: read by the strict reader: {e}')
    e = iso.unreachable()
    c.check(not e, lambda: f'{where}: read by the strict reader: {e}')
    c.check(len(ref.sections) == 1, f'{where}: {len(ref.sections)} cross-reference sections in the file')
    c.check(w.count(b'startxref') == 1 or any(b'startxref' in s for s in raw_places({**st, 0: (0, ref.trailer)})), f'{where}: several startxref')
    used = sorted(n for s in ref.sections for n, e in s.entries.items() if e[0] != 'f' and n)
    c.check(used == list(range(1, len(used) + 1)), lambda: f'{where}: numbering is not dense: {len(used)} objects, numbers up to {used[-1]}')
    return ref


def raw_places(st):
    for g, v in st.values():
        if isinstance(v, Stm):
            yield v.raw
        yield repr(v).encode('latin-1', 'replace')


def history(c):
    """A document after a random history; returns (doc, markers seen before, description)."""
    r, L = c.r, c.L
    seen = set()
    x = r.random()
    if x < .15:
        doc, desc = edits.blank(c), 'blank'
    else:
        f, b = gen.random_file(r, revs=r.choice([1, 1, 2, 3, 4]), build=dict(gens=r.random() < .3, sparse=r.choice([0, 0, .2, .5]), wild=r.choice([0, 1, 2])))
        doc, fo = c04.open_any(c, f.data())
        c.fo = fo
        desc = '/'.join(f.layouts)
        for s in f.states:
            seen |= docs.markers(s.objs)
        for ly in f.layouts:
            c.feat('layout:' + ly)
        if len(f.layouts) > 1:
            c.count('multi_revision')
    for _ in range(r.choice([0, 1, 2, 4, 7])):
        if r.random() < .1:
            doc = L.force_xref_stream(doc)
            desc += ' xrefstream'
            continue
        seen |= docs.markers(L.live(doc))
        doc, nm = edits.op(c, doc, OPS)
        desc += ' ' + nm
    return doc, seen, desc


def dropped(c, seen, live, data, where, extra=b''):
    cur = docs.markers(live)
    gone = seen - cur
    rep = None
    for m in gone:
        if m < 10 ** 6:
            continue
        c.count('dropped_markers')
        s = str(m).encode()
        if s in data or s in extra:
            if rep is None:
                rep = ' '.join(repr(v) + repr(getattr(v[1], 'plain', '')) for v in live.values()).encode('latin-1', 'replace')
            c.check(s in rep, f'{where}: the file still holds {m}, which only occurs in superseded or deleted objects')


def case(c):
    r, L = c.r, c.L
    c.fo = None
    doc, seen, desc = history(c)
    secret = 7777000000 + r.randrange(10 ** 6)
    if r.random() < .5:                     # content that is deleted or replaced before the squash
        doc, iref = L.add_object(doc, {'/VfId': secret, '/VfS': b'(%d)' % secret})
        if r.random() < .6:
            doc = L.commit(doc)
        if r.random() < .5:
            doc = L.update_object(doc, int(iref.imag), None)
        else:
            doc = L.update_object(doc, int(iref.imag), {'/VfId': 1})
        if r.random() < .4:
            doc = L.commit(doc)
        seen.add(secret)
        c.count('dropped_strings')
        desc += ' secret'
    before = graph_of(L, doc)
    sq = L.squash(doc)
    where = f'{desc}: squash'
    if desc in ('blank',):
        c.trivial()
    after = graph_of(L, sq)
    iso = compare(c, before, after, where)
    nums = sorted(after[0].objs)
    c.check(nums == list(range(1, len(nums) + 1)), lambda: f'{where}: numbers {nums[:20]} are not dense')
    c.check(all(g == 0 for g, v in after[0].objs.values()), f'{where}: generations are not reset')
    c.check(after[3] == before[3], f'{where}: version {before[3]} became {after[3]}')
    c.check(L.updates(sq) <= 1, f'{where}: {L.updates(sq)} revisions')
    d1, w = L.write(sq, c.path())
    c.digest(w)
    c.sample(f'{where}: {len(w)} bytes')
    compare_file(c, before, w, where)
    dropped(c, seen, after[0].objs, w, where)
    c.check(w[:8] == b'%PDF-' + before[3].encode(), lambda: f'{where}: header {w[:8]} for version {before[3]}')
    d2, fo = c04.open_any(c, w)
    c.count('reopened')
    compare(c, before, graph_of(L, d2), f'{where}, reopened')
    c.check(L.structure(d2)['Revisions'] == 1, f'{where}, reopened: {L.structure(d2)["Revisions"]} revisions')
    if r.random() < .4:                     # edited after the squash, or squashed again
        d3 = r.choice([sq, d1, d2])
        for _ in range(r.randint(1, 3)):
            d3, nm = edits.op(c, d3, edits.OPS)
            where += ' ' + nm
        b3 = graph_of(L, d3)
        d4, w4 = L.write(d3, c.path())
        d5 = L.loads(w4)
        compare(c, b3, graph_of(L, d5), f'{where}, written and reopened')
        s5 = L.squash(r.choice([d3, d4, d5]))
        compare(c, b3, graph_of(L, s5), f'{where}, squashed again')
        _, w5 = L.write(s5, c.path())
        compare_file(c, b3, w5, f'{where}, squashed again')
        dropped(c, seen | docs.markers(after[0].objs), b3[0].objs, w5, where)
    for f in (fo, c.fo):
        if f:
            f.close()


def d_n(i):
    def f(c):
        c.r.seed(4000 + i)
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(4)}
