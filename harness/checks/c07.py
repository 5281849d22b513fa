"""C07: a written file reloads to the document that was written.

Monitor: random histories over every writing operation; each written file is read by the strict independent reader (offsets, entry size, subsections,
free list, Size, Prev, lengths, object stream headers) and reopened by the library, both compared with the document in memory."""
import zlib
from ..lib import Name, Ref, Stm, from_lib, short
from .. import gen, docs, edits, refpdf
from . import c04, c06

ID = 'C07'
QUICK, THOROUGH = 3000, 50000
SCALED = 12
RULE = ('random histories of edits, page operations, commits, squash, compress, concatenation and forced cross-reference streams on blank and generated '
        'documents, written and read back twice; distinct: written bytes; non-trivial: the file contains a section written by the library')
NEED = {'oracle_checks': 30000, 'reference_reads': 1500, 'issues_examined': 1500, 'sections': 2000, 'table_sections': 500, 'stream_sections': 300,
        'objstm_objects': 300, 'streams_read': 2000, 'reopened': 1500, 'free_entries': 300, 'grouped': 30, 'grouped_chosen': 60, 'placeholders': 25}
N = docs.N
OPS = edits.OPS + ['squash', 'compress', 'append', 'concat', 'rewind']


def strict_read(c, data, base, snap, where):
    """The strict reader finds nothing to object to from base on, and the document snap."""
    c.count('reference_reads')
    ref = refpdf.RefPDF(data, from_pos=base)
    issues = ref.check()
    c.count('issues_examined')
    c.check(not issues, f'{where}: {issues[:3]}')
    for s in ref.sections:
        if s.pos >= base:
            c.count('sections')
            c.count('table_sections' if s.kind == 'table' else 'stream_sections')
            c.count('free_entries', sum(e[0] == 'f' for e in s.entries.values()))
            c.count('objstm_objects', sum(e[0] == 'c' for e in s.entries.values()))
            for n, e in s.entries.items():
                c.check(e[0] != 'f' or e[2] <= 65535, f'{where}: generation {e[2]} of free object {n}')
    st = ref.state()
    for n, (g, v) in st.items():
        if isinstance(v, Stm):
            c.count('streams_read')
            docs.fill_plain(v, st)
    docs.check_objects(c, snap['objects'], st, f'{where}: read by the strict reader')
    # stream data the document shows is what a reader decodes
    for n, (g, v) in st.items():
        if isinstance(v, Stm) and docs.decodable(v):
            w = snap['objects'][n][1]
            c.check(w.plain == v.plain, f'{where}: stream {n} decodes to {short(v.plain)}, shown as {short(w.plain)}')
    docs.check_trailer(c, snap['trailer'], ref.trailer, f'{where}: trailer read by the strict reader')
    want = [(a.num, d) for a, d in snap['pages']]
    docs.check_pages(c, want, ref.pages(), f'{where}: pages read by the strict reader')
    return ref


def reopen(c, data, snap, where):
    c.count('reopened')
    d, fo = c04.open_any(c, data)
    got = docs.snapshot(c.L, d)
    want = dict(snap)
    for x in (want, got):
        x['trailer'] = docs.trailer_view(x['trailer'])
    want['changes'], want['updates'] = got['changes'], got['updates']
    c.check(got['changes'] == [], f'{where}: reopened, lists changes {got["changes"][:5]}')
    diff = docs.diff_snapshot(want, got)
    c.check(not diff, f'{where}: reopened: {diff}')
    if fo:
        fo.close()


def start(c):
    r = c.r
    x = r.random()
    if x < .2:
        return edits.blank(c), b'', 'blank'
    f, b = gen.random_file(r, revs=r.choice([1, 1, 2, 3]), build=dict(gens=r.random() < .3, sparse=r.choice([0, 0, .1, .3]), wild=r.choice([0, 1, 2])))
    data = f.data()
    for ly in f.layouts:
        c.feat('layout:' + ly)
    return c04.open_any(c, data, r.choice(['bytes', 'path']))[0], data, '/'.join(f.layouts)


def case(c):
    r, L = c.r, c.L
    doc, data, where = start(c)
    n = r.choice([1, 2, 3, 5, 8])
    log = []
    for i in range(n):
        if r.random() < .08:
            doc = L.force_xref_stream(doc, filt=r.choice(['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode', None]))
            log.append('xrefstream')
            continue
        if r.random() < .06:
            ss = L.list_streams(doc)
            doc = L.apply_filter(doc, r.sample(ss, r.randint(0, len(ss))), r.choice(['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode', None]))
            log.append('filter')
            continue
        doc, nm = edits.op(c, doc, OPS)
        log.append(nm)
    if r.random() < .2 and c06.groupable(c, doc):
        doc = L.force_xref_stream(doc)
        if r.random() < .4:                            # chosen objects, changed or not
            nums = [int(i.imag) for i in L.in_use(doc)]
            doc = L.group_obj_into_stream(doc, o_nums=set(r.sample(nums, r.randint(1, len(nums)))))
            c.count('grouped_chosen')
        else:
            doc = L.group_obj_into_stream(doc)
        log.append('objstm')
        c.count('grouped')
    place = None
    if r.random() < .08:                               # the number of the cross-reference stream is chosen beforehand
        k = L.max_num(doc)
        doc = L.force_xref_stream(doc, placeholder=True)
        if L.max_num(doc) > k:
            place = L.max_num(doc)
            log.append('placeholder')
            c.count('placeholders')
            for _ in range(r.randint(0, 2)):
                doc, nm = edits.op(c, doc, ('add',))
                log.append(nm)
    where = f'{where} after {" ".join(log)}'
    snap = docs.snapshot(L, doc)
    snap['objects'].pop(place, None)
    d1, w = L.write(doc, c.path())
    c.digest(w)
    c.sample(f'{where}: {len(w)} bytes')
    try:
        e = data.rindex(b'%%EOF') + 5 if data else 0
    except ValueError:
        e = 0
    base = e if e and w.startswith(data[:e]) else 0
    if base == 0 and data and not set(log) & {'squash', 'compress', 'concat', 'rewind'}:
        c.fail(f'{where}: the original bytes are gone')
    if base == 0 and 'rewind' in log and data:
        # rewound below the original end: what is left of the original is not judged
        while base < min(len(w), len(data)) and w[base] == data[base]:
            base += 1
        base = w.rfind(b'%%EOF', 0, base + 5) + 5 if b'%%EOF' in w[:base + 5] else 0
    if len(w) - base < 20:
        c.trivial()
    strict_read(c, w, base, snap, where)
    reopen(c, w, snap, where)
    # the document returned by writefile shows the same, and a second generation of edits works the same
    c.w = w
    s1 = docs.snapshot(L, d1)
    if L.updates(d1) == L.updates(doc):
        s1['objects'].pop(place, None)
    s1['changes'], s1['updates'] = snap['changes'], snap['updates']
    diff = docs.diff_snapshot(dict(snap, trailer=docs.trailer_view(snap['trailer'])), dict(s1, trailer=docs.trailer_view(s1['trailer'])))
    c.check(not diff, f'{where}: the document returned by writefile differs: {diff}')
    if r.random() < .5:
        same = r.random() < .4
        d2 = d1 if same else L.loads(w)
        for _ in range(r.randint(1, 3)):
            d2, nm = edits.op(c, d2, edits.OPS)
            log.append(nm)
        snap2 = docs.snapshot(L, d2)
        if same and L.updates(d1) == L.updates(doc):
            snap2['objects'].pop(place, None)          # not committed yet
        _, w2 = L.write(d2, c.path())
        where2 = f'{where}, written, after {" ".join(log[n:])}'
        c.check(w2.startswith(w.rstrip(b'\r\n')), f'{where2}: the bytes written first changed')
        strict_read(c, w2, base, snap2, where2)
        reopen(c, w2, snap2, where2)


def d_n(i):
    def f(c):
        c.r.seed(2000 + i)
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(6)}
