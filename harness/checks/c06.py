"""C06: edits are written as append-only, removable increments.

Monitor: random edit/commit histories on generated files opened in every access mode; the bytes written at each step are compared with the bytes
of the original file and of the previous step, the appended part is read by the strict reader and tiled, and files cut back are reopened."""
from ..lib import Name, Ref, Stm, short
from .. import gen, docs, edits, refpdf
from . import c04

ID = 'C06'
QUICK, THOROUGH = 1500, 30000
SCALED = 12
RULE = ('random histories of edits and commits on a generated file (every layout and access mode) or a blank document, written at every commit; '
        'distinct: the written bytes; non-trivial: at least one increment appended')
NEED = {'oracle_checks': 20000, 'increments': 1500, 'unedited': 400, 'cut_original': 300, 'cut_last': 300, 'two_increments': 200, 'defs': 3000, 'frees': 100,
        'mode:file': 50, 'mode:ondemand': 50, 'mode:path': 50, 'mode:bytes': 50, 'layout:linstream': 20, 'layout:lintable': 20, 'layout:hybrid': 50,
        'layout:objstm': 50, 'same_file': 50}
N = docs.N
OPS = [o for o in edits.OPS if o != 'commit'] + ['append']
WS = b'\x00\t\n\x0c\r '


def body(data):
    """The file up to the end of its last end marker."""
    return data[:data.rindex(b'%%EOF') + 5]


def check_increment(c, prev, new, before, after, touched, where):
    """new = prev + one increment taking the document from snapshot before to snapshot after."""
    base = len(prev)
    ref = refpdf.RefPDF(new, from_pos=base)
    secs = [s for s in ref.sections if s.pos >= base]
    c.check(len(secs) == 1, f'{where}: {len(secs)} cross-reference sections appended')
    s = secs[0]
    ent = dict(s.hybrid or {})
    ent.update(s.entries)
    spans = []
    conts = {e[1] for e in ent.values() if e[0] == 'c'}
    for n, e in sorted(ent.items()):
        if n == 0 or n == s.num or n in conts:
            if n in conts or n == s.num:
                c.check(n not in before['objects'], f'{where}: container {n} replaces an object')
        elif e[0] == 'f':
            c.count('frees')
            c.check(n not in after['objects'], f'{where}: object {n} is in use but freed by the increment')
            c.check(n in before['objects'] or n > max(before['objects'], default=0) or n not in after['objects'], f'{where}: frees {n}')
        else:
            c.count('defs')
            c.check(n in after['objects'], f'{where}: the increment defines object {n}, which is not in use')
            a, b = before['objects'].get(n), after['objects'][n]
            if a is not None and n not in touched:
                c.check(a[0] != b[0] or not docs.same_value(a[1], b[1]) or isinstance(b[1], Stm) and a[1].raw != b[1].raw,
                        f'{where}: the increment defines object {n} again, unchanged: {short(b[1])}')
        if e[0] == 'n' and n:
            c.check(e[1] >= base, f'{where}: entry of object {n} leads to {e[1]}, before the increment at {base}')
            num, gen_, v, end = ref.read_indirect(e[1], (n, e[2]))
            spans.append((e[1], end, f'object {n}'))
    if s.num is None:
        spans.append((s.pos, s.end, 'table'))
    for n in after['objects']:
        a, b = before['objects'].get(n), after['objects'][n]
        if a is None or a[0] != b[0] or not docs.same_value(a[1], b[1]):
            c.check(n in ent and ent[n][0] != 'f', f'{where}: changed object {n} is not defined by the increment')
    for n in before['objects']:
        if n not in after['objects']:
            c.check(n in ent and ent[n][0] == 'f', f'{where}: deleted object {n} is not freed by the increment')
    # nothing else lies in the increment
    spans.sort()
    pos = base
    for a, z, what in spans:
        c.check(not new[pos:a].strip(WS), f'{where}: {short(new[pos:a])} lies before {what}')
        pos = z
    tail = new[pos:].split()
    c.check(tail == [b'startxref', b'%d' % s.pos, b'%%EOF'], f'{where}: the increment ends with {short(new[pos:])}')


def groupable(c, doc):
    live = c.L.live(doc)
    return any(a != 'd' and live.get(int(i.imag), (1, None))[0] == 0 and not isinstance(live[int(i.imag)][1], (Stm, Ref)) for i, a in c.L.changes(doc))


def case(c):
    r, L = c.r, c.L
    fo = None
    f = None
    if r.random() < .12:
        doc = edits.blank(c)
        data = b''
        where = 'blank'
    else:
        f, b = gen.random_file(r, revs=r.choice([1, 1, 2, 3]), build=dict(gens=r.random() < .3, sparse=r.choice([0, 0, .1])))
        data = f.data()
        exact = True
        x = r.random()
        if x < .15:
            data = body(data)
        elif x < .25:
            data += r.choice([b'\n', b'\r\n', b' ', b'\x00' * 20, b'\n\n\n'])
            exact = False
        doc, fo = c04.open_any(c, data)
        for ly in f.layouts:
            c.feat('layout:' + ly)
            c.count('layout:' + ly)
        where = '/'.join(f.layouts)
        x = c.path()
        _, w = L.write(doc, x) if r.random() < .8 else L.write_stdout(doc)
        c.count('unedited')
        if not exact:
            c.check(data.startswith(w) and len(w) >= len(body(data)), f'{where}: the unedited document of {len(data)} bytes is written as {len(w)} bytes')
            data = w
        c.check(w == data, lambda: f'{where}: the unedited document is written as {len(w)} bytes instead of {len(data)}; first difference at '
                f'{next((i for i, (p, q) in enumerate(zip(w, data)) if p != q), min(len(w), len(data)))}')
    snap0 = docs.snapshot(L, doc)
    written = [data]
    snaps = [snap0]
    committed = []
    c.touched = set()
    for _ in range(r.randint(1, 4)):
        before = snaps[-1]
        log = []
        for _ in range(r.randint(1, 4)):
            if r.random() < .04:
                doc, nm = L.force_xref_stream(doc, placeholder=False, filt=r.choice(['/FlateDecode', '/ASCIIHexDecode'])), 'xrefstream'
            else:
                doc, nm = edits.op(c, doc, OPS)
            log.append(nm);
        if r.random() < .06 and groupable(c, doc):
            doc = L.group_obj_into_stream(L.force_xref_stream(doc, placeholder=False))
            log.append('objstm')
        where_ = f'{where} after {" ".join(log)}'
        snap = docs.snapshot(L, doc)
        if r.random() < .5:
            doc = L.commit(doc)
            d2, w = L.write(doc, c.path())
        elif r.random() < .5:
            d2, w = L.write_stdout(doc)
            doc = d2 if r.random() < .7 else L.commit(doc)
        else:
            doc, w = L.write(doc, c.path())
        prev = written[-1]
        if not snap['changes']:
            c.check(w == prev if len(written) > 1 or data else True, f'{where_}: nothing changed but the file is written differently')
            continue
        c.count('increments')
        base = body(prev) if len(written) == 1 and data else prev
        c.check(w.startswith(base), lambda: f'{where_}: byte {next((i for i, (p, q) in enumerate(zip(w, base)) if p != q), len(w))} of the '
                f'{len(base)} bytes of the file so far was changed')
        if base:
            check_increment(c, base, w, before, snap, c.touched, where_)
        c.touched = set()
        written.append(w)
        snaps.append(snap)
        committed.append(doc)
    c.digest(written[-1])
    c.sample(f'{where}: {[len(w) for w in written]} bytes')
    if len(written) == 1:
        c.trivial()
        return
    last = written[-1]
    # writing the written document again, and writing it over the file it was read from
    _, w = L.write(doc, c.path())
    c.check(w == last, f'{where}: writing twice gives {len(last)} and {len(w)} bytes')
    # cutting
    if data:
        cut, fo2 = c04.open_any(c, last[:len(body(data))])
        c.count('cut_original')
        d = docs.diff_snapshot(snap0, docs.snapshot(L, cut))
        c.check(not d, f'{where}: the file cut back to the original differs from it: {d}')
        if fo2:
            fo2.close()
    for k in range(1, len(written)):
        cut, fo2 = c04.open_any(c, last[:len(written[k])])
        c.count('cut_last')
        got = docs.snapshot(L, cut)
        want = dict(snaps[k])
        for x in (want, got):
            x['trailer'] = docs.trailer_view(x['trailer'])
        want['changes'], want['updates'] = got['changes'], got['updates']
        d = docs.diff_snapshot(want, got)
        c.check(not d, f'{where}: cut back to increment {k} of {len(written) - 1}: {d}')
        c.check(got['updates'] == snap0['updates'] + k, f'{where}: cut back to increment {k}: {got["updates"]} revisions')
        if fo2:
            fo2.close()
    if len(written) > 2:
        c.count('two_increments')
    if data and r.random() < .3:
        same_file(c, data, where)
    if fo:
        fo.close()


def same_file(c, data, where):
    """Edit a file in place: read and written under the same name."""
    L, r = c.L, c.r
    c.count('same_file')
    p = c.path()
    with open(p, 'wb') as f:
        f.write(data)
    h = None
    if r.random() < .4:
        d = L.readfile(p)
    else:
        h = open(p, 'rb')
        d = L.load(h, r.choice(['SINGLE', 'CONTINUOUS']))
    d, _ = L.add_object(d, {'/VfInPlace': 1})
    snap = docs.snapshot(L, d)
    d = L.writefile(d, p)
    with open(p, 'rb') as f:
        w = f.read()
    c.check(w.startswith(body(data)), f'{where}: edited in place, the file lost its original bytes')
    got = docs.snapshot(L, L.loads(w))
    diff = docs.diff_value(snap['objects'], got['objects']) if set(snap['objects']) != set(got['objects']) else None
    c.check(not diff, f'{where}: edited in place: {diff}')
    if h:
        h.close()


def d_n(i):
    def f(c):
        c.r.seed(1000 + i)
        c.i = i
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(6)}
