"""C22: no input makes reading hang or blow up.

Monitor: a step counter (every line and jump executed inside pdfsyntax), a CPU clock and a memory watch around every call on mutated, hostile and
random inputs; a call must return or raise an ordinary exception within a quadratic number of steps of the input size."""
import gc
import os
import re
import resource
import sys
import time
from ..lib import P, REPO, short
from .. import gen

ID = 'C22'
QUICK, THOROUGH = 3000, 60000
RULE = ('mutations of generated files (bytes, numbers, references, truncation, splices), hand-built graphs of objects with random cycles in every structural '
        'entry, and random token sequences, given to every reading function; distinct: the input; non-trivial: at least one function returned or raised after 50 steps')
NEED = {'calls': 30000, 'returned': 10000, 'raised': 5000, 'mutated': 500, 'graphs': 500, 'tokens': 500, 'opened': 500, 'cyclic_kids': 100, 'cyclic_prev': 50,
        'shared_kids': 100}
A, B = 200_000, 40            # steps allowed: A + B * size^2 (the parser rescans nested containers)
CPU = 60                      # CPU seconds of one call, whatever its steps
MEM = 700 << 20               # growth of the peak memory during one call
CPU_LIMIT = 600


class TooMuch(BaseException):
    pass


class Meter:
    TID = 3

    def __init__(self):
        self.n, self.limit, self.t0 = 0, float('inf'), 0
        self.on = False

    def tick(self, code, *a):
        if not code.co_filename.startswith(self.src):
            return self.mon.DISABLE
        self.n += 1
        if self.n > self.limit:
            raise TooMuch(f'{self.n} steps')
        if not self.n & 0x3fff and time.process_time() - self.t0 > CPU:
            raise TooMuch(f'{CPU} s of CPU')

    def start(self):
        if self.on:
            return
        self.on = True
        self.src = os.path.realpath(REPO) + os.sep + 'pdfsyntax'
        self.mon = m = sys.monitoring
        m.use_tool_id(self.TID, 'meter')
        for e in (m.events.LINE, m.events.JUMP):
            m.register_callback(self.TID, e, self.tick)
        m.set_events(self.TID, m.events.LINE | m.events.JUMP)


METER = Meter()


def peak():
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss << 10


def call(c, size, name, f, *a):
    """Run f under the meter; returns (ok, result)."""
    m = METER
    m.start()
    c.L.events[name] += 1
    c.L.trace.append(name)
    c.count('calls')
    p0 = peak()
    m.n, m.t0 = 0, time.process_time()
    m.limit = A + B * size * size
    res, ok, why = None, False, None
    try:
        res = f(*a)
        ok = True
    except TooMuch as e:
        why = f'was stopped after {e}'
    except MemoryError:
        why = 'exhausted the memory'
    except Exception:
        pass
    m.limit = float('inf')
    n = m.n
    if why is None and peak() - p0 > MEM:
        why = f'used {(peak() - p0) >> 20} MB'
    if why is None and time.process_time() - m.t0 > CPU:
        why = f'took {time.process_time() - m.t0:.0f} s'
    c.check(why is None, lambda: f'{name} {why} on {size} bytes of input ({c.kind}): {short(c.input, 400)}')
    c.count('returned' if ok else 'raised')
    c.count('steps', n)
    if n > 50:
        c.heavy = True
    k = n * 100 // m_limit(size)
    if k > c.worst:
        c.worst, c.worst_name = k, name
    return ok, res


def m_limit(size):
    return A + B * size * size


# ------------------------------------------------------------------ hostile graphs
def small_pdf(objs, trailer, xref='table', env=None):
    """A file with one section. objs: {num: body bytes}; env: {container: [nums]} embedded objects."""
    out = bytearray(b'%PDF-1.5\n')
    pos = {}
    emb = {}
    for n, body in objs.items():
        pos[n] = len(out)
        out += b'%d 0 obj\n' % n + body + b'\nendobj\n'
    for k, nums in (env or {}).items():
        for i, n in enumerate(nums):
            emb[n] = (k, i)
    x = len(out)
    if xref == 'table':
        out += b'xref\n0 %d\n' % (max(pos) + 1)
        for n in range(max(pos) + 1):
            out += b'%010d %05d n \n' % (pos[n], 0) if n in pos else b'0000000000 65535 f \n'
        out += b'trailer\n<</Size %d %s>>\n' % (max(pos) + 1, trailer)
    else:
        num = max(list(pos) + list(emb)) + 1
        rows = b''
        for n in range(num + 1):
            if n in emb:
                rows += b'\x02' + emb[n][0].to_bytes(3, 'big') + bytes([emb[n][1] & 255])
            elif n == num:
                rows += b'\x01' + x.to_bytes(3, 'big') + b'\x00'
            elif n in pos:
                rows += b'\x01' + pos[n].to_bytes(3, 'big') + b'\x00'
            else:
                rows += b'\x00\x00\x00\x00\x00'
        out += b'%d 0 obj\n<</Type/XRef/W[1 3 1]/Size %d/Length %d %s>>\nstream\n' % (num, num + 1, len(rows), trailer) + rows + b'\nendstream\nendobj\n'
    out += b'startxref\n%d\n%%%%EOF\n' % x
    return bytes(out)


def g_graph(c):
    """Objects whose structural entries lead anywhere, themselves included."""
    r = c.r
    n = r.randint(3, 14)
    nums = list(range(1, n + 1))

    def ref(p=None):
        return b'%d 0 R' % r.choice(p or nums)

    def num():
        return b'%d' % r.choice([0, 1, -1, 2, 3, 9, 255, 65536, 10 ** 6, 10 ** 9, 2 ** 31, 10 ** 12, -10 ** 9, 10 ** 20])

    def some(lo=0, hi=5, p=None):
        return b'[' + b' '.join(ref(p) for _ in range(r.randint(lo, hi))) + b']'
    role = {}
    for k in nums:
        role[k] = r.choice(['pages', 'pages', 'pages', 'page', 'page', 'font', 'contents', 'bare', 'array', 'res', 'stream', 'any', 'objstm'])
    role[1] = 'catalog'
    role[2] = 'pages'
    by = {}
    for k, v in role.items():
        by.setdefault(v, []).append(k)
    cyc = r.random() < .7
    tree = by['pages'] + by.get('page', [])
    if cyc:
        c.count('cyclic_kids')
    objs, env = {}, {}
    for k in nums:
        what = role[k]
        later = [x for x in tree if x > k] or [n]
        if what == 'catalog':
            b = b'<</Type/Catalog/Pages %s/Outlines %s/Version %s>>' % (r.choice([b'2 0 R', b'2 0 R', ref()]), ref(), r.choice([b'/1.7', b'null', ref()]))
        elif what == 'pages':
            kids = some(0, 6, tree if cyc else later)
            if r.random() < .5:
                c.count('shared_kids')
                x = ref(tree if cyc else later)
                kids = b'[' + b' '.join([x] * r.randint(2, 6)) + b']'
            b = b'<</Type/Pages/Kids %s/Count %s/Parent %s' % (r.choice([kids, kids, kids, ref()]), r.choice([b'1', b'2', num(), ref()]), ref())
            for a in (b'Resources', b'MediaBox', b'Rotate'):
                if r.random() < .4:
                    b += b'/' + a + b' ' + r.choice([ref(), b'[0 0 100 100]', b'<<>>', b'90'])
            b += b'>>'
        elif what == 'page':
            b = b'<</Type/Page/Parent %s/Contents %s/Resources %s/MediaBox %s/Annots %s/B %s>>' % (
                ref(), r.choice([ref(), some(), b'[' + some() + b']']), r.choice([ref(), b'<</Font<</F1 %s/F2 %s>> >>' % (ref(), ref())]),
                r.choice([b'[0 0 612 792]', ref(), some(0, 4)]), r.choice([some(), ref()]), some())
        elif what == 'font':
            b = b'<</Type/Font/Subtype %s/BaseFont %s/Encoding %s/ToUnicode %s/FirstChar %s/Widths %s/DescendantFonts %s/W %s/DW %s>>' % (
                r.choice([b'/Type0', b'/Type1', ref()]), r.choice([b'/A', ref()]), r.choice([b'/WinAnsiEncoding', ref()]), ref(), num(),
                r.choice([b'[500 500]', ref(), some(), b'null']), r.choice([some(1, 2), ref()]),
                r.choice([b'[%s %s %s]' % (num(), num(), num()), some(), ref(), b'[1 [%s %s]]' % (num(), ref())]), r.choice([num(), ref()]))
            if r.random() < .5:
                b = b.replace(b'/Widths [500 500]', b'').replace(b'/Widths null', b'')
        elif what == 'contents':
            d = r.choice([b'BT /F1 12 Tf (abc) Tj [(a) %s (b)] TJ ET' % num(), b'q q q cm Q Q Q Q', b'BT %s Tc %s Tw %s Tz /F1 %s Tf %s %s Td (abc) Tj (d) Tj ET' % tuple(num() for _ in range(6)),
                          b'BT 1 0 0 1 %s %s Tm /F1 1 Tf (ab) Tj 1 0 0 1 %s %s Tm (cd) Tj 1 0 0 1 %s %s Tm (cd) Tj ET' % tuple(num() for _ in range(6)), b'BI /W 1 ID xxx'])
            b = b'<</Length %s>>\nstream\n' % r.choice([b'%d' % len(d), num(), ref()]) + d + b'\nendstream'
        elif what == 'bare':
            b = ref()
        elif what == 'array':
            b = some(0, 6)
        elif what == 'res':
            b = b'<</Font %s/XObject %s>>' % (r.choice([ref(), b'<</F1 %s>>' % ref()]), ref())
        elif what == 'stream':
            d = r.choice([b'1 beginbfrange <00> <FF> <0000> endbfrange', b'1 beginbfchar <00> <41> endbfchar', b'1 beginbfrange <0000> <FFFFFFFF> <0000> endbfrange',
                          b'beginbfrange', b'1 begincodespacerange <00> <FF> endcodespacerange 1 beginbfrange <00> <FF> [<41>] endbfrange'])
            b = b'<</Length %d/Filter %s/DecodeParms<</Predictor %s/Columns %s/Colors %s/BitsPerComponent %s>> >>\nstream\n' % (
                len(d), r.choice([b'null', b'[]', ref(), b'/FlateDecode', b'[/FlateDecode /FlateDecode]', b'/X']), r.choice([b'1', b'2', b'12', b'15', num()]), num(), num(), num()) + d + b'\nendstream'
        elif what == 'objstm':
            inner = [r.choice(nums) for _ in range(r.randint(0, 4))]
            env[k] = inner
            body = b''
            head = b''
            for x in inner:
                head += b'%d %s ' % (x, r.choice([b'%d' % len(body), b'0', num()]))
                body += r.choice([b'<</Type/Pages/Kids[%s]/Count 1>> ' % ref(), ref() + b' ', b'[%s] ' % ref(), b'(x) '])
            d = head + body
            b = b'<</Type/ObjStm/N %s/First %s/Extends %s/Length %d>>\nstream\n' % (r.choice([b'%d' % len(inner), num()]), r.choice([b'%d' % len(head), num()]), ref(), len(d)) + d + b'\nendstream'
        else:
            b = b'<</Type %s/A %s/P %s/Next %s/First %s>>' % (r.choice([b'/Catalog', b'/Annot', b'/Page', b'/Pages', ref()]), r.choice([ref, ref, lambda: g_nested(r)])(), ref(), some(), ref())
        objs[k] = b
    tr = b'/Root %s/Info %s/ID %s' % (r.choice([b'1 0 R', b'1 0 R', b'1 0 R', ref()]), ref(), some())
    if r.random() < .2:
        tr += b'/Encrypt ' + ref()
    kind = 'table' if not env or r.random() < .4 else 'stream'
    data = small_pdf(objs, tr, kind, env if kind == 'stream' else None)
    if r.random() < .5:
        data = cyclic_prev(c, data, r.randint(1, 4))
    return data


def cyclic_prev(c, data, k):
    """Append sections whose Prev and XRefStm lead to any section, not only to earlier ones."""
    r = c.r
    c.count('cyclic_prev')
    out = bytearray(data)
    secs = [int(m[1]) for m in re.finditer(rb'startxref\s+(\d+)', data)] or [0]
    holes = []
    for _ in range(k):
        pos = len(out)
        if r.random() < .6:
            out += b'xref\n%d 1\n%010d %05d n \ntrailer\n<</Size 20/Root 1 0 R/Prev PREVPREV00 %s>>\n' % (
                r.randint(0, 20), r.choice(secs), 0, r.choice([b'', b'/XRefStm PREVPREV00']))
        else:
            out += b'%d 0 obj\n<</Type/XRef/W[1 2 1]/Size 3/Index[%d 1]/Root 1 0 R/Prev PREVPREV00/Length 4>>\nstream\n\x01\x00\x10\x00\nendstream\nendobj\n' % (r.randint(1, 25), r.randint(0, 20))
        out += b'startxref\n%d\n%%%%EOF\n' % pos
        secs.append(pos)
    s = bytes(out)
    while b'PREVPREV00' in s:
        s = s.replace(b'PREVPREV00', b'%010d' % r.choice(secs), 1)
    return s


# ------------------------------------------------------------------ mutations
def g_mutated(c):
    r = c.r
    f, b = gen.random_file(r, revs=r.choice([1, 1, 2, 3]), build=dict(pages=r.randint(1, 3), objects=r.randint(1, 4)), scale=0)
    d = bytearray(f.data())
    for _ in range(r.choice([1, 1, 2, 3, 8])):
        x = r.random()
        n = len(d)
        if not n:
            break
        if x < .2:
            d[r.randrange(n)] = r.choice([r.randrange(256), r.choice(b'<>[]()/%\n\r \\0129')])
        elif x < .3:
            i = r.randrange(n)
            del d[i:i + r.choice([1, 2, 5, 20, 200])]
        elif x < .45:
            i = r.randrange(n + 1)
            d[i:i] = r.choice([b'<<', b'>>', b'[', b']', b'(', b')', b'%', b'stream\n', b'endstream', b'endobj', b'obj', b'R', b'\\', b'/', b'<', b'>', b'xref\n', b'trailer', b'{', b'}',
                               b'0 0 R ', b'1 0 obj ', b'startxref\n0\n%%EOF', bytes(8)])
        elif x < .55:
            d = d[:r.randrange(n)] if r.random() < .5 else d[r.randrange(n):]
        elif x < .65:
            i, j = sorted((r.randrange(n), r.randrange(n)))
            k = r.randrange(n)
            d[k:k] = d[i:min(j, i + 300)]
        elif x < .85:
            nums = list(re.finditer(rb'(?<![0-9.])\d+(?![0-9.])', d))
            if nums:
                m = r.choice(nums)
                v = r.choice([b'0', b'1', b'-1', b'2', b'99999999', b'4294967296', b'1000000', b'1' + b'0' * 30, m[0] + b'0', b'%d' % r.randrange(n), b'%d' % r.randint(1, 12)])
                d[m.start():m.end()] = v
        else:
            refs = list(re.finditer(rb'(\d+) 0 R', d))
            if refs:
                m, k = r.choice(refs), r.choice(refs)
                d[m.start():m.end()] = k[0]
    return bytes(d)


TOK = [b'<<', b'>>', b'[', b']', b'(', b')', b'<', b'>', b'/', b'/A', b'%', b'\n', b'\r', b' ', b'\\', b'1', b'0', b'R', b'obj', b'endobj', b'stream', b'endstream', b'xref', b'trailer',
       b'startxref', b'%%EOF', b'true', b'null', b'-', b'.', b'+', b'{', b'}', b'BI', b'ID', b'EI', b'BT', b'ET', b'Tj', b'TJ', b"'", b'"', b'q', b'Q', b'cm', b'\xff', b'\x00', b'12', b'1 0 R',
       b'1 0 obj', b'(a)', b'<41>', b'/Length 5', b'/Filter/FlateDecode', b'/Type/XRef', b'/Type/ObjStm', b'0000000000 65535 f ', b'0 1']


def g_nested(r):
    """A well-formed value of containers in containers."""
    out, close = b'', b''
    kind = r.choice(['array', 'dict', 'mix', 'mix', 'paren', 'stream'])
    for _ in range(r.choice([5, 20, 25, 30, 40, 60, 100, 200])):
        k = r.choice(['array', 'dict']) if kind == 'mix' else kind
        pad = r.choice([b'', b'', b' ', b'1 ', b'/A '])
        if k == 'array':
            out, close = out + b'[' + pad, r.choice([b'', b'', b' 2']) + b']' + close
        elif k == 'paren':
            out, close = out + b'(', b')' + close
        elif k == 'stream':
            out, close = out + b'<</A ', b'>>' + close
        else:
            out, close = out + b'<<' + r.choice([b'/B 1', b'']) + b'/A ', r.choice([b'', b'/C[]']) + b'>>' + close
    v = out + r.choice([b'1', b'null', b'(x)', b'1 0 R']) + close
    return v + b'stream\nabc\nendstream' if kind == 'stream' else v


def g_tokens(r):
    x = r.random()
    if x < .12:
        return g_nested(r)
    if x < .3:
        t = r.sample(TOK, r.randint(1, 4))
        return r.choice([b'', b' ', b'\n']).join(r.choice(t) for _ in range(r.randint(1, 300)))
    if x < .4:
        return r.randbytes(r.randint(0, 300))
    if x < .5:
        return r.choice(TOK) * r.randint(1, 500)
    return b''.join(r.choice(TOK) + r.choice([b'', b' ', b'\n']) for _ in range(r.randint(1, 150)))


def scan(text):
    """Tokenize the way the library does."""
    i = n = 0
    while i < len(text) and n < 4 * len(text) + 10:
        h, j, t = P.next_token(text, i)
        if j <= i:
            j = i + 1
        i = j
        n += 1


def pages_of(d):
    return [P.extract_page_text(d, i) for i in range(min(4, len(P.flat_page_tree(d))))]


def quiet(c, name, *a):
    import io
    old, sys.stdout = sys.stdout, io.TextIOWrapper(io.BytesIO(), encoding='utf-8', errors='surrogatepass')
    try:
        return getattr(P, name)(*a)
    finally:
        sys.stdout = old


def read_all(c, data):
    """Everything that reads a file."""
    n = len(data)
    r = c.r
    fd = P.bdata_provider(data)
    call(c, n, 'file_object_map', P.file_object_map, fd)
    ok, seq = call(c, n, 'build_xref_sequence', P.build_xref_sequence, fd)
    call(c, n, 'linearized', P.linearized, fd)
    call(c, n, 'hexdump', P.hexdump, fd)
    p = c.path()
    with open(p, 'wb') as f:
        f.write(data)
    for name in ('dump_disasm', 'browse', 'overview', 'spatial', 'print_fonts'):
        if r.random() < .6:
            call(c, n, name, quiet, c, name, p)
    ok, doc = call(c, n, 'loads', P.loads, data)
    if not ok:
        return
    c.count('opened')
    for name in ('structure', 'metadata', 'fonts', 'pages', 'in_use', 'changes', 'flat_page_tree', 'version', 'number_pages', 'envelopes'):
        call(c, n, name, getattr(P, name), doc)
    for name in ('pprint_index', 'pprint_cache', 'pprint_page_hierarchy', 'pprint_data_history'):
        call(c, n, name, quiet, c, name, doc)
    for k in r.sample(range(min(len(doc.index[-1]), 60)), min(len(doc.index[-1]), 8)):
        call(c, n, 'get_object', P.get_object, doc, complex(0, k))
        call(c, n, 'dependencies', P.dependencies, doc, complex(0, k))
    call(c, n, 'extract_page_text', pages_of, doc)
    for i in range(2):
        call(c, n, 'get_page_contents', P.get_page_contents, doc, i)
    call(c, n, 'rewind', P.rewind, doc)
    # selecting and copying walk the same structures
    for name, a in (('remove_pages', ({0},)), ('keep_pages', (0,)), ('squash', ()), ('compress', ()), ('rotate', ()), ('concat', (doc,)), ('add_text_annotation', (0, 'x', [0, 0, 1, 1]))):
        if r.random() < .4:
            call(c, n, name, getattr(P, name), doc, *a)
    call(c, n, 'slice', lambda: doc[0])


def case(c):
    r = c.r
    c.worst, c.worst_name, c.heavy = 0, '', False
    x = r.random()
    if x < .3:
        c.kind = 'mutated file'
        c.count('mutated')
        data = c.input = g_mutated(c)
        c.digest(data)
        if len(data) > 6000:
            data = c.input = data[:3000] + data[-3000:]
        read_all(c, data)
    elif x < .65:
        c.kind = 'hostile graph'
        c.count('graphs')
        data = c.input = g_graph(c)
        if r.random() < .1:
            i = r.randrange(len(data))
            data = c.input = data[:i] + r.choice(TOK) + data[i + r.randint(0, 3):]
        c.digest(data)
        read_all(c, data)
    else:
        c.kind = 'tokens'
        c.count('tokens')
        data = c.input = g_tokens(r)
        c.digest(data)
        n = len(data)
        call(c, n, 'next_token', scan, data)
        call(c, n, 'parse_obj', P.parse_obj, data)
        call(c, n, 'parse_obj', P.parse_obj, b'[' + data + b']')
        call(c, n, 'parse_obj', P.parse_obj, b'<<' + data + b'>>')
        call(c, n, 'parse_obj', P.parse_obj, b'<<' + data + b'>>stream\n' + data + b'endstream')
        call(c, n, 'parse_indirect_obj', P.parse_indirect_obj, b'1 0 obj' + data)
        call(c, n, 'parse_region', P.parse_region, data)
        call(c, n, 'parse_stream_content', P.parse_stream_content, data)
        call(c, n, 'text_string', P.text_string, b'(' + data + b')')
        call(c, n, 'text_string', P.text_string, b'<' + data + b'>')
        call(c, n, 'file_object_map', P.file_object_map, P.bdata_provider(data))
        call(c, n, 'file_object_map', P.file_object_map, P.bdata_provider(b'1 0 obj ' + data + b' endobj ' + data))
        call(c, n, 'parse_xref_table_raw', P.parse_xref_table_raw, b'xref\n' + data)
        call(c, n, 'parse_object_stream', lambda: P.parse_object_stream(P.Stream({'/First': r.randint(0, n + 1), '/N': r.choice([0, 1, 3, 10 ** 9])}, data, data), 4))
        call(c, n, 'parse_xref_stream_raw', lambda: P.parse_xref_stream_raw(P.Stream({'/W': [r.choice([0, 1, 2, 10 ** 9]) for _ in range(3)], '/Size': 10 ** 12,
                                                                                       '/Index': [0, 10 ** 12, 5, 10 ** 10]}, data, data)))
        flt = r.choice(['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode', ['/ASCII85Decode', '/FlateDecode'], '/Foo'])
        parms = {'/Predictor': r.choice([1, 2, 12, 15]), '/Columns': r.choice([1, 0, 10 ** 10, -5]), '/Colors': r.choice([1, 0, 10 ** 10, -5])}
        call(c, n, 'decode_stream', P.decode_stream, data, {'/Filter': flt, '/DecodeParms': parms})
        import zlib
        call(c, n, 'decode_stream', P.decode_stream, zlib.compress(data), {'/Filter': '/FlateDecode', '/DecodeParms': parms})

        def show():
            gs, ts = [], {}
            for cmd in P.parse_stream_content(data):
                P.apply_command(cmd, gs, ts)
        call(c, n, 'apply_command', show)
    c.feat('worst:' + c.worst_name)
    if c.worst >= 5:
        c.count(f'over_{c.worst // 5 * 5}_percent_of_limit')
    if not c.heavy:
        c.trivial()


DIRECTED = {}
