"""C16: text strings and metadata decode to the text that was encoded.

Monitor: texts are encoded by an independent encoder (PDFDocEncoding or UTF-16BE) and spelled at random (literal or hexadecimal); what text_string and the metadata
of whole documents return, at every revision and after every operation that keeps the document, is compared with the text."""
from ..lib import Name, Str, Ref, Stm, from_lib, to_lib, short, same
from .. import gen, docs, edits, textref
from . import c04

ID = 'C16'
QUICK, THOROUGH = 3000, 60000
SCALES, SCALED = gen.SCALES + ['text'], 12
RULE = ('random Unicode texts in both encodings and every spelling of strings; documents whose information dictionary has any subset of the standard entries, direct, '
        'referenced or null, in every layout and over several revisions; distinct: spellings; non-trivial: a text outside printable ASCII or an escape')
NEED = {'oracle_checks': 30000, 'strings': 15000, 'utf16': 4000, 'pdfdoc': 6000, 'hexadecimal': 2500, 'literal': 7000, 'escapes': 3000, 'metadata': 1500, 'entries_present': 1500,
        'entries_absent': 1000, 'referenced': 150, 'null_entries': 100, 'no_info': 80, 'revisions': 300, 'kept': 250, 'every_code': 1}
N = docs.N
KEYS = ['Title', 'Author', 'Subject', 'Keywords', 'Creator', 'Producer', 'CreationDate', 'ModDate']


LONG = [False]


def some_text(r):
    n = r.choice([500, 1000, 2047, 4096, 5001, 20000]) if LONG[0] and r.random() < .3 else None
    return textref.pdfdoc_text(r, n) if r.random() < .5 else textref.text(r, n)


def check_string(c, t, wild=2, utf16=None):
    r, L = c.r, c.L
    b = textref.encode(t, utf16)
    s = gen.s_str(r, b, wild)
    c.count('strings')
    c.count('utf16' if b[:2] == b'\xfe\xff' else 'pdfdoc')
    c.count('hexadecimal' if s[:1] == b'<' else 'literal')
    c.count('escapes', b'\\' in s)
    given = bytes(s)
    got = L.text_string(s)
    c.check(got == t and given == s, lambda: f'text_string({short(s)}) is {short(got)} instead of {short(t)}')
    return s


def info_dict(c, b):
    """A random information dictionary; returns (value, expected metadata)."""
    r = c.r
    d, want = {}, {}
    p = r.choice([.3, .7, 1])
    for k in KEYS:
        x = r.random()
        if x > p:
            if r.random() < .2:
                d[N(k)] = r.choice([None, Ref(b.alloc.next + 900, 0)])
                c.count('null_entries')
            want[k] = None
            c.count('entries_absent')
            continue
        if k.endswith('Date'):
            t = 'D:%04d%02d%02d%s' % (r.randint(1990, 2030), r.randint(1, 12), r.randint(1, 28), r.choice(['', '101112', "101112Z", "101112+02'00'", "101112-05'30'"]))
        else:
            t = some_text(r)
        v = textref.encode(t, r.random() < .2)
        want[k] = t or None
        c.count('entries_present')
        if r.random() < .2:
            v = b.new(v)
            c.count('referenced')
        d[N(k)] = v
    if r.random() < .3:
        d[N('Trapped')] = N('Unknown')
    return d, want


def check_meta(c, doc, want, where):
    L = c.L
    got = L.metadata(doc) if c.r.random() < .7 else L.do('doc.metadata', lambda: doc.metadata())
    c.count('metadata')
    c.check(set(got) == set(KEYS), f'{where}: metadata has the entries {sorted(got)}')
    for k in KEYS:
        c.check((got[k] or None) == want[k], lambda: f'{where}: {k} is {short(got[k])} instead of {short(want[k])}')


def case(c):
    r, L = c.r, c.L
    odd = False
    dig = []
    LONG[0] = bool(gen.large('text'))
    for _ in range(8):
        t = some_text(r)
        s = check_string(c, t, r.choice([0, 1, 2, 2]), r.random() < .3)
        dig.append(s)
        odd |= not t.isascii() or b'\\' in s
    if not odd:
        c.trivial()
    c.digest(repr(dig))
    c.sample(repr(dig[0]))
    if c.i % 3 if isinstance(c.i, int) else True:
        return
    wants = []

    def tweak(b):
        x = r.random()
        if x < .15:
            b.doc.trailer.pop(N('Info'), None)
            if r.random() < .4:
                b.doc.trailer[N('Info')] = Ref(b.alloc.next + 800, 0)
            want = dict.fromkeys(KEYS)
            c.count('no_info')
        else:
            d, want = info_dict(c, b)
            old = b.doc.trailer.get(N('Info'))
            if isinstance(old, Ref) and old.num in b.doc.objs and r.random() < .7:
                b.doc.objs[old.num] = (old.gen, d)
            else:
                b.doc.trailer[N('Info')] = b.new(d)
        b.doc.want = want
    f, b = gen.random_file(r, revs=r.choice([1, 1, 2, 3]), tweak=tweak, wild=2, mut=dict(kinds=['update', 'add', 'rotate']), build=dict(objects=2, pages=1))
    doc, fo = c04.open_any(c, f.data())
    desc = '/'.join(f.layouts)
    for ly in f.layouts:
        c.feat('layout:' + ly)
    check_meta(c, doc, f.states[-1].want, desc)
    d = doc
    for i in range(len(f.states) - 1, -1, -1):
        d = L.rewind(d)
        c.count('revisions')
        check_meta(c, d, f.states[i].want, f'{desc}: revision {i}')
        if not i:
            break
    for _ in range(2):
        doc, nm = edits.op(c, doc, ['squash', 'compress', 'annot', 'commit', 'append', 'version', 'addref'])
        desc += ' ' + nm
        c.count('kept')
        check_meta(c, doc, f.states[-1].want, desc)
    w = L.write(doc, c.path())[1]
    check_meta(c, L.loads(w), f.states[-1].want, desc + ' written and reopened')
    # the metadata follows edits of the entries
    ir = L.trailer(doc).get('/Info')
    if isinstance(ir, complex) and isinstance(L.get_object(doc, ir), dict):
        t = some_text(r)
        s = gen.s_str(r, textref.encode(t), 2)
        i = L.get_object(doc, ir)
        i['/Title'] = s
        d2 = L.update_object(doc, int(ir.imag), i)
        check_meta(c, d2, dict(f.states[-1].want, Title=t or None), desc + ' Title edited')
        check_meta(c, doc, f.states[-1].want, desc + ' (before the edit)')
    if fo:
        fo.close()


def d_codes(c):
    """Every code of PDFDocEncoding in every spelling; every UTF-16 boundary."""
    L = c.L
    for b, ch in textref.PDFDOC.items():
        for s in (b'(' + bytes([b]) + b')' if chr(b) not in '()\\\r' else b'(\\' + bytes([b]) + b')' if chr(b) != '\r' else b'(\\r)', b'(\\%03o)' % b, b'(\\%o)' % b, b'<%02x>' % b, b'<%02X>' % b, b'<%02X%02x>' % (b, b),
                  b'(\\%o)' % b if b > 63 else b'(\\%o\\%o)' % (b, b), b'(a\\%03o1)' % b):
            t = {b'<%02X%02x>' % (b, b): ch * 2, b'(\\%o\\%o)' % (b, b): ch * 2, b'(a\\%03o1)' % b: 'a' + ch + '1'}.get(s, ch)
            c.check(L.text_string(s) == t, f'text_string({s}) is {L.text_string(s)!r} instead of {t!r}')
    for cp in [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x28, 0x29, 0x5c, 0x0a, 0x0d, 0x2829, 0x5c5c, 0x280a, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x10ffff, 0x1f600]:
        for spelling in range(40):
            check_string(c, chr(cp) * (1 + spelling % 2), 2, True)
    for s, t in [(b'()', ''), (b'<>', ''), (b'<FEFF>', ''), (b'(\xfe\xff)', ''), (b'<4>', '@'), (b'<414>', 'A@'), (b'(a\\\nb)', 'ab'), (b'(a\\\r\nb)', 'ab'), (b'(a\\\rb)', 'ab'),
                 (b'(a\r\nb)', 'a\nb'), (b'(a\rb)', 'a\nb'), (b'(a\nb)', 'a\nb'), (b'(\\a)', 'a'), (b'(\\53)', '+'), (b'(\\0053)', '\x053'), (b'< FE fF\n00 4 1>', 'A'),
                 (b'(\\376\\377\\000A)', 'A'), (b'(\\376\\377\\0A)', 'A'), (b'(a(b)c)', 'a(b)c'), (b'(\\(\\))', '()'), (b'(\\\\)', '\\'), (b'(\\\\n)', '\\n'), (b'(\\\\053)', '\\053'),
                 (b'(\\n\\r\\t)', '\n\r\t'), (b'(\xfe\xff\x01\\b\x01\\f)', 'ĈČ')]:
        c.check(L.text_string(s) == t, f'text_string({s}) is {L.text_string(s)!r} instead of {t!r}')
    c.count('every_code')


def d_n(i):
    def f(c):
        c.r.seed(16000 + i)
        c.i = 3
        case(c)
    return f


DIRECTED = {'codes': d_codes, **{f'n{i}': d_n(i) for i in range(3)}}
