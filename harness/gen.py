"""Independent generator of PDF values, spellings, documents, histories and files. Shares no code with pdfsyntax."""
import re
import copy
import zlib
from .refpdf import Name, Str, Ref, Stm, WS, DELIM

N = lambda s: Name(s.encode('latin-1') if isinstance(s, str) else s)
REGULAR = [c for c in range(33, 127) if c not in DELIM]

# ---------------------------------------------------------------- values

NASTY = [b'', b'(', b')', b'()', b')(', b'\\', b'\\\\', b'>>', b'<<', b'[', b']', b'%', b'% x', b'endobj', b'endstream',
         b'stream\n', b'1 0 R', b'/Name', b'\r', b'\n', b'\r\n', b'\t\b\f', b'\x00', b'\xfe\xff\x00A', b'\x80\xff', b'obj',
         b'trailer', b'xref', b'startxref', b'%%EOF', b'\\(', b'a)b', b'(a', b'0123', b'\x007', b'}', b'{', b'\x1b\x7f']


def g_name(r, wild):
    if wild < 2 or r.random() < .5:
        s = bytes(r.choice(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789') for _ in range(r.randint(1, 7)))
        if r.random() < .1:
            s += bytes([r.choice(b"+-._'*:;!$&=@^~|?,\"`")])
        return Name(s)
    if r.random() < .1:
        return Name(b'')
    return Name(bytes(r.randint(1, 255) if r.random() < .3 else r.choice(REGULAR) for _ in range(r.randint(1, 6))))


def g_str(r, wild):
    x = r.random()
    if wild == 0 or x < .3:
        return Str(bytes(r.choice(b'abcdefghijklmnop ABCDEF 0123456789.,') for _ in range(r.randint(0, 12))))
    if x < .75:
        return Str(b''.join(r.choice(NASTY) for _ in range(r.randint(1, 3))))
    return Str(bytes(r.randrange(256) for _ in range(r.randint(0, 12))))


def g_num(r):
    x = r.random()
    if x < .45:
        return r.choice([0, 1, -1, 2, 7, 10, 100, 255, 256, 612, 792, r.randint(-1000, 1000)])
    if x < .55:
        return r.choice([2147483647, -2147483648, 65535, 4294967296, 10 ** 9, 123456789012])
    if x < .9:
        return round(r.uniform(-1000, 1000), r.randint(0, 5)) + 0.0
    if x < .94:
        return round(r.uniform(-2, 2), r.randint(6, 10)) + 0.0
    return r.choice([0.0, 0.5, -0.5, 0.001, -0.25, 1.0, 100.0, 0.00001, 123456.789, -0.1, 0.125])


def g_scalar(r, wild, nums):
    x = r.random()
    if x < .3:
        return g_num(r)
    if x < .5:
        return g_name(r, wild)
    if x < .75:
        return g_str(r, wild)
    if x < .83:
        return r.random() < .5
    if x < .88:
        return None
    if nums:
        n = r.choice(nums)
        return n if isinstance(n, Ref) else Ref(n, 0)
    return g_num(r)


def g_value(r, wild=1, depth=3, nums=(), budget=None):
    if budget is None:
        budget = [40]
    budget[0] -= 1
    x = r.random()
    if depth > 0 and budget[0] > 0 and x < .5:
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        if x < .25:
            return [g_value(r, wild, depth - 1, nums, budget) for _ in range(n)]
        d = {}
        for _ in range(n):
            v = g_value(r, wild, depth - 1, nums, budget)
            d[g_name(r, wild)] = v
        return d
    return g_scalar(r, wild, nums)


# ---------------------------------------------------------------- spelling

def s_ws(r, wild, need):
    """White space (and comments) between two tokens."""
    if wild == 0:
        return b' ' if need else (b' ' if r.random() < .5 else b'')
    x = r.random()
    if not need and x < .45:
        return b''
    if x < .8:
        return bytes([r.choice(b' \n\r\t')])
    if x < .93 or wild < 2:
        return bytes(r.choice(b' \n\r\t\x0c\x00') for _ in range(r.randint(1, 4)))
    c = r.choice([b'%', b'% c', b'%>>', b'%]', b'% (', b'%)', b'% <<', b'%[', b'%/N 1', b'% endobj', b'% 1 0 R', b'%\xe2\xe3', b'%%EOF', b'%startxref', b'% stream', b'%PDF\xe9\xe8'])
    return bytes(r.choice(b' \t') for _ in range(r.randint(0, 1))) + c + r.choice([b'\n', b'\r', b'\r\n'])


def fmt_float(v):
    s = f'{v:.10f}'.rstrip('0')
    if s.endswith('.'):
        s += '0'
    return s


def s_num(r, v, wild):
    if isinstance(v, float):
        s = fmt_float(v)
        if wild >= 2:
            neg = s.startswith('-')
            a = s.lstrip('-')
            x = r.random()
            if x < .2 and a.startswith('0.') and a != '0.0':
                a = a[1:]
            elif x < .35 and a.endswith('.0'):
                a = a[:-1]
            elif x < .5:
                a = a + '0'
            elif x < .6:
                a = '0' + a
            s = ('-' if neg else r.choice(['', '', '', '+'])) + a
        return s.encode()
    s = str(v)
    if wild >= 2 and r.random() < .15:
        if v >= 0:
            s = r.choice(['+', '0', '00', '+0']) + s
        else:
            s = '-0' + s[1:]
    return s.encode()


# Names are kept by the library in the spelling of the file: the names that carry structure are spelled without escapes.
STD = set(map(lambda x: Name(x.encode()), """ASCII85Decode ASCIIHexDecode Annot Annots AHx A85 BaseFont BitsPerComponent CCITTFaxDecode
Catalog Colors Columns Contents Count CreationDate Crypt CropBox DCTDecode DW DecodeParms DescendantFonts Encoding Encrypt Filter First
FirstChar FlateDecode Font FontDescriptor ID Index Info JBIG2Decode JPXDecode JS JavaScript Kids LZWDecode LastChar Length Linearized
MacRomanEncoding WinAnsiEncoding MediaBox ModDate N ObjStm Open P Page Pages Parent Predictor Prev Rect Resources Root Rotate
RunLengthDecode Size Subtype Text ToUnicode Type Type0 Type1 TrueType Type3 Version W Widths XRef XRefStm Title Author Subject Keywords
Creator Producer Extends Flags Name MMType1""".split()))


def s_name(r, n, wild):
    out = b'/'
    if n in STD or b'Encoding' in n or n[:2] == b'Vf' or re.match(rb'\d\.\d$|F\d+$', n):
        return b'/' + n
    for c in n:
        if c not in REGULAR or c == 0x23 or (wild >= 2 and r.random() < .04):
            out += (b'#%02x' if r.random() < .5 else b'#%02X') % c
        else:
            out += bytes([c])
    return out


ESC = {10: b'n', 13: b'r', 9: b't', 8: b'b', 12: b'f', 0x28: b'(', 0x29: b')', 0x5c: b'\\'}


def s_hex(r, b, wild):
    h = b.hex()
    if wild >= 1:
        x = r.random()
        if x < .4:
            h = h.upper()
        elif x < .6:
            h = ''.join(c.upper() if r.random() < .5 else c for c in h)
        if wild >= 2:
            if h.endswith('0') and r.random() < .3:
                h = h[:-1]
            if r.random() < .3:
                h = ''.join(c + (r.choice(' \n\r\t') if r.random() < .2 else '') for c in h)
    return b'<' + h.encode() + b'>'


def s_lit(r, b, wild):
    """Literal spelling; raw parentheses only where balanced."""
    ok = set()
    if wild >= 1 and r.random() < .7:
        st = []
        for i, c in enumerate(b):
            if c == 0x28:
                st.append(i)
            elif c == 0x29 and st:
                ok.add(i)
                ok.add(st.pop())
    out = bytearray(b'(')
    for i, c in enumerate(b):
        nxt = b[i + 1] if i + 1 < len(b) else None
        x = r.random()
        if c in b'()' and i in ok:
            out.append(c)
            continue
        if wild >= 1 and x < .05:
            if nxt is not None and chr(nxt).isdigit() or x < .02:
                out += b'\\%03o' % c
            else:
                out += b'\\%o' % (c + 256 if x > .045 else c)       # high-order overflow is ignored
            continue
        if c in b'()\\':
            out += b'\\' + bytes([c])
        elif c == 13:
            out += r.choice([b'\\r', b'\\015'])
        elif c == 10:
            ch = [b'\\n', b'\n', b'\\012']
            if wild >= 2:
                ch.append(b'\r\n')
                if nxt != 10:
                    ch.append(b'\r')
            out += r.choice(ch)
            if bytes(out).endswith(b'\r') and nxt == 10:
                out += b'\\\n'
        elif c in ESC and r.random() < .5:
            out += b'\\' + ESC[c]
        else:
            if wild >= 2 and r.random() < .02 and c not in b'01234567nrtbf()\\\r\n':
                out += b'\\'          # a backslash before any other character is ignored
            out.append(c)
        if wild >= 2 and r.random() < .03:
            if out[-1] != 13:
                out += r.choice([b'\\\n', b'\\\r\n']) if nxt == 10 else r.choice([b'\\\n', b'\\\r\n', b'\\\r'])
    # a raw CR must not swallow a following raw LF unless it was meant to
    out += b')'
    return bytes(out)


def s_str(r, b, wild):
    return s_hex(r, b, wild) if r.random() < (.25 if wild else .15) else s_lit(r, b, wild)


def tokens(r, v, wild, out):
    if v is None:
        out.append(b'null')
    elif v is True:
        out.append(b'true')
    elif v is False:
        out.append(b'false')
    elif isinstance(v, Ref):
        out.append(b'%d' % v.num)
        out.append(b'%d' % v.gen)
        out.append(b'R')
    elif isinstance(v, (int, float)):
        out.append(s_num(r, v, wild))
    elif isinstance(v, Name):
        out.append(s_name(r, v, wild))
    elif isinstance(v, Str):
        out.append(s_str(r, bytes(v), wild))
    elif isinstance(v, list):
        out.append(b'[')
        for x in v:
            tokens(r, x, wild, out)
        out.append(b']')
    elif isinstance(v, dict):
        out.append(b'<<')
        for k, x in v.items():
            out.append(s_name(r, k, wild))
            tokens(r, x, wild, out)
        out.append(b'>>')
    else:
        raise TypeError(repr(v))


def _reg(c):
    return c not in WS and c not in DELIM


def join(r, toks, wild):
    out = bytearray()
    prev = b''
    for t in toks:
        if prev:
            need = (_reg(prev[-1]) or prev == b'/') and _reg(t[0])
            out += s_ws(r, wild, need)
        out += t
        prev = t
    return bytes(out)


def spell(r, v, wild=1):
    t = []
    tokens(r, v, wild, t)
    return join(r, t, wild)


# ---------------------------------------------------------------- filters (encoders)

def e_hex(r, b):
    h = b.hex().encode()
    x = r.random()
    if x < .4:
        h = h.upper()
    if h.endswith(b'0') and r.random() < .2:
        h = h[:-1]
    if r.random() < .3:
        k = r.randint(1, 40)
        h = b'\n'.join(h[i:i + k] for i in range(0, len(h), k))
    return h + b'>'


def e_a85(r, b):
    out = bytearray()
    for i in range(0, len(b), 4):
        g = b[i:i + 4]
        k = len(g)
        v = int.from_bytes(g + bytes(4 - k), 'big')
        if k == 4 and v == 0:
            out += b'z'
            continue
        ds = []
        for _ in range(5):
            ds.append(v % 85 + 33)
            v //= 85
        out += bytes(reversed(ds))[:k + 1]
    if r.random() < .3:
        k = r.randint(1, 60)
        out = b'\n'.join(bytes(out[i:i + k]) for i in range(0, len(out), k))
    return bytes(out) + b'~>'


def e_flate(r, b):
    return zlib.compress(b, r.choice([0, 1, 6, 9]))


def e_png(r, b, parms, tag=None):
    """PNG predictor encoding of b (length must be a multiple of the row size)."""
    colors, bpc, cols = parms.get(N('Colors'), 1), parms.get(N('BitsPerComponent'), 8), parms.get(N('Columns'), 1)
    rl = (colors * bpc * cols + 7) // 8
    bpp = (colors * bpc + 7) // 8
    out = bytearray()
    prev = bytes(rl)
    for i in range(0, len(b), rl):
        row = b[i:i + rl]
        t = r.randint(0, 4) if tag is None else tag
        out.append(t)
        for j in range(len(row)):
            a = row[j - bpp] if j >= bpp else 0
            u = prev[j]
            c = prev[j - bpp] if j >= bpp else 0
            if t == 0:
                p = 0
            elif t == 1:
                p = a
            elif t == 2:
                p = u
            elif t == 3:
                p = (a + u) // 2
            else:
                q = a + u - c
                pa, pb, pc = abs(q - a), abs(q - u), abs(q - c)
                p = a if pa <= pb and pa <= pc else u if pb <= pc else c
            out.append((row[j] - p) & 255)
        prev = row + bytes(rl - len(row))
    return bytes(out)


def g_data(r, size=None):
    x = r.random()
    if size is None:
        size = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 20, 60, 200, 1000])
    if x < .35:
        return bytes(r.randrange(256) for _ in range(size))
    if x < .6:
        b = b''.join(r.choice(NASTY + [b'\nendstream\nendobj\n', b'q 1 0 0 1 0 0 cm Q ', b'>>\nstream\n', b'abc']) for _ in range(r.randint(0, 6)))
        return b
    if x < .7:
        return bytes(size)
    return (b'BT /F1 12 Tf (Hello) Tj ET\n' * (size // 20 + 1))[:size]


def encode_chain(r, plain, chain, parms=None):
    """chain in decoding order, e.g. ['ASCII85Decode','FlateDecode'] -> data encoded last-to-first."""
    b = plain
    parms = parms or [None] * len(chain)
    for f, p in reversed(list(zip(chain, parms))):
        if f == 'FlateDecode':
            if p and p.get(N('Predictor'), 1) >= 10:
                b = e_png(r, b, p)
            b = e_flate(r, b)
        elif f == 'ASCIIHexDecode':
            b = e_hex(r, b)
        elif f == 'ASCII85Decode':
            b = e_a85(r, b)
        else:
            b = b[::-1]              # stands for a codec nobody here decodes
    return b


SUP = ['FlateDecode', 'ASCIIHexDecode', 'ASCII85Decode']
UNSUP = ['DCTDecode', 'LZWDecode', 'RunLengthDecode', 'CCITTFaxDecode', 'JPXDecode', 'JBIG2Decode']


def g_stream(r, extra=None, plain=None, unsup=.1, chains=True):
    """A Stm with random content and filter chain."""
    given = plain is not None
    if plain is None:
        plain = g_data(r)
    d = dict(extra or {})
    x = r.random()
    chain, parms = [], None
    if x < .35:
        pass
    elif x < .35 + unsup:
        chain = [r.choice(UNSUP)]
        if r.random() < .3:
            chain = [r.choice(SUP)] + chain
    elif x < .75 or not chains:
        chain = [r.choice(SUP)]
    else:
        chain = [r.choice(SUP) for _ in range(r.randint(2, 3))]
    if chain == ['FlateDecode'] and r.random() < .25:
        p = {N('Predictor'): r.choice([1, 10, 11, 12, 13, 14, 15]), N('Columns'): r.randint(1, 9)}
        if r.random() < .3:
            p[N('Colors')] = r.choice([1, 3, 4])
        if r.random() < .2:
            p[N('BitsPerComponent')] = 8
        rl = p[N('Columns')] * p.get(N('Colors'), 1)
        if given and len(plain) % rl:
            p[N('Columns')], rl = 1, 1
            p.pop(N('Colors'), None)
        plain = plain[:len(plain) // rl * rl]
        parms = [p]
    raw = encode_chain(r, plain, chain, parms)
    if parms:
        parms = [null_parms(r, p) for p in parms]
    elif chain == ['FlateDecode'] and r.random() < .03:
        parms = [null_parms(r, {}, 1)]
    if chain:
        if len(chain) == 1 and r.random() < .6:
            d[N('Filter')] = N(chain[0])
            if parms:
                d[N('DecodeParms')] = parms[0]
        else:
            d[N('Filter')] = [N(c) for c in chain]
            if parms:
                d[N('DecodeParms')] = list(parms)
    elif r.random() < .1:
        d[N('Filter')] = []
    if any(c in UNSUP for c in chain):
        plain = None
    return Stm(d, raw, plain)


def null_parms(r, p, prob=.1):
    """Decode parameters with null entries, the same as absent ones."""
    if r.random() < prob:
        p = dict(p)
        for k in ('Predictor', 'Colors', 'BitsPerComponent', 'Columns', 'EarlyChange'):
            if N(k) not in p and r.random() < .5:
                p[N(k)] = None
    return p


# ---------------------------------------------------------------- documents

class Doc:
    """A document state: objs {num: (gen, value)}, trailer entries. `freed` {num: next generation}."""

    def __init__(self):
        self.objs = {}
        self.trailer = {}
        self.freed = {}

    def clone(self):
        return copy.deepcopy(self)

    def val(self, num):
        return self.objs[num][1]

    def ref(self, num):
        return Ref(num, self.objs[num][0])

    def deref(self, v, n=0):
        while isinstance(v, Ref) and n < 30:
            e = self.objs.get(v.num)
            v = e[1] if e else None
            n += 1
        return v

    INH = (N('Resources'), N('MediaBox'), N('CropBox'), N('Rotate'))

    def pages(self):
        """[(num, effective dict)] in order."""
        out = []
        cat = self.deref(self.trailer[N('Root')])
        self._walk(cat[N('Pages')].num, {}, out)
        return out

    def _walk(self, num, inh, out):
        node = self.val(num)
        inh = dict(inh)
        for k in self.INH:
            if self.deref(node.get(k)) is not None:
                inh[k] = node[k]
        if node[N('Type')] == b'Page':
            d = dict(node)
            d.update(inh)
            out.append((num, d))
        else:
            for k in self.deref(node[N('Kids')]):
                self._walk(k.num, inh, out)

    def tree_nodes(self):
        out = []

        def rec(n):
            out.append(n)
            for k in self.deref(self.val(n).get(N('Kids'), [])):
                if self.val(k.num)[N('Type')] == b'Pages':
                    rec(k.num)
        rec(self.deref(self.trailer[N('Root')])[N('Pages')].num)
        return out


class Alloc:
    def __init__(self, r, sparse=0.0, start=1):
        self.r, self.sparse, self.next = r, sparse, start

    def __call__(self):
        while self.sparse and self.r.random() < self.sparse:
            self.next += self.r.choice([1, 1, 2, 5])
        n = self.next
        self.next += 1
        return n


class Build:
    """Builds a random document. Options (all have defaults) restrict the features used."""

    DEFAULT = dict(pages=None, wild=1, extras=True, info=None, fonts=True, annots=True, links=True, indirect_kids=None,
                   gens=False, sparse=0.0, unsup=.1, chains=True, barerefs=True, tree=True, inherit=True, names=True, forms=True,
                   objects=None, contents=True, outlines=True, dangling=True, version_override=False, deep=0, bulk=None, ifilter=.04, nulls=.08)

    def __init__(self, r, **opt):
        self.r = r
        self.o = dict(self.DEFAULT)
        for k in opt:
            assert k in self.o, k
        self.o.update(opt)
        if self.o['indirect_kids'] is None:
            self.o['indirect_kids'] = r.random() < .12
        self.counts = {}
        self.nulls = r.random() < self.o['nulls']
        self.alloc = Alloc(r, self.o['sparse'])
        self.doc = Doc()
        self.uid = r.randrange(1000, 9000) * 1000
        self.build()

    def u(self):
        self.uid += 1
        return self.uid

    def new(self, value, gen=None):
        n = self.alloc()
        if gen is None:
            gen = self.r.choice([0, 0, 0, 1, 2, 7]) if self.o['gens'] and not isinstance(value, Stm) else 0
        self.doc.objs[n] = (gen, value)
        return Ref(n, gen)

    def set(self, ref, value):
        self.doc.objs[ref.num] = (ref.gen, value)

    def build(self):
        r, o = self.r, self.o
        cat = self.new({N('Type'): N('Catalog')})
        self.doc.trailer[N('Root')] = cat
        self.cat = cat
        self.fontrefs = []
        if o['fonts']:
            for i in range(r.randint(1, 3)):
                f = {N('Type'): N('Font'), N('Subtype'): N('Type1'), N('BaseFont'): N(r.choice(['Helvetica', 'Courier', 'Times-Roman']) + str(self.u())),
                     N('Encoding'): N('WinAnsiEncoding')}
                if r.random() < .4:
                    f[N('FirstChar')] = 32
                    f[N('LastChar')] = 126
                    w = [r.choice([250, 400, 500, 600]) for _ in range(95)]
                    f[N('Widths')] = self.new(w) if r.random() < .5 else w
                self.fontrefs.append(self.new(f))
        self.shared = []
        if o['forms']:
            for i in range(r.randint(0, 2)):
                self.shared.append(self.new(g_stream(r, {N('Type'): N('XObject'), N('Subtype'): N('Form'), N('BBox'): [0, 0, 10, 10], N('VfId'): self.u()}, unsup=o['unsup'], chains=o['chains'])))
        npages = o['pages'] if o['pages'] is not None else r.choice([1, 1, 2, 3, 4, 5, 7])
        self.pagerefs = []
        self.left = npages
        root = self.new({})
        self.doc.objs[cat.num][1][N('Pages')] = root
        self.node(root, None, npages, 0, {}, True)
        if o['links']:
            self.links()
        if o['extras']:
            self.extras()
        inf = o['info'] if o['info'] is not None else r.random() < .6
        if inf:
            d = {}
            for k in ['Title', 'Author', 'Subject', 'Keywords', 'Creator', 'Producer']:
                if r.random() < .6:
                    v = Str(b'T%d ' % self.u() + bytes(g_str(r, 0)))
                    d[N(k)] = self.new(v) if r.random() < .15 else v
            if r.random() < .5:
                d[N('CreationDate')] = Str(b'D:20240102030405Z')
            self.doc.trailer[N('Info')] = self.new(d)
        if r.random() < .5:
            self.doc.trailer[N('ID')] = [Str(bytes(r.randrange(256) for _ in range(16))) for _ in range(2)]
        self.add_nulls(self.doc.trailer, 'Info', 'ID', 'Encrypt', 'Prev', 'XRefStm')
        self.add_nulls(self.doc.objs[cat.num][1], 'Version', 'Outlines', 'Lang')
        if r.random() < .15:                               # entries of second class
            for k in r.sample(['VfA', 'VfB', 'Vftrailer', 'VfDoc'], r.randint(1, 2)):
                x = r.random()
                self.doc.trailer[N(k)] = (r.choice([cat, root, self.pagerefs[0] if self.pagerefs else root]) if x < .2
                                          else Str(b' '.join(r.choice(NASTY) for _ in range(r.randint(1, 4)))) if x < .7
                                          else g_value(r, 1, 1))

    def resources(self):
        r = self.r
        d = {}
        if self.fontrefs:
            d[N('Font')] = {N('F%d' % i): f for i, f in enumerate(r.sample(self.fontrefs, r.randint(1, len(self.fontrefs))), 1)}
            if r.random() < .15:
                d[N('Font')] = self.new(d[N('Font')])
        if self.shared and r.random() < .6:
            d[N('XObject')] = {N('X1'): r.choice(self.shared)}
        if r.random() < .3:
            d[N('ProcSet')] = [N('PDF'), N('Text')]
        return self.new(d) if r.random() < .3 else d

    def content(self, uid):
        r = self.r
        txt = b'BT /F1 12 Tf 1 0 0 1 %d %d Tm (P%d) Tj ET' % (r.randint(10, 300), r.randint(10, 700), uid)
        return self.new(self.stm(g_stream(r, {}, plain=txt, unsup=0, chains=self.o['chains'])))

    def stm(self, v):
        """The stream, its filters or parameters maybe null or given through references."""
        r = self.r
        d, f, p = v.d, N('Filter'), N('DecodeParms')
        if self.nulls and r.random() < .5:
            for k in (f, p):
                if k not in d and r.random() < .7:
                    d[k] = None
        if d.get(f) is not None and r.random() < self.o['ifilter']:
            x = r.random()
            if x < .3 and isinstance(d[f], list):
                d[f] = [self.new(e) if r.random() < .6 else e for e in d[f]]
            elif x < .8 or d.get(p) is None:
                d[f] = self.new(d[f])
            if d.get(p) is not None:
                if isinstance(d[p], dict) and r.random() < .4:
                    d[p] = {k: self.new(e) if r.random() < .5 else e for k, e in d[p].items()}
                elif isinstance(d[p], list) and r.random() < .6:
                    d[p] = [{k: self.new(z) if r.random() < .5 else z for k, z in e.items()} if isinstance(e, dict) and r.random() < .6 else e for e in d[p]]
                    d[p] = [self.new(e) if e and r.random() < .6 else e for e in d[p]]
                else:
                    d[p] = self.new(d[p])
        return v

    def add_nulls(self, d, *keys):
        if self.nulls:
            for k in keys:
                if N(k) not in d and self.r.random() < .4:
                    d[N(k)] = None

    def inh_attrs(self, d, p):
        r = self.r
        if r.random() < p:
            d[N('Rotate')] = r.choice([0, 90, 180, 270])
        if r.random() < p:
            d[N('CropBox')] = [0, 0, r.randint(100, 500), r.randint(100, 500)]
        if r.random() < p:
            d[N('MediaBox')] = [0, 0, r.randint(100, 900), r.randint(100, 900)]
        if r.random() < p:
            d[N('Resources')] = self.resources()

    def node(self, ref, parent, n, depth, inh, top=False):
        r, o = self.r, self.o
        d = {N('Type'): N('Pages'), N('VfId'): self.u()}
        if parent:
            d[N('Parent')] = parent
        else:
            self.add_nulls(d, 'Parent')
        if o['inherit']:
            self.inh_attrs(d, .35)
        have = set(inh) | set(d)
        kids = []
        left = n
        while left > 0:
            if o['tree'] and (depth < 4 and r.random() < .35 or depth < o['deep'] and r.random() < .8):
                k = r.randint(0 if r.random() < .1 else 1, left)
                c = self.new({})
                self.node(c, ref, k, depth + 1, have)
                kids.append(c)
                left -= k
            else:
                kids.append(self.page(ref, have))
                left -= 1
        d[N('Kids')] = self.new(kids) if o['indirect_kids'] and r.random() < .3 else kids
        d[N('Count')] = self.count(n) if o['indirect_kids'] and r.random() < .2 else n
        items = list(d.items())
        r.shuffle(items)
        self.set(ref, dict(items))

    def count(self, n):
        """A count held by an object of its own, maybe that of several nodes."""
        if n not in self.counts or self.r.random() < .5:
            self.counts[n] = self.new(n)
        return self.counts[n]

    def page(self, parent, have):
        r, o = self.r, self.o
        uid = self.u()
        d = {N('Type'): N('Page'), N('Parent'): parent, N('VfPage'): uid}
        ref = self.new(d)
        if o['inherit']:
            self.inh_attrs(d, .3)
        if N('MediaBox') not in d and N('MediaBox') not in have:
            d[N('MediaBox')] = [0, 0, r.choice([595, 612, 300]), r.choice([842, 792, 300])]
        if N('Resources') not in d and N('Resources') not in have:
            d[N('Resources')] = self.resources()
        if o['contents']:
            x = r.random()
            if x < .6:
                d[N('Contents')] = self.content(uid)
            elif x < .8:
                d[N('Contents')] = [self.content(uid), self.content(uid)]
            else:
                d[N('Contents')] = self.new([self.content(uid)])
        if o['annots'] and r.random() < .4:
            a = []
            for _ in range(r.randint(0, 2)):
                an = {N('Type'): N('Annot'), N('Subtype'): N('Text'), N('Rect'): [1, 2, 3, self.u()], N('Contents'): Str(b'note %d' % self.u())}
                if r.random() < .4:
                    an[N('P')] = ref
                a.append(self.new(an))
            d[N('Annots')] = self.new(a) if r.random() < .5 else a
        self.add_nulls(d, 'Annots', 'Contents', 'Rotate', 'CropBox')
        self.pagerefs.append(ref)
        return ref

    def links(self):
        r = self.r
        for p in self.pagerefs:
            if r.random() < .25:
                t = r.choice(self.pagerefs)
                an = {N('Type'): N('Annot'), N('Subtype'): N('Link'), N('Rect'): [0, 0, 5, self.u()], N('Dest'): [t, N('Fit')]}
                d = self.doc.objs[p.num][1]
                ar = self.doc.deref(d.get(N('Annots')))
                if ar is None:
                    ar = d[N('Annots')] = []
                ar.append(self.new(an))
        if self.o['outlines'] and r.random() < .3:
            t = r.choice(self.pagerefs) if self.pagerefs else None
            o = self.new({})
            it = self.new({N('Title'): Str(b'Out %d' % self.u()), N('Parent'): o, N('Dest'): [t, N('Fit')]})
            self.set(o, {N('Type'): N('Outlines'), N('First'): it, N('Last'): it, N('Count'): 1})
            self.doc.objs[self.cat.num][1][N('Outlines')] = o

    def extras(self):
        r, o = self.r, self.o
        n = o['objects'] if o['objects'] is not None else r.choice([0, 1, 2, 3, 5, 8])
        refs = []
        for _ in range(n):
            known = refs + list(self.pagerefs) + [self.cat]
            if o['dangling'] and r.random() < .1:
                known = known + [Ref(self.alloc.next + 50, 0)]
            x = r.random()
            if x < .25:
                ex = {N('VfId'): self.u()}
                if r.random() < .5:
                    ex[N('VfX')] = g_value(r, o['wild'], 2, known)
                v = self.stm(g_stream(r, ex, unsup=o['unsup'], chains=o['chains']))
            elif x < .5:
                v = {N('VfId'): self.u(), N('VfV'): g_value(r, o['wild'], 3, known)}
            elif x < .7:
                v = [self.u(), g_value(r, o['wild'], 3, known)]
            elif x < .73 and refs and o['barerefs']:
                v = r.choice(refs)                         # an object that is a reference to another one
            else:
                v = g_scalar(r, o['wild'], ())
                if v is None:
                    v = self.u()
            if isinstance(v, dict) and r.random() < .1 and known:
                v[N('P')] = r.choice(known)
            if isinstance(v, (dict, Stm)) and r.random() < .06:
                (v if isinstance(v, dict) else v.d)[N('JS')] = r.choice([Str(b'app.alert(1)'), r.choice(known), self.new(self.stm(g_stream(r, {}, plain=b'x', unsup=0)))])
            refs.append(self.new(v))
        if o['bulk']:
            refs += [self.new(v) for v in bulk(r, o['bulk'], self)]
        if refs:
            holder = self.new({N('VfHolder'): list(refs)})
            if len(refs) > 1 and r.random() < .4:   # a cycle among ordinary objects
                a = refs[0]
                va = self.doc.objs[a.num][1]
                if isinstance(va, dict):
                    va[N('VfBack')] = holder
            self.doc.objs[self.cat.num][1][N('VfExtra')] = holder
        self.extra_refs = refs


def mutate(r, b, n=None, pages=True, resurrect=True, kinds=None):
    """Apply n random edits to b.doc (a Build); returns list of (kind, num)."""
    doc = b.doc
    log = []
    protected = {b.cat.num}
    for _ in range(n or r.randint(1, 4)):
        kind = r.choice(kinds or ['update', 'update', 'add', 'delete', 'rotate', 'addpage', 'delpage', 'reuse', 'info'])
        if kind == 'update':
            c = [k for k, (g, v) in doc.objs.items() if isinstance(v, dict) and (N('VfId') in v and v.get(N('Type')) != b'Pages' or N('VfHolder') in v)
                 or isinstance(v, Stm) and N('VfId') in v.d]
            c = [k for k in c if k not in protected]
            if not c:
                continue
            k = r.choice(sorted(c))
            g, v = doc.objs[k]
            if isinstance(v, Stm):
                if v.d.get(N('Type')) == b'XObject':
                    nv = g_stream(r, {N('Type'): N('XObject'), N('Subtype'): N('Form'), N('BBox'): [0, 0, 10, 10], N('VfId'): b.u()}, unsup=0, chains=b.o['chains'])
                else:
                    nv = g_stream(r, {N('VfId'): b.u()}, unsup=b.o['unsup'], chains=b.o['chains'])
            elif N('VfHolder') in v:
                nv = dict(v)
                nv[N('VfStamp')] = b.u()
            else:
                nv = {N('VfId'): b.u(), N('VfV'): g_value(r, b.o['wild'], 2)}
            doc.objs[k] = (g, nv)
            log.append((kind, k))
        elif kind == 'add':
            ref = b.new({N('VfId'): b.u(), N('VfV'): g_value(r, b.o['wild'], 2)} if r.random() < .7 else g_stream(r, {N('VfId'): b.u()}, chains=b.o['chains'], unsup=b.o['unsup']))
            g, cat = doc.objs[b.cat.num]
            cat = dict(cat)
            cat[N('VfA%d' % ref.num)] = ref
            doc.objs[b.cat.num] = (g, cat)
            log.append((kind, ref.num))
        elif kind == 'delete':
            c = [x.num for x in getattr(b, 'extra_refs', []) if x.num in doc.objs]
            if not c:
                continue
            k = r.choice(sorted(c))
            g, _ = doc.objs.pop(k)
            doc.freed[k] = g + 1
            log.append((kind, k))
        elif kind == 'reuse' and resurrect and b.o['gens']:
            c = [k for k in doc.freed if doc.freed[k] < 65535]
            if not c:
                continue
            k = r.choice(sorted(c))
            g = doc.freed.pop(k)
            doc.objs[k] = (g, {N('VfId'): b.u()})
            log.append((kind, k))
        elif kind == 'rotate' and pages:
            ps = doc.pages()
            if not ps:
                continue
            k = r.choice(ps)[0]
            g, v = doc.objs[k]
            v = dict(v)
            v[N('Rotate')] = r.choice([0, 90, 180, 270])
            doc.objs[k] = (g, v)
            log.append((kind, k))
        elif kind == 'addpage' and pages:
            ns = doc.tree_nodes()
            k = r.choice(ns)
            ref = b.page(doc.ref(k), set())
            g, v = doc.objs[k]
            v = dict(v)
            kids = list(doc.deref(v[N('Kids')]))
            kids.insert(r.randint(0, len(kids)), ref)
            if isinstance(v[N('Kids')], Ref):
                kr = v[N('Kids')]
                doc.objs[kr.num] = (kr.gen, kids)
            else:
                v[N('Kids')] = kids
            doc.objs[k] = (g, v)
            bump(doc, k, 1)
            log.append((kind, ref.num))
        elif kind == 'delpage' and pages:
            ps = doc.pages()
            if len(ps) < 2:
                continue
            k = r.choice(ps)[0]
            g, pv = doc.objs[k]
            par = pv[N('Parent')].num
            pg, v = doc.objs[par]
            v = dict(v)
            kids = [x for x in doc.deref(v[N('Kids')]) if x.num != k]
            if isinstance(v[N('Kids')], Ref):
                kr = v[N('Kids')]
                doc.objs[kr.num] = (kr.gen, kids)
            else:
                v[N('Kids')] = kids
            doc.objs[par] = (pg, v)
            bump(doc, par, -1)
            if r.random() < .5:
                doc.objs.pop(k)
                doc.freed[k] = g + 1
            b.pagerefs = [x for x in b.pagerefs if x.num != k]
            log.append((kind, k))
        elif kind == 'info' and doc.trailer.get(N('Info')) is not None:
            k = doc.trailer[N('Info')].num
            g, v = doc.objs[k]
            v = dict(v)
            v[N('Title')] = Str(b'New title %d' % b.u())
            doc.objs[k] = (g, v)
            log.append((kind, k))
    return log


def bump(doc, k, delta):
    while True:
        g, v = doc.objs[k]
        v = dict(v)
        v[N('Count')] = doc.deref(v[N('Count')]) + delta
        doc.objs[k] = (g, v)
        if v.get(N('Parent')) is None:
            return
        k = v[N('Parent')].num


# ---------------------------------------------------------------- files

LAYOUTS = ['table', 'stream', 'objstm', 'hybrid']


class File:
    """Writes a history of document states, one section (revision) at a time."""

    def __init__(self, r, wild=0, version=None, eol=None, junk=.15, xeol=None):
        self.r, self.wild = r, wild
        self.eol = eol or r.choice([b'\n', b'\n', b'\r\n', b'\r'])
        self.version = version or r.choice([b'1.4', b'1.5', b'1.6', b'1.7', b'1.7', b'2.0'])
        self.out = bytearray()
        self.regions = []         # (kind, start, end, info)
        self.trailers = {}        # position of a table -> its trailer
        self.ends = []            # offset after the end marker (and its EOL) of each revision
        self.states = []          # Doc per revision
        self.layouts = []
        self.prev = None
        self.written = {}         # num -> (gen, value) as of the last section
        self.free = {}            # num -> gen
        self.containers = {}      # container numbers (objstm, xref streams, indirect lengths) in use: num -> kind
        self.junk = junk
        self.entries = {}         # current merged index: num -> ('n', off, gen) / ('c', env, idx) / ('f', ...)
        self.history = []         # index as of each revision
        self.xeol = xeol
        self.header()

    def put(self, b):
        p = len(self.out)
        self.out += b
        return p

    def comment(self, c):
        p = self.put(c)
        self.regions.append(('COMMENT', p, len(self.out), bytes(c)))
        self.put(self.eol)

    def header(self):
        self.comment(b'%PDF-' + self.version)
        if self.r.random() < .6:
            self.comment(b'%\xe2\xe3\xcf\xd3')
        if self.r.random() < self.long_header:
            self.comment(b'% ' + b'made by a long producer ' * self.r.choice([2, 5, 11, 30]))

    long_header = .06         # how often a long comment follows the header
    stray = None              # fn(File): may write something no section indexes
    tweak_ent = None          # fn(File, ent): may change the entries of a section before it is written
    relist = .12              # how often an update lists unchanged objects again

    def maybe_junk(self):
        r = self.r
        if self.stray:
            self.stray(self)
        if r.random() < self.junk:
            if r.random() < .5:
                self.put(bytes(r.choice(b' \n\r\t') for _ in range(r.randint(1, 3))))
                if self.out[-1] not in b'\r\n':
                    self.put(self.eol)
            else:
                self.comment(r.choice([b'% a comment', b'%', b'%% 1 0 obj', b'% <b>&amp;', b'%\xff\xfe', b'% endobj', b'%(', b'%comment longer than ten characters', b'%PDF-1', b'%PDF\xe9\xe8\xe9\xea\xeb', b'%%EOF', b'%%EOFs', b'%%E\xd4F',
                                       b'% trailer', b'% startxref 12', b'%\t\x0b\x7f ']))

    def write_obj(self, num, gen, v, length=None):
        r, w = self.r, self.wild
        ws = lambda: s_ws(r, min(w, 1), True) if w else b' '
        p = self.put(b'%d' % num + ws() + b'%d' % gen + ws() + b'obj')
        self.put(self.eol if w == 0 or r.random() < .7 else s_ws(r, w, True))
        if isinstance(v, Stm):
            d = dict(v.d)
            d[N('Length')] = length if length is not None else len(v.raw)
            if w:
                items = list(d.items())
                r.shuffle(items)
                d = dict(items)
            self.put(spell(r, d, w))
            self.put(self.eol if w == 0 or r.random() < .6 else s_ws(r, min(w, 1), False))
            self.put(b'stream')
            self.put(r.choice([b'\n', b'\r\n']))
            self.put(v.raw)
            self.put(r.choice([b'\n', b'\n', b'\r\n']) if not self.bare_endstream or r.random() < .8 else r.choice([b'\r', b'']))
            self.put(b'endstream')
            self.put(self.eol)
        else:
            s = spell(r, v, w)
            self.put(s)
            self.put(self.eol if w == 0 or r.random() < .8 or _reg(s[-1]) or s.endswith(b'/') else b'')
        self.put(b'endobj')
        if isinstance(length, Ref):
            v = Stm({**v.d, N('Length'): length}, v.raw, v.plain)
        self.regions.append(('IND_OBJ', p, len(self.out), (num, gen, v)))
        self.put(self.eol)
        return p

    bare_endstream = True
    indirect_length = .15
    predictor = .4

    def revision(self, doc, alloc, layout='table', close=True):
        """Append one revision that turns the previous state into doc."""
        r = self.r
        first = not self.states
        doc = doc.clone()
        changed = {}
        freed = {}
        for n, (g, v) in doc.objs.items():
            old = self.written.get(n)
            if old is None or old[0] != g or not _eq(old[1], v):
                changed[n] = (g, v)
        for n in self.written:
            if n not in doc.objs:
                freed[n] = doc.freed.get(n, self.written[n][0] + 1)
        order = sorted(changed)
        if r.random() < .5:
            r.shuffle(order)
        ent = {}
        trailer = dict(doc.trailer)
        # indirect lengths
        lens = {}
        if self.indirect_length:
            for n in list(order):
                v = changed[n][1]
                if isinstance(v, Stm) and r.random() < self.indirect_length and safe_raw(v.raw):
                    ln = alloc()
                    lens[n] = Ref(ln, 0)
                    changed[ln] = (0, len(v.raw))
                    order.append(ln)
                    self.containers[ln] = 'length'
        # object streams
        packed = []
        if layout in ('objstm', 'hybrid', 'linobjstm'):
            cand = [n for n in order if changed[n][0] == 0 and not isinstance(changed[n][1], (Stm, Ref)) and (layout != 'hybrid' or n != doc.trailer[N('Root')].num)]
            if layout == 'hybrid' and first:
                keep = self._visible(doc)
                cand = [n for n in cand if n not in keep]
            if r.random() < .3:
                cand = [n for n in cand if r.random() < .6]
            while cand:
                k = r.randint(1, max(1, len(cand)))
                packed.append(cand[:k])
                cand = cand[k:]
        inobj = {n for g in packed for n in g}
        envs = [(alloc(), g) for g in packed]
        plan = [('o', n) for n in order if n not in inobj] + [('e', e, g) for e, g in envs]
        if r.random() < .4:
            r.shuffle(plan)
        for it in plan:
            self.maybe_junk()
            if it[0] == 'o':
                n = it[1]
                g, v = changed[n]
                ent[n] = ('n', self.write_obj(n, g, v, lens.get(n)), g)
            else:
                _, e, grp = it
                stm = self.objstm([(n, changed[n][1]) for n in grp])
                ent[e] = ('n', self.write_obj(e, 0, stm), 0)
                self.containers[e] = 'objstm'
                for i, n in enumerate(grp):
                    ent[n] = ('c', e, i)
        self.maybe_junk()
        free = dict(self.free)
        for n, g in freed.items():
            free[n] = g
        for n in changed:
            free.pop(n, None)
        kind = 'table' if layout in ('table', 'hybrid') else 'stream'
        if first:
            top = alloc.next - 1
            for n in range(1, top + 1):
                if n not in ent and n not in free and (kind == 'table' or r.random() < .5):
                    free[n] = r.choice([0, 0, 65535]) if n not in doc.freed else doc.freed[n]
        # free list: every known free number, chained (numbers with generation 65535 stay out of the chain)
        fl = {}
        chain = [n for n in sorted(free) if free[n] != 65535]
        need = set(freed) | (set(free) if first else set())
        prev_free = self.free
        if first or need or set(free) != set(prev_free):
            nums = [0] + chain
            for i, n in enumerate(nums):
                nx = nums[i + 1] if i + 1 < len(nums) else 0
                fl[n] = (nx, 65535 if n == 0 else free[n])
            for n in free:
                if free[n] == 65535:
                    fl[n] = (0, 65535)
        elif kind == 'table' and r.random() < .7 or kind == 'stream':
            nx = chain[0] if chain else 0
            fl[0] = (nx, 65535)
        if not ent and not fl:
            fl[0] = (chain[0] if chain else 0, 65535)
        for n, (nx, g) in fl.items():
            ent[n] = ('f', nx, g)
        self.free = free
        if not first and r.random() < self.relist:     # unchanged objects may be listed again
            old = [n for n, e in self.entries.items() if n and n not in ent and (e[0] == 'n' or e[0] == 'c' and layout not in ('table',))]
            for n in r.sample(old, r.randint(0, len(old))) if r.random() < .7 else old:
                ent[n] = self.entries[n]
        if self.tweak_ent:
            self.tweak_ent(self, ent)
        trailer[N('Size')] = alloc.next
        if self.prev is not None:
            trailer[N('Prev')] = self.prev
        if kind == 'table':
            if layout == 'hybrid':
                hid = {n: e for n, e in ent.items() if e[0] == 'c'}
                vis = {n: e for n, e in ent.items() if e[0] != 'c'}
                xn = alloc()
                trailer[N('Size')] = alloc.next
                self.containers[xn] = 'xref'
                p = len(self.out)
                hid[xn] = ('n', p, 0)
                d = {N('Size'): alloc.next}
                pos = self.xref_stream(xn, hid, d, p)
                vis[xn] = ('n', p, 0)
                trailer[N('XRefStm')] = pos
                for n in hid:
                    if n != xn and (first or r.random() < .5):
                        vis[n] = ('f', 0, 65535)
                if first:
                    for n in range(alloc.next):
                        if n not in vis:
                            vis[n] = ('f', 0, 65535)
                start = self.xref_table(vis, trailer)
                ent = {**ent, xn: vis[xn]}
            else:
                start = self.xref_table(ent, trailer)
        else:
            xn = alloc()
            trailer[N('Size')] = alloc.next
            self.containers[xn] = 'xref'
            start = len(self.out)
            ent[xn] = ('n', start, 0)
            self.xref_stream(xn, ent, trailer, start)
        self.entries.update(ent)
        self.history.append(dict(self.entries))
        self.prev = start
        self.written = dict(doc.objs)
        self.states.append(doc)
        self.layouts.append(layout)
        if close:
            self.close(start)
        return start

    def _visible(self, doc):
        return {doc.trailer[N('Root')].num} | {n for n, (g, v) in doc.objs.items() if isinstance(v, dict) and v.get(N('Type')) in (b'Pages', b'Page')}

    def close(self, start, last=True):
        sp = self.r.choice([b'', b'', b'', b'', b' '])
        p = self.put(b'startxref' + sp + self.eol)
        q = self.put(sp + b'%d' % start)
        self.regions.append(('STARTXREF', p, len(self.out), start))
        self.put(sp + self.eol)
        p = self.put(b'%%EOF')
        self.regions.append(('COMMENT', p, len(self.out), b'%%EOF'))
        self.put(self.eol)
        if self.wild and self.r.random() < .05:
            self.put(self.eol * self.r.randint(1, 60 // len(self.eol)))
        if last:
            self.ends.append(len(self.out))

    def objstm(self, items):
        r, w = self.r, self.wild
        body = bytearray()
        offs = []
        for n, v in items:
            offs += [n, len(body)]
            body += spell(r, v, w)
            body += r.choice([b' ', b'\n', b'\r\n', b'  ', b' %c\n' if w > 1 else b' ']) if w else b'\n'
        head = (b' ' if w == 0 or r.random() < .7 else b'\n').join(b'%d' % x for x in offs) + (b'\n' if r.random() < .5 else b' ')
        d = {N('Type'): N('ObjStm'), N('N'): len(items), N('First'): len(head)}
        plain = bytes(head + body)
        if r.random() < .7:
            d[N('Filter')] = N('FlateDecode')
            raw = e_flate(r, plain)
        else:
            raw = plain
        return Stm(d, raw, plain)

    def xref_table(self, ent, trailer):
        r = self.r
        xe = self.xeol or r.choice([b' \n', b'\r\n', b' \r'])
        start = self.put(b'xref' + r.choice([b'', b'', b'', b'', b'', b' ']) + self.eol)
        runs = []
        for n in sorted(ent):
            if runs and runs[-1][-1] == n - 1:
                runs[-1].append(n)
            else:
                runs.append([n])
        entry_log = []
        for run in runs:
            self.put(b'%d %d' % (run[0], len(run)) + r.choice([b'', b'', b'', b'', b' ']) + self.eol)
            for n in run:
                e = ent[n]
                self.put(b'%010d %05d %s' % (e[1], e[2], b'f' if e[0] == 'f' else b'n') + xe)
                entry_log.append((n, e))
        self.put(b'trailer' + self.eol)
        self.put(spell(r, trailer, self.wild))
        self.regions.append(('XREFTABLE', start, len(self.out), entry_log))
        self.trailers[start] = trailer
        self.put(self.eol)
        return start

    def xref_stream(self, num, ent, trailer, pos):
        r = self.r
        w1 = max(1, (max([e[1] for e in ent.values()] + [num]).bit_length() + 7) // 8)
        w2 = max(0, (max([e[2] for e in ent.values()]).bit_length() + 7) // 8)
        w0 = 0 if all(e[0] == 'n' for e in ent.values()) and r.random() < .5 else 1
        w1 += r.choice([0, 0, 1, 2])
        w2 += r.choice([0, 0, 1]) if w2 else r.choice([0, 1, 1])
        typ = {'f': 0, 'n': 1, 'c': 2}
        runs = []
        rows = bytearray()
        log = []
        for n in sorted(ent):
            e = ent[n]
            if runs and runs[-1][-1] == n - 1:
                runs[-1].append(n)
            else:
                runs.append([n])
            rows += typ[e[0]].to_bytes(w0, 'big') if w0 else b''
            rows += e[1].to_bytes(w1, 'big') + (e[2].to_bytes(w2, 'big') if w2 else b'')
            log.append((n, e))
        d = {N('Type'): N('XRef'), N('W'): [w0, w1, w2]}
        d.update(trailer)
        idx = [x for run in runs for x in (run[0], len(run))]
        if idx != [0, trailer[N('Size')]] or r.random() < .3:
            d[N('Index')] = idx
        plain = bytes(rows)
        x = r.random()
        cols = w0 + w1 + w2
        if x < self.predictor:
            p = {N('Predictor'): r.choice([12, 12, 12, 10, 11, 13, 14, 15]), N('Columns'): cols}
            one = r.random() < .2
            d[N('Filter')] = [N('FlateDecode')] if one else N('FlateDecode')
            d[N('DecodeParms')] = [p] if one else p
            raw = e_flate(r, e_png(r, plain, p, tag=2 if r.random() < .6 else None))
        elif x < .8:
            d[N('Filter')] = N('FlateDecode')
            raw = e_flate(r, plain)
        elif x < .9:
            raw = plain
            if not safe_raw(raw):
                d[N('Filter')] = N('ASCIIHexDecode')
                raw = e_hex(r, plain)
        else:
            d[N('Filter')] = N('ASCIIHexDecode')
            raw = e_hex(r, plain)
        self.write_obj(num, 0, Stm(d, raw, plain))
        self.regions.append(('XREFSTREAM', pos, None, log))
        return pos

    # -- linearized first revision
    def linearized(self, doc, alloc, kind='table'):
        """First revision in linearized order: parameter dictionary, first-page section, rest, main section."""
        r = self.r
        doc = doc.clone()
        order = sorted(doc.objs)
        cut = r.randint(1, max(1, len(order) - 1))
        firsts = order[-cut:]
        rest = order[:-cut]
        root = doc.trailer[N('Root')].num
        if root not in firsts and r.random() < .7:
            pass
        ln = alloc()
        PH = 10 ** 9 + 123456789       # placeholder patched afterwards (10 digits)
        lin = {N('Linearized'): 1.0 if r.random() < .5 else 1, N('L'): PH, N('H'): [0, 0], N('O'): firsts[0], N('E'): 0, N('N'): len(doc.pages()), N('T'): 0}
        w, self.wild = self.wild, 0
        ent1 = {ln: ('n', self.write_obj(ln, 0, lin), 0)}
        self.wild = w
        if kind == 'stream':
            xn1, xn2 = alloc(), alloc()
        size = alloc.next
        ent2 = {}
        # dry layout: write first-page xref with placeholders of fixed width, then patch
        t1 = dict(doc.trailer)
        t1[N('Size')] = size
        t1[N('Prev')] = PH
        nums1 = sorted(firsts + [ln])
        lens = {}
        if kind == 'table':
            free = [n for n in range(1, alloc.next) if n not in doc.objs and n != ln]
            f1 = [n for n in free if n > max(rest + [0]) and n <= max(nums1)]
            wild, self.wild = self.wild, 0
            xpos = self.xref_table({n: ('n', PH, 0) for n in nums1}, t1)
            self.wild = wild
            reg = self.regions[-1]
        else:
            self.containers[xn1] = 'xref'
            nums1 = sorted(nums1 + [xn1])
            xpos = len(self.out)
            runs = []
            for n in nums1:
                if runs and runs[-1][-1] == n - 1:
                    runs[-1].append(n)
                else:
                    runs.append([n])
            d = {N('Type'): N('XRef'), N('W'): [1, 4, 2], N('Index'): [x for run in runs for x in (run[0], len(run))]}
            d.update(t1)
            d[N('Filter')] = N('ASCIIHexDecode')
            raw0 = b'0' * (14 * len(nums1)) + b'>'
            w, self.wild = self.wild, 0
            self.write_obj(xn1, 0, Stm(d, raw0, None))
            self.wild = w
            oreg = len(self.regions) - 1
        # dummy end of the first-page section
        p = self.put(b'startxref' + self.eol)
        self.put(b'0')
        self.regions.append(('STARTXREF', p, len(self.out), 0))
        self.put(self.eol)
        p = self.put(b'%%EOF')
        self.regions.append(('COMMENT', p, len(self.out), b'%%EOF'))
        self.put(self.eol)
        for n in firsts:
            self.maybe_junk()
            g, v = doc.objs[n]
            ent1[n] = ('n', self.write_obj(n, g, v), g)
        for n in rest:
            self.maybe_junk()
            g, v = doc.objs[n]
            ent2[n] = ('n', self.write_obj(n, g, v), g)
        self.maybe_junk()
        t2 = {N('Size'): max(rest + [0]) + 1}
        if kind == 'table':
            for n in range(0, max(rest + [0]) + 1):
                if n not in ent2 and n not in ent1:
                    ent2[n] = ('f', 0, 65535)
            if r.random() < .5:
                t2.update(doc.trailer)
            mpos = self.xref_table(ent2, t2)
        else:
            self.containers[xn2] = 'xref'
            ent2[0] = ('f', 0, 65535)
            mpos = len(self.out)
            ent2[xn2] = ('n', mpos, 0)
            t2[N('Size')] = size
            t2.update(doc.trailer)
            self.xref_stream(xn2, ent2, t2, mpos)
        self.close(xpos)
        # patch
        data = self.out
        if kind == 'table':
            log = []
            end = data.find(b'trailer', xpos)
            p = xpos
            for n in nums1:
                p = data.find(b'%010d ' % PH, p, end)
                e = ent1[n]
                data[p:p + 16] = b'%010d %05d' % (e[1], e[2])
                log.append((n, e))
            i = self.regions.index(reg)
            self.regions[i] = (reg[0], reg[1], reg[2], log)
        else:
            ent1[xn1] = ('n', xpos, 0)
            rows = b''.join((b'\x01' + ent1[n][1].to_bytes(4, 'big') + ent1[n][2].to_bytes(2, 'big')) for n in nums1)
            p = data.find(raw0, xpos)
            data[p:p + len(raw0)] = rows.hex().encode() + b'>'
            k, a, z, (n_, g_, v_) = self.regions[oreg]
            dd = dict(v_.d)
            dd[N('Prev')] = mpos
            self.regions[oreg] = (k, a, z, (n_, g_, Stm(dd, rows.hex().encode() + b'>', rows)))
            self.regions.insert(oreg + 1, ('XREFSTREAM', xpos, None, [(n, ent1[n]) for n in nums1]))
        p = data.find(b'%d' % PH, 0, xpos)
        data[p:p + 10] = b'%010d' % len(data)
        p = data.find(b'/Prev', xpos)
        p = data.find(b'%d' % PH, p)
        data[p:p + 10] = b'%010d' % mpos
        self.trailers[xpos] = {**t1, N('Prev'): mpos}
        for i, (k, a, z, info) in enumerate(self.regions):
            if k == 'IND_OBJ' and info[2] is lin:
                lin[N('L')] = len(data)
                self.regions[i] = (k, a, z, (ln, 0, lin))
        self.entries.update(ent2)
        self.entries.update(ent1)
        self.history.append(dict(self.entries))
        self.lin = ln
        self.containers[ln] = 'lin'
        self.lin_value = lin
        self.prev = xpos
        self.written = dict(doc.objs)
        self.states.append(doc)
        self.layouts.append('lin' + kind)

    def data(self):
        return bytes(self.out)


def safe_raw(raw):
    return b'endstream' not in raw and not raw.endswith((b'\r', b'\n'))


def _eq(a, b):
    from .refpdf import same
    return same(a, b)


def bulk(r, kind, b):
    """Values beyond the usual number or size."""
    pad = lambda: r.choice([b'', b'\0' * r.randint(1, 5), b'\n', b'\r\n', b' ', b'\r', b'abc'])
    if kind == 'objects':
        return [r.choice([b.u, lambda: [b.u(), b.pagerefs[0] if b.pagerefs else b.cat], lambda: Str(b'o%d' % b.u()), lambda: {N('VfId'): b.u()}])() for _ in range(r.choice([270, 520, 800]))]
    if kind == 'streams':
        out = []
        for size in r.sample([2000, 4096, 5000, 8192, 10000, 33000, 65536, 70000, 100000], r.choice([1, 2, 3])):
            body = r.choice([r.randbytes(size), b'%d 0 obj (q) Tj\n' % size * (size // 16), bytes(size), r.randbytes(97) * (size // 97)])
            out.append(g_stream(r, {N('VfId'): b.u()}, plain=pad() + body + pad(), unsup=0, chains=b.o['chains']))
        return out
    out = []
    for _ in range(r.choice([1, 2, 4])):
        n = r.choice([100, 260, 600, 1100])
        x = r.choice(['string', 'array', 'dict', 'name', 'nest', 'matrix'])
        if x == 'string':
            v = Str(r.choice([r.randbytes(n), b'(' * n + b')' * n, b'\\' * n, b'ab \n' * n, bytes(n)]))
        elif x == 'array':
            v = [g_scalar(r, b.o['wild'], b.pagerefs + [b.cat]) for _ in range(n)]
        elif x == 'dict':
            v = {N('VfK%d' % i): g_scalar(r, b.o['wild'], b.pagerefs + [b.cat]) for i in range(n // 2)}
        elif x == 'name':
            v = [N('n' * r.choice([60, 100, 127])) for _ in range(4)]
        elif x == 'matrix':
            v = [[i, j] for i in range(20) for j in range(n // 50)]
        else:
            v = b.u()
            for i in range(r.choice([10, 16, 24])):
                v = [v] if r.random() < .5 else {N('VfD'): v}
        out.append({N('VfId'): b.u(), N('VfV'): v})
    return out


FORCE = None             # the next file is of that unusual size


def large(*kinds):
    """The unusual size asked for, if it is one of these."""
    global FORCE
    if FORCE in kinds:
        k, FORCE = FORCE, None
        return k


def large_data(r, n):
    return r.choice([lambda: r.randbytes(n), lambda: bytes(n), lambda: (r.randbytes(97) * (n // 97 + 1))[:n], lambda: (b'BT /F1 12 Tf (Hello) Tj ET\n' * (n // 20))[:n],
                     lambda: b'\nendstream\nendobj\n' * (n // 18), lambda: (b'\0' * 3 + b'z' * 5) * (n // 8), lambda: r.randbytes(n // 2) + bytes(n // 2)])()


def large_value(r, k, wild, nums):
    """A value that is large in one way: VALUES."""
    n = r.choice([130, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2000, 4095, 4097, 8000])
    sc = lambda: g_scalar(r, wild, nums)
    if k == 'string':
        return Str(r.choice([lambda: r.randbytes(n), lambda: b'(' * n + b')' * n, lambda: b'\\' * n, lambda: b'a\rb\r\n' * n, lambda: bytes(n), lambda: b')' * n + b'(' * n, lambda: b'\x0e\x80' * n])())
    if k == 'name':
        return N(r.choice(['n', 'a#', '/x', '\xe9', 'A b']) * r.choice([60, 100, 400]))
    if k == 'array':
        return [sc() for _ in range(n)]
    if k == 'dict':
        return {N('K%d' % i): sc() for i in range(n)}
    if k == 'numbers':
        return [r.choice([r.randint(-10 ** 9, 10 ** 9), r.getrandbits(r.choice([60, 200, 900])), round(r.uniform(-1e6, 1e6), r.randint(0, 5)), Ref(r.randint(1, 8388607), r.choice([0, 65535]))]) for _ in range(n)]
    if k == 'nest':
        v = sc()
        for _ in range(r.choice([20, 40, 64])):
            v = [v] if r.random() < .4 else {N('D'): v} if r.random() < .6 else [sc(), v, sc()]
        return v
    rows = r.choice([20, 100, 300])
    return [[{N('I'): i, N('S'): Str(b'row %d' % i)}, [sc() for _ in range(r.randint(0, 6))]] for i in range(rows)]


VALUES = ['string', 'name', 'array', 'dict', 'numbers', 'nest', 'rows']
SCALES = ['objects', 'streams', 'values', 'pages', 'deep', 'revs']


def random_file(r, revs=None, layouts=None, wild=None, linearized=None, build=None, mut=None, version=None, tweak=None, prep=None, scale=.02):
    """A random well-formed file. Returns (File, Build). tweak(Build) may change each state before it is written. One file out of 1/scale is unusual in size."""
    build = dict(build or {})
    global FORCE
    k, FORCE = FORCE, None
    if not k and r.random() < scale:
        k = r.choice(SCALES)
    if k:
        if k == 'pages':
            build['pages'] = r.choice([33, 60, 101, 130])
        elif k == 'deep':
            build['deep'] = r.choice([8, 12, 20])
        elif k == 'revs':
            revs = r.choice([7, 9, 12, 17])
        else:
            build['bulk'] = k
    if wild is None:
        wild = r.choice([0, 0, 1, 1, 2])
    build.setdefault('wild', wild)
    layouts = layouts or LAYOUTS
    b = Build(r, **build)
    if tweak:
        tweak(b)
    f = File(r, wild=wild, version=version)
    if prep:
        prep(f)
    lin = r.random() < .12 if linearized is None else linearized
    if lin:
        f.linearized(b.doc, b.alloc, r.choice(['table', 'stream']))
    else:
        f.revision(b.doc, b.alloc, r.choice(layouts))
    n = r.choice([1, 1, 1, 2, 2, 3, 4]) if revs is None else revs
    for _ in range(n - 1):
        for _ in range(5):
            if mutate(r, b, **(mut or {})):
                break
        if tweak and r.random() < .5:
            tweak(b)
        f.revision(b.doc, b.alloc, r.choice(layouts))
    f.scale = k
    return f, b
