"""Independent strict PDF reader (ISO 32000-1 chapter 7). Shares no code with pdfsyntax.

Model of values:
  None, bool, int, float, Name(bytes), Str(bytes), Ref(num, gen), list, dict{Name: value}, Stm, Kw(bytes)
"""
import re
import zlib
from collections import namedtuple

WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'
REGULAR_END = frozenset(WS + DELIM)


class Name(bytes):
    __slots__ = ()

    def __repr__(self):
        return '/' + bytes(self).decode('latin-1')


class Str(bytes):
    __slots__ = ()

    def __repr__(self):
        return 'Str' + bytes.__repr__(self)


class Kw(bytes):
    __slots__ = ()

    def __repr__(self):
        return 'Kw' + bytes.__repr__(self)


Ref = namedtuple('Ref', 'num gen')


class Stm:
    """A stream: dictionary, raw (encoded) data and, when known, decoded data."""
    __slots__ = ('d', 'raw', 'plain')

    def __init__(self, d, raw, plain=None):
        self.d, self.raw, self.plain = d, raw, plain

    def __repr__(self):
        return f'Stm({self.d!r}, raw[{len(self.raw)}]={self.raw[:40]!r})'


class PdfError(Exception):
    pass


# ---------------------------------------------------------------- lexer / parser

def skip_ws(b, i):
    n = len(b)
    while i < n:
        c = b[i]
        if c in WS:
            i += 1
        elif c == 0x25:
            while i < n and b[i] not in b'\r\n':
                i += 1
        else:
            break
    return i


_num = re.compile(rb'[+-]?(?:\d+\.?\d*|\.\d+)$')
_int = re.compile(rb'[+-]?\d+$')


def read_regular(b, i):
    j = i
    n = len(b)
    while j < n and b[j] not in REGULAR_END:
        j += 1
    return b[i:j], j


def decode_name(tok):
    out = bytearray()
    i = 0
    while i < len(tok):
        if tok[i] == 0x23 and re.match(rb'[0-9A-Fa-f]{2}', tok[i + 1:i + 3]):
            out.append(int(tok[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(tok[i])
            i += 1
    return Name(bytes(out))


def read_literal(b, i):
    """b[i] == '('. Returns (decoded, end)."""
    n = len(b)
    depth = 1
    out = bytearray()
    i += 1
    while i < n:
        c = b[i]
        if c == 0x5c:
            i += 1
            if i >= n:
                break
            c = b[i]
            if c in b'01234567':
                v = 0
                k = 0
                while k < 3 and i < n and b[i] in b'01234567':
                    v = v * 8 + b[i] - 48
                    i += 1
                    k += 1
                out.append(v & 255)
                continue
            m = b'nrtbf'.find(bytes([c]))
            if m >= 0:
                out.append(b'\n\r\t\b\f'[m])
            elif c == 13:
                if b[i + 1:i + 2] == b'\n':
                    i += 1
            elif c == 10:
                pass
            else:
                out.append(c)
            i += 1
            continue
        if c == 0x28:
            depth += 1
        elif c == 0x29:
            depth -= 1
            if depth == 0:
                return Str(bytes(out)), i + 1
        elif c == 13:
            out.append(10)
            i += 1
            if b[i:i + 1] == b'\n':
                i += 1
            continue
        out.append(c)
        i += 1
    raise PdfError('unterminated string')


def read_hex(b, i):
    j = b.find(b'>', i)
    if j < 0:
        raise PdfError('unterminated hex string')
    h = bytes(c for c in b[i + 1:j] if c not in WS)
    if len(h) % 2:
        h += b'0'
    try:
        return Str(bytes.fromhex(h.decode('ascii'))), j + 1
    except ValueError:
        raise PdfError(f'bad hex string {b[i:j + 1][:60]!r}')


def parse_value(b, i, refs=True, depth=0):
    """Parse one object at or after i. Returns (value, end). Streams are not handled here."""
    i = skip_ws(b, i)
    if i >= len(b):
        raise PdfError('end of data')
    c = b[i]
    if c == 0x2f:
        tok, j = read_regular(b, i + 1)
        return decode_name(tok), j
    if c == 0x28:
        return read_literal(b, i)
    if c == 0x3c:
        if b[i + 1:i + 2] == b'<':
            i += 2
            d = {}
            while True:
                i = skip_ws(b, i)
                if b[i:i + 2] == b'>>':
                    return d, i + 2
                k, i = parse_value(b, i, False)
                if not isinstance(k, Name):
                    raise PdfError(f'dict key {k!r} is not a name')
                if skip_ws(b, i) < len(b) and b[skip_ws(b, i):skip_ws(b, i) + 2] == b'>>':
                    raise PdfError('dict key without value')
                v, i = parse_value(b, i, True, depth + 1)
                if k in d:
                    raise PdfError(f'duplicate key {k!r}')
                d[k] = v
        return read_hex(b, i)
    if c == 0x5b:
        i += 1
        a = []
        while True:
            i = skip_ws(b, i)
            if b[i:i + 1] == b']':
                return a, i + 1
            v, i = parse_value(b, i, True, depth + 1)
            a.append(v)
    if c in DELIM:
        raise PdfError(f'unexpected delimiter {b[i:i + 10]!r} at {i}')
    tok, j = read_regular(b, i)
    if _int.match(tok):
        v = int(tok)
        if refs and v >= 0 and tok[0:1].isdigit():
            m = _ref_tail(b, j)
            if m:
                return Ref(v, m[0]), m[1]
        return v, j
    if _num.match(tok):
        return float(tok), j
    if tok == b'true':
        return True, j
    if tok == b'false':
        return False, j
    if tok == b'null':
        return None, j
    return Kw(tok), j


def _ref_tail(b, j):
    k = skip_ws(b, j)
    if k == j:
        return None
    tok, e = read_regular(b, k)
    if not tok.isdigit():
        return None
    k2 = skip_ws(b, e)
    if k2 == e:
        return None
    tok2, e2 = read_regular(b, k2)
    if tok2 != b'R':
        return None
    return int(tok), e2


def parse_all(b):
    """All objects and keywords of a content stream or similar."""
    out = []
    i = skip_ws(b, 0)
    while i < len(b):
        v, i = parse_value(b, i, False)
        out.append(v)
        i = skip_ws(b, i)
    return out


# ---------------------------------------------------------------- comparison

def same(a, b):
    """Strict equality of model values (type-aware; null dict entries equal absent ones)."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, Stm) or isinstance(b, Stm):
        return isinstance(a, Stm) and isinstance(b, Stm) and same(a.d, b.d) and a.raw == b.raw
    if isinstance(a, Ref) or isinstance(b, Ref):
        return isinstance(a, Ref) and isinstance(b, Ref) and a == b
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return False
        ka = {k for k in a if a[k] is not None}
        kb = {k for k in b if b[k] is not None}
        return ka == kb and all(same(a[k], b[k]) for k in ka)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def differ(a, b, path=''):
    """First difference between two model values, as text, or None."""
    if same(a, b):
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            d = differ(a.get(k), b.get(k), f'{path}{k!r}')
            if d:
                return d
    if isinstance(a, list) and isinstance(b, list) and not isinstance(a, Ref) and not isinstance(b, Ref):
        if len(a) != len(b):
            return f'at {path or "."}: {len(a)} items {short(a)} vs {len(b)} items {short(b)}'
        for n, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f'{path}[{n}]')
            if d:
                return d
    if isinstance(a, Stm) and isinstance(b, Stm):
        d = differ(a.d, b.d, path + '<stream dict>')
        return d or f'at {path or "."}: stream data {short(a.raw)} vs {short(b.raw)}'
    return f'at {path or "."}: {short(a)} vs {short(b)}'


def short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else s[:n] + f'...({len(s)} chars)'


# ---------------------------------------------------------------- filters

def unpredict(data, parms):
    pred = parms.get(Name(b'Predictor'), 1)
    if pred == 1:
        return data
    colors = parms.get(Name(b'Colors'), 1)
    bpc = parms.get(Name(b'BitsPerComponent'), 8)
    cols = parms.get(Name(b'Columns'), 1)
    bpp = (colors * bpc + 7) // 8
    rl = (colors * bpc * cols + 7) // 8
    if pred == 2:
        if bpc != 8:
            raise PdfError('TIFF predictor only for 8 bits')
        out = bytearray()
        for r in range(0, len(data), rl):
            row = bytearray(data[r:r + rl])
            for i in range(bpp, len(row)):
                row[i] = (row[i] + row[i - bpp]) & 255
            out += row
        return bytes(out)
    out = bytearray()
    prev = bytearray(rl)
    for r in range(0, len(data), rl + 1):
        t = data[r]
        row = bytearray(data[r + 1:r + 1 + rl])
        row += bytes(rl - len(row))
        for i in range(rl):
            a = row[i - bpp] if i >= bpp else 0
            up = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            if t == 1:
                row[i] = (row[i] + a) & 255
            elif t == 2:
                row[i] = (row[i] + up) & 255
            elif t == 3:
                row[i] = (row[i] + (a + up) // 2) & 255
            elif t == 4:
                p = a + up - c
                pa, pb, pc = abs(p - a), abs(p - up), abs(p - c)
                row[i] = (row[i] + (a if pa <= pb and pa <= pc else up if pb <= pc else c)) & 255
        out += row
        prev = row
    return bytes(out)


def a85decode(s):
    s = bytes(c for c in s if c not in WS)
    if s[:2] == b'<~':
        raise PdfError('ASCII85 data starts with <~, which is not part of the PDF encoding')
    j = s.find(b'~>')
    if j < 0:
        raise PdfError('ASCII85 data without ~>')
    s = s[:j]
    out = bytearray()
    grp = []
    for c in s:
        if c == 0x7a and not grp:
            out += b'\0\0\0\0'
            continue
        if not 33 <= c <= 117:
            raise PdfError('bad ASCII85 char')
        grp.append(c - 33)
        if len(grp) == 5:
            v = 0
            for g in grp:
                v = v * 85 + g
            if v >= 1 << 32:
                raise PdfError('ASCII85 overflow')
            out += v.to_bytes(4, 'big')
            grp = []
    if grp:
        k = len(grp)
        if k == 1:
            raise PdfError('ASCII85 single char group')
        grp += [84] * (5 - k)
        v = 0
        for g in grp:
            v = v * 85 + g
        out += (v & 0xffffffff).to_bytes(4, 'big')[:k - 1]
    return bytes(out)


def hexdecode(s, need_eod=True):
    j = s.find(b'>')
    if j < 0:
        if need_eod:
            raise PdfError('ASCIIHex data without >')
        j = len(s)
    h = bytes(c for c in s[:j] if c not in WS)
    if len(h) % 2:
        h += b'0'
    return bytes.fromhex(h.decode('ascii'))


def inflate(s):
    d = zlib.decompressobj()
    out = d.decompress(s) + d.flush()
    if not d.eof:
        raise PdfError('truncated Flate data')
    return out


SUPPORTED = {b'FlateDecode', b'ASCIIHexDecode', b'ASCII85Decode'}


def filters_of(d):
    f = d.get(Name(b'Filter'))
    if f is None:
        return []
    return [f] if isinstance(f, Name) else list(f)


def parms_of(d, n):
    p = d.get(Name(b'DecodeParms'))
    if p is None:
        return [{}] * n
    if isinstance(p, dict):
        p = [p] + [{}] * (n - 1)
    return [{k: v for k, v in (x or {}).items() if v is not None} for x in p]


def decode(stm):
    """Decoded data, or None when a filter is not supported (a reference here)."""
    if isinstance(stm.d.get(Name(b'Filter')), Ref):
        return None
    fs = filters_of(stm.d)
    ps = parms_of(stm.d, len(fs))
    s = stm.raw
    for f, p in zip(fs, ps):
        if f == b'FlateDecode':
            s = unpredict(inflate(s), p)
        elif f == b'ASCIIHexDecode':
            s = hexdecode(s)
        elif f == b'ASCII85Decode':
            s = a85decode(s)
        else:
            return None
    return s


# ---------------------------------------------------------------- file reader

Section = namedtuple('Section', 'kind pos end entries trailer hybrid num')

_entry = re.compile(rb'(\d{10}) (\d{5}) ([nf])(?: \r| \n|\r\n)')
_objhead = re.compile(rb'(\d+)[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+obj')


class RefPDF:
    """Strict reader. `issues` collects conformance problems found on the way."""

    def __init__(self, data, from_pos=0):
        self.data = data
        self.issues = []
        self.from_pos = from_pos      # conformance is only demanded of what lies at or after this offset
        self.sections = []            # newest first
        self._cache = {}
        self._objstm = {}
        m = re.match(rb'%PDF-\d\.\d', data)
        if not m:
            raise PdfError('no header')
        m = re.search(rb'startxref[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+%%EOF[\r\n]*\Z', data)
        if not m:
            raise PdfError(f'file does not end with startxref/%%EOF: {data[-60:]!r}')
        pos = int(m.group(1))
        self.startxref = pos
        seen = set()
        while pos is not None:
            if pos in seen:
                raise PdfError('Prev cycle')
            seen.add(pos)
            s = self.read_section(pos)
            self.sections.append(s)
            pos = s.trailer.get(Name(b'Prev'))
            if pos is not None and not (isinstance(pos, int) and 0 <= pos < len(data)):
                raise PdfError(f'bad Prev {pos!r}')
        self.trailer = self.sections[0].trailer
        self.table = {}
        for s in reversed(self.sections):
            if s.hybrid:
                self.table.update(s.hybrid)
            for k, e in s.entries.items():
                if s.hybrid and k in s.hybrid and e[0] == 'f':
                    continue
                self.table[k] = e

    def issue(self, pos, txt):
        if pos >= self.from_pos:
            self.issues.append(f'@{pos}: {txt}')

    def read_section(self, pos):
        b = self.data
        if b[pos:pos + 4] == b'xref':
            return self.read_table(pos)
        num, gen, v, end = self.read_indirect(pos, None)
        if not isinstance(v, Stm) or v.d.get(Name(b'Type')) != b'XRef':
            raise PdfError(f'no xref section at {pos}: {b[pos:pos + 30]!r}')
        entries = self.read_xref_stream(v, pos)
        if num not in entries or entries[num][:2] != ('n', pos):
            self.issue(pos, f'xref stream object {num} is not indexed by itself')
        return Section('stream', pos, end, entries, v.d, None, num)

    def read_table(self, pos):
        b = self.data
        i = pos + 4
        m = re.compile(rb'[ ]*(\r\n|\r|\n)').match(b, i)
        if not m:
            raise PdfError('xref keyword without EOL')
        i = m.end()
        entries = {}
        sub = re.compile(rb'(\d+) (\d+)[ ]*(\r\n|\r|\n)')
        loose = re.compile(rb'(\d{10}) (\d{5}) ([nf]) ?(\r\n|\r|\n)')
        last = -1
        while True:
            m = sub.match(b, i)
            if not m:
                break
            first, cnt = int(m.group(1)), int(m.group(2))
            i = m.end()
            if first <= last:
                self.issue(i, f'subsection {first} {cnt} overlaps or is out of order')
            for k in range(cnt):
                m = _entry.match(b, i)
                if not m:
                    m = loose.match(b, i)
                    if not m:
                        raise PdfError(f'bad xref entry at {i}: {b[i:i + 24]!r}')
                    self.issue(i, f'xref entry is not 20 bytes long: {m.group(0)!r}')
                off, gen, kind = int(m.group(1)), int(m.group(2)), m.group(3)
                if first + k in entries:
                    self.issue(i, f'duplicate entry for object {first + k}')
                entries[first + k] = ('n', off, gen) if kind == b'n' else ('f', off, gen)
                i = m.end()
            last = max(last, first + cnt - 1)
        i = skip_ws(b, i)
        if b[i:i + 7] != b'trailer':
            raise PdfError(f'no trailer after xref table at {i}: {b[i:i + 30]!r}')
        d, end = parse_value(b, i + 7)
        if not isinstance(d, dict):
            raise PdfError('trailer is not a dictionary')
        hyb = None
        xs = d.get(Name(b'XRefStm'))
        if xs is not None:
            num, gen, v, _ = self.read_indirect(xs, None)
            hyb = self.read_xref_stream(v, xs)
        return Section('table', pos, end, entries, d, hyb, None)

    def read_xref_stream(self, v, pos):
        w = v.d.get(Name(b'W'))
        size = v.d.get(Name(b'Size'))
        if not (isinstance(w, list) and len(w) == 3 and all(isinstance(x, int) and x >= 0 for x in w)):
            raise PdfError(f'bad W {w!r}')
        if not isinstance(size, int):
            raise PdfError('xref stream without Size')
        idx = v.d.get(Name(b'Index'), [0, size])
        data = decode(v)
        rl = sum(w)
        n = sum(idx[1::2])
        if len(data) != rl * n:
            self.issue(pos, f'xref stream has {len(data)} bytes, {n} entries of {rl} expected')
        entries = {}
        p = 0
        for first, cnt in zip(idx[::2], idx[1::2]):
            for k in range(cnt):
                f = []
                for x in w:
                    f.append(int.from_bytes(data[p:p + x], 'big'))
                    p += x
                t = f[0] if w[0] else 1
                if first + k in entries:
                    self.issue(pos, f'duplicate entry for object {first + k}')
                if t == 0:
                    entries[first + k] = ('f', f[1], f[2])
                elif t == 1:
                    entries[first + k] = ('n', f[1], f[2])
                elif t == 2:
                    entries[first + k] = ('c', f[1], f[2])
        return entries

    def read_indirect(self, pos, want):
        """Indirect object at pos -> (num, gen, value, end)."""
        b = self.data
        m = _objhead.match(b, pos)
        if not m:
            raise PdfError(f'no indirect object at {pos}: {b[pos:pos + 30]!r}')
        num, gen = int(m.group(1)), int(m.group(2))
        if want is not None and want != (num, gen):
            raise PdfError(f'object {num} {gen} found at {pos} instead of {want}')
        v, i = parse_value(b, m.end())
        i = skip_ws(b, i)
        if b[i:i + 6] == b'stream' and isinstance(v, dict):
            i += 6
            if b[i:i + 2] == b'\r\n':
                i += 2
            elif b[i:i + 1] == b'\n':
                i += 1
            else:
                raise PdfError('stream keyword not followed by EOL')
            ln = v.get(Name(b'Length'))
            if isinstance(ln, Ref):
                ln = self.get(ln.num)
            if not isinstance(ln, int) or ln < 0:
                raise PdfError(f'bad Length {ln!r} in object {num}')
            raw = b[i:i + ln]
            i += ln
            m = re.compile(rb'(?:\r\n|\r|\n)?endstream').match(b, i)
            if not m:
                raise PdfError(f'endstream not found after Length of object {num} (at {i}: {b[i - 5:i + 20]!r})')
            i = skip_ws(b, m.end())
            v = Stm(v, raw)
        if b[i:i + 6] != b'endobj':
            raise PdfError(f'endobj expected at {i} for object {num}: {b[i:i + 20]!r}')
        return num, gen, v, i + 6

    def get(self, num, gen=None):
        """Newest value of object num (None when free or undefined)."""
        if num in self._cache:
            return self._cache[num]
        e = self.table.get(num)
        if e is None or e[0] == 'f':
            v = None
        elif e[0] == 'n':
            _, _, v, _ = self.read_indirect(e[1], (num, e[2]))
        else:
            objs = self.objstm(e[1])
            if e[2] >= len(objs):
                raise PdfError(f'object {num}: index {e[2]} beyond object stream {e[1]}')
            n, v = objs[e[2]]
            if n != num:
                raise PdfError(f'object {num}: object stream {e[1]} holds {n} at index {e[2]}')
        self._cache[num] = v
        return v

    def objstm(self, num):
        if num in self._objstm:
            return self._objstm[num]
        e = self.table.get(num)
        if e is None or e[0] != 'n':
            raise PdfError(f'object stream {num} is not an in-use direct object: {e}')
        s = self.get(num)
        if not isinstance(s, Stm) or s.d.get(Name(b'Type')) != b'ObjStm':
            raise PdfError(f'object {num} is not an object stream: {short(s)}')
        data = decode(s)
        n, first = s.d.get(Name(b'N')), s.d.get(Name(b'First'))
        if not isinstance(n, int) or not isinstance(first, int):
            raise PdfError(f'object stream {num}: bad N/First')
        head = parse_all(data[:first])
        if len(head) != 2 * n or not all(isinstance(x, int) for x in head):
            raise PdfError(f'object stream {num}: N={n} but header has {len(head)} integers')
        out = []
        for k in range(n):
            v, _ = parse_value(data, first + head[2 * k + 1])
            if isinstance(v, Ref):
                raise PdfError(f'object stream {num}: object {head[2 * k]} consists solely of the reference {v}')
            out.append((head[2 * k], v))
        self._objstm[num] = out
        return out

    def state(self):
        """{num: (gen, value)} of all in-use objects (xref streams and object streams left out)."""
        out = {}
        for num, e in self.table.items():
            if e[0] == 'f' or num == 0:
                continue
            v = self.get(num)
            if isinstance(v, Stm) and v.d.get(Name(b'Type')) in (b'XRef', b'ObjStm'):
                continue
            out[num] = (e[2] if e[0] == 'n' else 0, v)
        return out

    def resolved(self, v):
        """The stream with its filters and parameters resolved."""
        def res(x):
            if isinstance(x, Ref):
                return res(self.get(x.num)) if self.table.get(x.num, 'f')[0] != 'f' else None
            if isinstance(x, dict):
                return {k: res(e) for k, e in x.items()}
            return [res(e) for e in x] if isinstance(x, list) else x
        return Stm({k: res(v.d[k]) for k in (Name(b'Filter'), Name(b'DecodeParms')) if k in v.d}, v.raw)

    def check(self):
        """Conformance of the whole file from from_pos on. Returns list of issues."""
        top = max(self.table)
        size = self.trailer.get(Name(b'Size'))
        if size != top + 1:
            self.issue(self.startxref, f'Size is {size}, highest object number is {top}')
        for num, e in sorted(self.table.items()):
            try:
                if e[0] != 'f':
                    v = self.get(num)
                    if isinstance(v, Stm) and (e[0] == 'n' and e[1] >= self.from_pos):
                        decode(self.resolved(v))
            except (PdfError, zlib.error, ValueError) as ex:
                p = e[1] if e[0] == 'n' else len(self.data)
                self.issue(p if e[0] == 'n' else self.startxref, f'object {num}: {ex}')
        s0 = self.sections[0]
        if s0.pos >= self.from_pos:
            e0 = s0.entries.get(0)
            if e0 is None and s0.trailer.get(Name(b'Prev')) is not None and not any(e[0] == 'f' for e in s0.entries.values()):
                pass          # an increment that frees nothing need not repeat the head of the free list
            elif e0 is None or e0[0] != 'f':
                self.issue(s0.pos, f'entry 0 is {e0}')
            else:
                seen = {0}
                nxt = e0[1]
                while nxt != 0:
                    e = self.table.get(nxt)
                    if nxt in seen or e is None or e[0] != 'f':
                        self.issue(s0.pos, f'free list leads to {nxt}: {e}')
                        break
                    seen.add(nxt)
                    nxt = e[1]
                for num, e in s0.entries.items():
                    if e[0] == 'f' and num not in seen and e[2] != 65535:
                        self.issue(s0.pos, f'free object {num} of the newest section is not in the free list')
        root = self.trailer.get(Name(b'Root'))
        if not isinstance(root, Ref) or not isinstance(self.get(root.num), dict):
            self.issue(self.startxref, f'Root is {root!r}')
        oldest = self.sections[-1]
        if oldest.pos >= self.from_pos:
            missing = [n for n in range(max(oldest.entries) + 1) if n not in oldest.entries]
            if missing and oldest.kind == 'table':
                self.issue(oldest.pos, f'first section does not cover objects {missing[:5]}')
        return self.issues

    def pages(self):
        """Effective page list: list of (ref, dict with inherited attributes merged)."""
        out = []
        cat = self.get(self.trailer[Name(b'Root')].num)
        self._walk(cat[Name(b'Pages')], {}, out, set(), None)
        return out

    INH = (Name(b'Resources'), Name(b'MediaBox'), Name(b'CropBox'), Name(b'Rotate'))

    def _walk(self, ref, inh, out, seen, parent):
        if ref in seen:
            raise PdfError('page tree cycle')
        seen.add(ref)
        node = self.get(ref.num)
        if not isinstance(node, dict):
            raise PdfError(f'page tree node {ref} is {short(node)}')
        if parent is not None and node.get(Name(b'Parent')) != parent:
            raise PdfError(f'page tree node {ref} has Parent {node.get(Name(b"Parent"))!r} instead of {parent!r}')
        if parent is None and node.get(Name(b'Parent')) is not None:
            raise PdfError('root of the page tree has a Parent')
        inh = dict(inh)
        for k in self.INH:
            if self.resolve(node.get(k)) is not None:
                inh[k] = node[k]
        if node.get(Name(b'Type')) == b'Page':
            d = dict(node)
            d.update(inh)
            out.append((ref, d))
            return 1
        if node.get(Name(b'Type')) != b'Pages':
            raise PdfError(f'page tree node {ref} has Type {node.get(Name(b"Type"))!r}')
        kids = self.resolve(node.get(Name(b'Kids')))
        n = sum(self._walk(k, inh, out, seen, ref) for k in kids)
        cnt = self.resolve(node.get(Name(b'Count')))
        if cnt != n:
            raise PdfError(f'page tree node {ref}: Count {cnt}, {n} leaves')
        return n

    def resolve(self, v):
        for _ in range(20):
            if not isinstance(v, Ref):
                return v
            v = self.get(v.num)
        raise PdfError(f'reference chain at {v}: {short(self.get(v.num))}')
