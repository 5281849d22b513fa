"""The only door from the harness to pdfsyntax: imports the code under test from $REPO (default /repo), records every
call as an event, turns an unexpected exception into a violation and converts values to and from the reference model."""
import os
import sys
import io
import collections

REPO = os.environ.get('REPO', '/repo')
sys.dont_write_bytecode = True
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
import pdfsyntax as P                                    # noqa: E402
from .refpdf import Name, Str, Kw, Ref, Stm, read_literal, read_hex, decode_name, PdfError, same, differ, short  # noqa: E402

if not os.path.realpath(P.__file__).startswith(os.path.realpath(REPO) + os.sep):
    sys.exit(f'pdfsyntax was imported from {P.__file__}, not from {REPO}')


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg, self.detail = msg, detail


def enc_name(n):
    out = '/'
    for c in n:
        if 33 <= c <= 126 and c not in b'()<>[]{}/%#':
            out += chr(c)
        else:
            out += '#%02X' % c
    return out


def enc_str(b):
    out = bytearray(b'(')
    for c in b:
        if c in b'()\\':
            out += b'\\' + bytes([c])
        elif c == 13:
            out += b'\\r'
        elif c == 10:
            out += b'\\n'
        else:
            out.append(c)
    return bytes(out + b')')


def to_lib(v, strf=enc_str):
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return v
    if isinstance(v, Ref):
        return complex(v.gen, v.num)
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, Name):
        return enc_name(v)
    if isinstance(v, Str):
        return strf(bytes(v))
    if isinstance(v, list):
        return [to_lib(x, strf) for x in v]
    if isinstance(v, dict):
        return {enc_name(k): to_lib(x, strf) for k, x in v.items()}
    if isinstance(v, Stm):
        return P.Stream({enc_name(k): to_lib(x, strf) for k, x in v.d.items()}, v.plain, v.raw)
    raise TypeError(repr(v))


class Odd:
    """Marks a value of the library that denotes no PDF object."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f'<not a PDF value: {self.v!r}>'

    def __eq__(self, o):
        return False


def _num(x):
    return int(x) if x == int(x) else x


def from_lib(v):
    """Library value -> reference model. A stream's plain data becomes Stm.plain."""
    if v is None:
        return None
    if isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, complex):
        return Ref(_num(v.imag), _num(v.real))
    if isinstance(v, str):
        if v.startswith('/'):
            return decode_name(v[1:].encode('latin-1', 'surrogateescape'))
        if v == 'null':
            return None
        return Kw(v.encode('utf-8', 'surrogateescape'))
    if isinstance(v, (bytes, bytearray)):
        b = bytes(v)
        try:
            if b[:1] == b'(':
                s, e = read_literal(b, 0)
                if e == len(b):
                    return s
            elif b[:1] == b'<' and b[:2] != b'<<':
                s, e = read_hex(b, 0)
                if e == len(b):
                    return s
        except PdfError:
            pass
        return Odd(v)
    if isinstance(v, list):
        return [from_lib(x) for x in v]
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            kk = from_lib(k)
            if not isinstance(kk, Name):
                return Odd(v)
            out[kk] = from_lib(x)
        return out
    if isinstance(v, P.Stream):
        return Stm(from_lib(v['entries']), v['encoded'], v['stream'])
    return Odd(v)


LEN = Name(b'Length')


def strip_len(v):
    if isinstance(v, Stm):
        return Stm({k: x for k, x in v.d.items() if k != LEN}, v.raw, v.plain)
    return v


class Lib:
    """Recording proxy: L.loads(...) calls pdfsyntax.loads. Exceptions become violations (use L.tryc to get them)."""

    def __init__(self):
        self.events = collections.Counter()
        self.trace = collections.deque(maxlen=60)

    def __getattr__(self, name):
        f = getattr(P, name)

        def call(*a, **k):
            if a and self.events[name] & 1:        # every other call uses the method pattern of the documentation
                if isinstance(a[0], P.Doc) and callable(a[0].__class__.__dict__.get(name)):
                    self.events['as method'] += 1
                    return self.run(name, getattr(a[0], name), *a[1:], **k)
            return self.run(name, f, *a, **k)
        call.__name__ = name
        self.__dict__[name] = call
        return call

    def run(self, name, f, *a, **k):
        self.events[name] += 1
        self.trace.append(name)
        try:
            return f(*a, **k)
        except Exception as e:
            tb = e.__traceback__
            where = ''
            while tb:
                fn = tb.tb_frame.f_code.co_filename
                if fn.startswith(REPO):
                    where = f'{os.path.basename(fn)}:{tb.tb_frame.f_code.co_name}'
                tb = tb.tb_next
            txt = short(f'{type(e).__name__}: {e}', 300)
            raise Violation(f'{name} raised {txt} (in {where})', args=short(a, 600)) from e

    def do(self, name, f):
        """Record and run an expression on library objects (operators, methods)."""
        return self.run(name, f)

    # ------------------------------------------------ composite observations
    def open(self, data):
        return self.loads(bytes(data))

    def value(self, doc, ref):
        """Resolved value of Ref/int in model form."""
        if isinstance(ref, int):
            ref = Ref(ref, 0)
        return from_lib(self.get_object(doc, complex(ref.gen, ref.num)))

    def live(self, doc):
        """{num: (gen, value)} of the objects in use, without cross-reference streams and object streams."""
        out = {}
        for iref in self.in_use(doc):
            v = from_lib(self.get_object(doc, iref))
            if isinstance(v, Stm) and isinstance(v.d, dict) and v.d.get(Name(b'Type')) in (b'XRef', b'ObjStm'):
                continue
            out[int(iref.imag)] = (int(iref.real), v)
        return out

    def trail(self, doc):
        return from_lib(self.trailer(doc))

    def write(self, doc, path):
        """writefile to a real file; returns (doc, bytes)."""
        d = self.writefile(doc, path)
        with open(path, 'rb') as f:
            b = f.read()
        os.unlink(path)
        return d, b

    def write_stdout(self, doc):
        old = sys.stdout
        buf = io.BytesIO()
        sys.stdout = io.TextIOWrapper(buf, encoding='utf-8', write_through=True)
        try:
            d = self.writefile(doc)
            sys.stdout.flush()
            return d, buf.getvalue()
        finally:
            sys.stdout = old

    def capture(self, name, *a):
        """Call a printing function; returns (result, text printed)."""
        old = sys.stdout
        buf = io.BytesIO()
        sys.stdout = io.TextIOWrapper(buf, encoding='utf-8', write_through=True, newline='\n', errors='surrogatepass')
        try:
            res = getattr(self, name)(*a)
            sys.stdout.flush()
            return res, buf.getvalue().decode('utf-8', 'surrogatepass')
        finally:
            sys.stdout = old

    def eff_pages(self, doc):
        """[(Ref, effective dict)] as the library presents them."""
        refs = self.flat_page_tree(doc)
        ps = self.pages(doc)
        if len(refs) != len(ps):
            raise Violation(f'flat_page_tree lists {len(refs)} pages, pages {len(ps)}')
        return [(from_lib(a[0]), from_lib(p)) for a, p in zip(refs, ps)]
