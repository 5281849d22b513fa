"""C03: filters. Three-way agreement between the library, an independent decoder and an independent encoder."""
import zlib
from ..lib import to_lib, short, Name, Stm, P
from .. import gen, refpdf

ID = 'C03'
QUICK, THOROUGH = 80000, 1600000
SCALES, SCALED = ['data', 'wide', 'chain', 'highly'], 20
RULE = ('random bytes x random chains of 0-4 supported filters x DecodeParms (PNG and 8-bit TIFF predictors, colors, depths); non-trivial: at least one filter')
NEED = {'oracle_checks': 5000, 'decode_stream': 1500, 'encode_stream': 1500, 'dir:decode': 500, 'dir:encode': 500, 'corrupt': 150, 'unsupported': 100,
        'pred10': 5, 'pred11': 5, 'pred12': 5, 'pred13': 5, 'pred14': 5, 'pred15': 5, 'pred2': 5}
N = gen.N
ERR = b'#PDFSyntaxException'


def parms(r):
    p = {N('Predictor'): r.choice([2, 10, 11, 12, 13, 14, 15, 12, 15, 1])}
    if r.random() < .85:
        p[N('Columns')] = r.choice([1, 2, 3, 4, 5, 8, 17])
    if r.random() < .35:
        p[N('Colors')] = r.choice([1, 2, 3, 4])
    if r.random() < .35:
        p[N('BitsPerComponent')] = 8 if p[N('Predictor')] == 2 else r.choice([1, 2, 4, 8, 16])
    return p


def rowlen(p):
    return (p.get(N('Colors'), 1) * p.get(N('BitsPerComponent'), 8) * p.get(N('Columns'), 1) + 7) // 8


def tiff(b, p):
    bpp, rl = max(1, p.get(N('Colors'), 1)), rowlen(p)
    out = bytearray()
    for i in range(0, len(b), rl):
        row = b[i:i + rl]
        out += bytes((row[j] - (row[j - bpp] if j >= bpp else 0)) & 255 for j in range(len(row)))
    return bytes(out)


def encode(r, plain, chain, ps):
    b = plain
    for f, p in reversed(list(zip(chain, ps))):
        if f == 'FlateDecode':
            if p and p.get(N('Predictor'), 1) >= 10:
                b = gen.e_png(r, b, p)
            elif p and p.get(N('Predictor'), 1) == 2:
                b = tiff(b, p)
            b = gen.e_flate(r, b)
            if r.random() < .05:
                b += r.choice([b'\n', b'\r\n', b'\0'])
        elif f == 'ASCIIHexDecode':
            b = gen.e_hex(r, b) + r.choice([b'', b'', b'\n', b' \r'])
        else:
            b = gen.e_a85(r, b) + r.choice([b'', b'', b'\n', b'\r\n'])
    return b


def entries(r, chain, ps):
    d = {}
    if not chain:
        if r.random() < .3:
            d['/Filter'] = []
        return d
    names = ['/' + f for f in chain]
    ps = [gen.null_parms(r, {}, 1) if p is None and r.random() < .03 else p and gen.null_parms(r, p) for p in ps]
    lp = [None if p is None else to_lib(p) for p in ps]
    if len(names) == 1 and r.random() < .6:
        d['/Filter'] = names[0]
        if lp[0] is not None:
            d['/DecodeParms'] = lp[0]
    else:
        d['/Filter'] = names
        if any(p is not None for p in lp) or r.random() < .15:
            d['/DecodeParms'] = ['null' if p is None else p for p in lp]
    if r.random() < .2:
        d['/Type'] = '/XObject'
    return d


def case(c):
    r = c.r
    big = gen.large(*SCALES)
    n = r.choice([5, 6, 8]) if big == 'chain' else r.choice([1, 1, 2]) if big else r.choice([0, 1, 1, 1, 2, 2, 3, 4])
    chain = [r.choice(gen.SUP) for _ in range(n)]
    plain = gen.g_data(r)
    if big in ('data', 'wide', 'highly'):
        plain = gen.large_data(r, r.choice([4097, 16384, 32769, 65536, 100001, 262144]))
    if big == 'highly':
        chain, n = ['FlateDecode'], 1
        plain = bytes([r.randrange(256)]) * r.choice([300000, 1 << 20, 3000000])
    elif big == 'wide':
        chain[-1] = 'FlateDecode'
    ps = [None] * n
    fl = [i for i, f in enumerate(chain) if f == 'FlateDecode']
    pred = None
    if fl and (r.random() < .4 or big == 'wide'):
        i = fl[-1] if fl[-1] == n - 1 else None       # a predictor needs whole rows: use it on the innermost filter
        if i is not None:
            ps[i] = p = parms(r)
            if big == 'wide':
                p[N('Columns')] = r.choice([64, 255, 256, 257, 600, 1000, 4096])
            pred = p[N('Predictor')]
            rl = rowlen(p)
            plain = plain[:len(plain) // rl * rl]
            c.feat(f'pred{pred}')
    d = entries(r, chain, ps)
    x = r.random()
    c.feat('+'.join(chain) if n < 3 else f'chain{n}')
    if n == 0:
        c.trivial()
    if x < .4:
        enc = encode(r, plain, chain, ps)
        got = c.L.decode_stream(enc, d)
        c.digest(repr(d).encode() + enc)
        c.check(got == plain, 'the library decodes conforming data to other bytes', filters=repr(d), encoded=short(enc, 900), want=short(plain, 400), got=short(got, 400))
        c.feat('dir:decode')
    elif x < .8 or big:
        enc = c.L.encode_stream(plain, d)
        c.digest(repr(d).encode() + plain)
        model = Stm({N(k[1:]): v for k, v in zip(d, map(_m, d.values()))}, enc)
        try:
            ref = refpdf.decode(model)
        except (refpdf.PdfError, zlib.error, ValueError) as e:
            c.fail(f'a conforming decoder rejects what the library encoded: {e}', filters=repr(d), plain=short(plain, 400), encoded=short(enc, 900))
        c.check(ref == plain, 'a conforming decoder reads other bytes than the library encoded', filters=repr(d), plain=short(plain, 400), got=short(ref, 400), encoded=short(enc, 600))
        got = c.L.decode_stream(enc, d)
        c.check(got == plain, 'decode(encode(x)) differs from x', filters=repr(d), want=short(plain, 400), got=short(got, 400))
        s, ln = c.L.forge_stream(dict(d), plain)
        c.check(s['encoded'] == enc and s['stream'] == plain and ln == len(enc), 'forge_stream disagrees with encode_stream', filters=repr(d))
        c.feat('dir:encode')
    elif x < .92:
        enc = bytearray(encode(r, plain, chain, ps))
        for _ in range(r.randint(1, 3)):
            y = r.random()
            if y < .4 and enc:
                enc[r.randrange(len(enc))] = r.randrange(256)
            elif y < .7:
                del enc[r.randint(0, len(enc)):]
            else:
                enc += bytes(r.randrange(256) for _ in range(3))
        enc = bytes(enc)
        c.digest(repr(d).encode() + enc)
        got = c.L.decode_stream(enc, d)                # must not raise
        c.check(isinstance(got, bytes), f'corrupt data decodes to {type(got).__name__}', filters=repr(d), encoded=short(enc))
        if n == 1 and ps[0] is None:
            f = chain[0]
            try:
                want = refpdf.inflate(enc) if f == 'FlateDecode' else None
                hopeless = False
            except (zlib.error, refpdf.PdfError):
                want, hopeless = None, True
            if f == 'FlateDecode':
                c.check(hopeless == got.startswith(ERR) or not hopeless and got == want, 'corrupt Flate data is neither decoded nor reported', encoded=short(enc), got=short(got))
            elif f == 'ASCIIHexDecode' and any(b not in b'0123456789abcdefABCDEF> \n\r\t\x00\x0c' for b in enc.split(b'>')[0]):
                c.check(got.startswith(ERR), 'corrupt ASCIIHex data is not reported', encoded=short(enc), got=short(got))
        c.feat('corrupt')
    else:
        bad = r.choice(gen.UNSUP + ['Crypt', 'Nonsense'])
        k = r.randint(0, n)
        chain2 = chain[:k] + [bad] + chain[k:]
        enc = encode(r, bytes(r.randrange(256) for _ in range(r.randint(0, 30))), chain[:k], [None] * k)
        d = {'/Filter': ['/' + f for f in chain2]} if len(chain2) > 1 or r.random() < .4 else {'/Filter': '/' + bad}
        got = c.L.decode_stream(enc, d)
        c.digest(repr(d).encode() + enc)
        c.check(got.startswith(ERR), 'an unsupported filter is not reported by the error marker', filters=repr(d), got=short(got))
        c.feat('unsupported')
    c.sample(repr(d) + ' ' + repr(plain[:200]))


def _m(v):
    from ..lib import from_lib
    return from_lib(v)


def _all_png(c):
    """Every PNG row algorithm x depth x colors against the independent encoder."""
    r = c.r
    for tag in range(5):
        for colors in (1, 2, 3, 4):
            for bpc in (1, 2, 4, 8, 16):
                for cols in (1, 2, 5):
                    p = {N('Predictor'): 10 + tag if r.random() < .5 else 15, N('Columns'): cols, N('Colors'): colors, N('BitsPerComponent'): bpc}
                    plain = bytes(r.randrange(256) for _ in range(rowlen(p) * 3))
                    enc = zlib.compress(gen.e_png(r, plain, p, tag))
                    got = c.L.decode_stream(enc, {'/Filter': '/FlateDecode', '/DecodeParms': to_lib(p)})
                    c.check(got == plain, f'PNG algorithm {tag} colors {colors} depth {bpc} columns {cols} decodes wrong', want=short(plain), got=short(got))


def _texts(c):
    for f, enc, want in [('ASCIIHexDecode', b'4E6F>', b'No'), ('ASCIIHexDecode', b'4 E\n6 f 7 >', b'Nop'), ('ASCIIHexDecode', b'>', b''), ('ASCIIHexDecode', b'4e6F', b'No'),
                         ('ASCII85Decode', b'~>', b''), ('ASCII85Decode', b'z~>', b'\0\0\0\0'), ('ASCII85Decode', b'!!~>', b'\0'), ('ASCII85Decode', b's8W-!~>', b'\xff' * 4),
                         ('ASCII85Decode', b'9jq o^~ >'.replace(b'~ ', b'~'), b'Man '), ('ASCII85Decode', b'zz!!\n!~>\r\n', bytes(10)),
                         ('ASCII85Decode', b'zz~> z~>', bytes(8)), ('ASCIIHexDecode', b'4E6F> 70>', b'No'), ('FlateDecode', zlib.compress(b''), b'')]:
        got = c.L.decode_stream(enc, {'/Filter': '/' + f})
        c.check(got == want, f'{f} {enc!r} decodes to {got!r}, not {want!r}')
        got = c.L.decode_stream(enc, {'/Filter': ['/' + f]})
        c.check(got == want, f'[{f}] {enc!r} decodes to {got!r}, not {want!r}')
    for b in (b'', b'\0', b'\0\0\0\0', b'~>', b'<~', b'>', bytes(range(256)), b'<~abc~>'):
        for fs in ([], ['ASCIIHexDecode'], ['ASCII85Decode'], ['FlateDecode'], ['ASCII85Decode', 'ASCIIHexDecode'], ['ASCIIHexDecode', 'ASCII85Decode', 'FlateDecode'], ['FlateDecode', 'FlateDecode']):
            d = {'/Filter': ['/' + f for f in fs]}
            enc = c.L.encode_stream(b, d)
            c.check(c.L.decode_stream(enc, d) == b, f'{fs}: decode(encode({b!r})) differs')
            c.check(refpdf.decode(Stm({N('Filter'): [N(f) for f in fs]}, enc)) == b, f'{fs}: a conforming decoder does not get {b!r} back')


def _huge(c):
    """Contents of tens of megabytes, encoded to little, and of megabytes that do not compress."""
    r = c.r
    noise = r.randbytes(1 << 20)
    for plain, fs in ((bytes(40 << 20) + noise, ['FlateDecode']), (noise * 3, ['FlateDecode']), (noise * 2, ['ASCIIHexDecode']), (noise, ['ASCII85Decode', 'FlateDecode'])):
        d = {'/Filter': ['/' + f for f in fs]}
        got = c.L.decode_stream(encode(r, plain, fs, [None] * len(fs)), d)
        c.check(got == plain, f'{fs}: {len(plain)} bytes of content decode to {len(got)} other bytes')
        enc = c.L.encode_stream(plain, d)
        c.check(refpdf.decode(Stm({N('Filter'): [N(f) for f in fs]}, enc)) == plain, f'{fs}: a conforming decoder does not get {len(plain)} bytes of content back')
        c.check(c.L.decode_stream(enc, d) == plain, f'{fs}: decode(encode(x)) differs for {len(plain)} bytes')


DIRECTED = {'png': _all_png, 'texts': _texts, 'huge': _huge}
