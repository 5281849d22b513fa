"""C02: serialized bytes are valid PDF syntax and read back as the same value.

Monitor: the output of serialize is read by the strict reference parser and by the library itself; both must give the value back."""
from ..lib import from_lib, to_lib, same, differ, short, enc_str, Name, Str, Ref, Stm, P
from .. import gen, refpdf

ID = 'C02'
QUICK, THOROUGH = 30000, 600000
SCALES, SCALED = gen.VALUES + ['stream'], 10
RULE = ('random values (all types, extreme numbers, deep nesting, every byte in strings and names, any generation, streams with hostile data) '
        'serialized, then parsed by the reference parser and by the library; non-trivial: a container, a stream or an extreme number')
NEED = {'oracle_checks': 5000, 'serialize': 3000, 'ctx:value': 500, 'ctx:stream': 500, 'ctx:reparse': 300, 'ctx:forge': 300}
N = gen.N


def strf(r):
    def f(b):
        x = r.random()
        if x < .4:
            return enc_str(b)
        if x < .6:
            return b'<' + b.hex().encode() + b'>'
        return gen.s_str(r, b, 2)
    return f


def extreme(r):
    return r.choice([2 ** 31 - 1, -2 ** 31, 2 ** 63, 10 ** 30, -10 ** 25, 1e-7, -1e-5, 1e16, 1e22, 123456789.123456, 5e-324, 1.7e308, 0.1 + 0.2,
                     -0.0, 1e-4, 3.4e38, -1.2e-38, 1.0, 1e15, 99999999999999990.0, 16777217.0, r.uniform(-1, 1) * 10 ** r.randint(-30, 30), float(r.randint(-10 ** 18, 10 ** 18))])


def deep(r, v, n):
    for _ in range(n):
        v = [v] if r.random() < .5 else {gen.g_name(r, 1): v}
        if r.random() < .2:
            v = [v, gen.g_scalar(r, 2, [Ref(3, 7)])] if r.random() < .5 or not isinstance(v, dict) else dict(v, Zz=[]) and {N('Zz'): [], **v}
    return v


def spoil(r, v):
    """Replace some numbers by extreme ones."""
    if isinstance(v, dict):
        return {k: spoil(r, x) for k, x in v.items()}
    if isinstance(v, list) and not isinstance(v, Ref):
        return [spoil(r, x) for x in v]
    if isinstance(v, (int, float)) and not isinstance(v, bool) and r.random() < .4:
        return extreme(r)
    return v


def both(c, text, want, where):
    try:
        got, e = refpdf.parse_value(text, refpdf.skip_ws(text, 0))
        e = refpdf.skip_ws(text, e)
    except refpdf.PdfError as x:
        c.fail(f'{where}: not valid PDF syntax: {x}', text=short(text, 1500), want=short(want))
    c.check(e == len(text), f'{where}: the text holds more than one object', text=short(text, 1500), want=short(want))
    c.check(same(want, got), lambda: f'{where}: a PDF parser reads another value: {differ(want, got)}', text=short(text, 1500), want=short(want))
    back = c.L.parse_obj(text)
    g = from_lib(back)
    c.check(same(want, g), lambda: f'{where}: the library reads another value back: {differ(want, g)}', text=short(text, 1500), want=short(want), got=short(back))
    return back


def read_indirect(c, text, want, where):
    body = b'%PDF-1.4\n'
    pos = len(body)
    body += b'7 3 obj\n' + text + b'\nendobj\n'
    body += b'xref\n0 1\n0000000000 65535 f \n7 1\n%010d 00003 n \ntrailer\n<</Size 8/Root 7 3 R>>\nstartxref\n%d\n%%%%EOF\n' % (pos, len(body))
    try:
        f = refpdf.RefPDF(body)
        got = f.get(7)
    except refpdf.PdfError as x:
        c.fail(f'{where}: not a valid stream object: {x}', text=short(text, 1500))
    c.check(same(want, got), lambda: f'{where}: a PDF parser reads another stream: {differ(want, got)}', text=short(text, 1500), want=short(want), got=short(got))
    bo, eo, k, d = c.L.parse_indirect_obj(body, pos)
    g = from_lib(d['obj'])
    c.check(same(want, g), lambda: f'{where}: the library reads another stream back: {differ(want, g)}', text=short(text, 1500), want=short(want), got=short(g))
    c.check((d['o_num'], d['o_gen']) == (7, 3), f'{where}: number {d["o_num"]},{d["o_gen"]}')
    return got, d['obj']


def case(c):
    r = c.r
    x = r.random()
    nums = [1, 2, Ref(5, 3), Ref(70000, 65535), Ref(8388607, 0), Ref(1, 1)]
    big = gen.large(*gen.VALUES)
    if big:
        x = r.choice([0, .6])
    size = None
    if gen.large('stream'):
        x, size = r.choice([.8, .9]), r.choice([1025, 4097, 9000, 33000, 65536, 131073])
    if x < .5:
        v = gen.large_value(r, big, 2, nums) if big else gen.g_value(r, 2, r.choice([0, 1, 3, 4]), nums)
        if r.random() < .4:
            v = spoil(r, v)
        if r.random() < .1:
            v = deep(r, v, r.choice([5, 20, 60]))
        lv = to_lib(v, strf(r))
        text = c.L.serialize(lv)
        c.digest(text)
        back = both(c, text, v, 'serialize')
        both(c, c.L.serialize(back), v, 'serialize(parse(serialize))')
        c.feat('ctx:value', type(v).__name__)
        if not isinstance(v, (list, dict)):
            c.trivial()
    elif x < .7:
        v = gen.large_value(r, big, 2, nums) if big else gen.g_value(r, 2, r.choice([1, 3, 4]), nums)
        spelled = gen.spell(r, v, 2)
        text = c.L.serialize(c.L.parse_obj(spelled))
        c.digest(spelled)
        both(c, text, v, 'serialize(parse)')
        c.feat('ctx:reparse')
    elif x < .86:
        st = gen.g_stream(r, {gen.g_name(r, 1): gen.g_value(r, 2, 2, nums) for _ in range(r.randint(0, 3))}, plain=gen.large_data(r, size) if size else None)
        d = dict(st.d)
        d[N('Length')] = len(st.raw)
        want = Stm(d, st.raw)
        lv = to_lib(Stm(d, st.raw, st.plain if st.plain is not None else b'?'), strf(r))
        text = c.L.serialize(lv)
        c.digest(text)
        got, back = read_indirect(c, text, want, 'serialize(stream)')
        c.feat('ctx:stream', f'len{min(len(st.raw), 3)}')
        if st.plain is not None:
            c.check(back['stream'] == st.plain, 'content of the stream read back differs', text=short(text, 900))
    else:
        st = gen.g_stream(r, plain=gen.large_data(r, size) if size else None, unsup=0)
        plain = st.plain
        d = {k: v for k, v in st.d.items() if k != N('Length')}
        d[N('Length')] = r.choice([-1, 0, 5, len(plain) + 1])
        entries = to_lib(d)
        s, ln = c.L.forge_stream(entries, plain)
        c.check(ln == len(s['encoded']), f'forge_stream returns length {ln} for {len(s["encoded"])} bytes', entries=short(entries))
        text = c.L.serialize(s)
        c.digest(text + plain)
        want = Stm({**d, N('Length'): len(s['encoded'])}, s['encoded'])
        got, back = read_indirect(c, text, want, 'serialize(forge_stream)')
        c.check(refpdf.decode(got) == plain, 'a PDF decoder reads other content in the forged stream', text=short(text, 900), want=short(plain))
        c.check(back['stream'] == plain, 'the library reads other content in the forged stream', text=short(text, 900), want=short(plain))
        c.feat('ctx:forge')
    c.sample(text)


def _one(v, lit=None):
    def f(c):
        text = c.L.serialize(to_lib(v) if lit is None else lit)
        c.digest(text)
        both(c, text, v, 'serialize')
        both(c, c.L.serialize([to_lib(v) if lit is None else lit, 1]), [v, 1], 'serialize in array')
        both(c, c.L.serialize({'/K': to_lib(v) if lit is None else lit, '/Z': 'null'}), {N('K'): v, N('Z'): None}, 'serialize in dict')
    return f


def _streams(c):
    for data in [b'', b'\n', b'\r', b'\r\n', b'endstream', b'\nendstream\nendobj\n', b'x\r', b'x\n', b'endstream\n', bytes(range(256)), b'stream\n', b'>>', b'%%EOF\n']:
        d = {N('Length'): len(data)}
        text = c.L.serialize(P.Stream({'/Length': len(data)}, data, data))
        read_indirect(c, text, Stm(d, data), f'stream {data[:20]!r}')


DIRECTED = {f'v{i}': _one(v) for i, v in enumerate([0, -1, 1e-7, -1e-10, 1e16, 1e22, 5e-324, 1.5e300, 0.1, 2 ** 64, True, False, None, [], {}, [[]], [{}], {N('A'): {}},
                                                    Str(b''), Str(b'()\\\r\n'), Str(bytes(range(256))), Name(b''), Name(bytes(range(1, 256))), Ref(1, 0), Ref(1, 65535), Ref(10 ** 6, 3),
                                                    [Ref(1, 0), Ref(2, 1), 3, 0, N('R')], [1, 0, N('R')], [True, None, False, 1.0, -1.5]])}
DIRECTED['raw_high_name'] = _one(Name(b'\xe9\xff'), '/\xe9\xff')
DIRECTED['streams'] = _streams
