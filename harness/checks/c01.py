"""C01: parsing returns exactly the value that valid PDF syntax denotes.

Monitor: every value handed out by the parser on a generated spelling is compared with the value the spelling was made
from (and with an independent parser); consumed extents are compared with the true extents."""
from ..lib import from_lib, same, differ, short, Name, Str, Ref, Stm
from .. import gen, refpdf

ID = 'C01'
QUICK, THOROUGH = 40000, 800000
SCALES, SCALED = gen.VALUES, 10
RULE = ('random object-model values (all types, nested to depth 4) in random legal spellings, parsed alone, inside an indirect object, '
        'inside an object stream and as stream dictionaries; non-trivial: a container, a stream or a string/name needing escapes')
NEED = {'oracle_checks': 2000, 'ctx:alone': 100, 'ctx:indirect': 100, 'ctx:objstm': 50, 'ctx:stream': 100}
N = gen.N


def need(t):
    return gen._reg(t[-1]) or t[-1] == 0x2f


def kinds(v, out, depth=0):
    out.add(f'{type(v).__name__}@{min(depth, 3)}')
    if isinstance(v, dict):
        for x in v.values():
            kinds(x, out, depth + 1)
    elif isinstance(v, list) and not isinstance(v, Ref):
        for x in v:
            kinds(x, out, depth + 1)
    elif isinstance(v, Stm):
        kinds(v.d, out, depth)


def compare(c, got, want, text, where):
    g = from_lib(got)
    c.check(same(want, g), lambda: f'{where}: parsed value differs: {differ(want, g)}', text=short(text, 1500), want=short(want), got=short(got))


def alone(c, v, text, tail):
    compare(c, c.L.parse_obj(text + tail), v, text + tail, 'parse_obj')
    pre = c.r.choice([b'', b' ', b'\n', b'<</X 1>> ', b'( ', b'[1 2]'])
    compare(c, c.L.parse_obj(pre + text + tail, len(pre)), v, pre + text + tail, 'parse_obj at offset')


def indirect(c, v, text, stm=None):
    r = c.r
    num, g = r.choice([1, 7, 12, 999, 123456]), r.choice([0, 0, 1, 65535])
    pre = r.choice([b'', b'endobj\n', b'\n', b'%%EOF\n', b'x '])
    head = b'%d' % num + gen.s_ws(r, 1, True) + b'%d' % g + gen.s_ws(r, 1, True) + b'obj'
    sep = gen.s_ws(r, 2, gen._reg(text[0]))
    body = head + sep + text
    body += gen.s_ws(r, 2, need(body)) + b'endobj'
    whole = pre + body + r.choice([b'', b'\n', b' 4 0 obj', b'\r\n5 0 obj <</A 1>> endobj'])
    bo, eo, kind, d = c.L.parse_indirect_obj(whole, len(pre))
    c.check(d['o_num'] == num and d['o_gen'] == g, f'parse_indirect_obj: number {d["o_num"]} {d["o_gen"]} instead of {num} {g}', text=short(whole))
    compare(c, d['obj'], v, whole, 'parse_indirect_obj')
    bo, eo, kind, d = c.L.parse_region(whole, len(pre))
    c.check(kind == 'IND_OBJ' and (bo, eo) == (len(pre), len(pre) + len(body)),
            f'parse_region: extent {bo, eo} kind {kind} instead of {len(pre), len(pre) + len(body)}', text=short(whole, 900))
    compare(c, d['obj'], v, whole, 'parse_region')


def case(c):
    r = c.r
    wild = r.choice([0, 1, 2, 2, 2, 2])
    x = r.random()
    ks = set()
    big = gen.large(*gen.VALUES)
    if big:
        x = r.choice([0, .6, .8])
    value = lambda depth, nums: gen.large_value(r, big, wild, nums) if big else gen.g_value(r, wild, depth, nums)
    if x < .55:
        v = value(r.choice([0, 1, 3, 4]), [1, 2, Ref(5, 3), Ref(70000, 65535)])
        text = gen.spell(r, v, wild)
        c.digest(text)
        alone(c, v, text, r.choice([b'', b' ', b'\n', b'/', b'>>', b']', b'(x)', b'%c\n', b'<', b'[']) if need(text) else r.choice([b'', b' ', b'x', b'(', b'>>']))
        c.feat('ctx:alone')
        if isinstance(v, (int, float, Name)) and not isinstance(v, Ref) or v in (True, False, None):
            c.trivial()
    elif x < .75:
        v = value(r.choice([0, 1, 3]), [1, Ref(5, 3)])
        text = gen.spell(r, v, wild)
        c.digest(text)
        indirect(c, v, text)
        c.feat('ctx:indirect')
    elif x < .87:
        n = r.randint(1, 8)
        items = []
        num = 0
        for _ in range(n):
            num += r.randint(1, 3)
            v = value(r.choice([0, 0, 2, 3]), [1, Ref(5, 3)])
            items.append((num, v))
        r.shuffle(items)
        body, offs = bytearray(), []
        for k, (num, v) in enumerate(items):
            t = gen.spell(r, v, wild)
            offs += [num, len(body)]
            body += t
            last = k == n - 1
            if not last:
                body += gen.s_ws(r, wild, True) if need(t) or r.random() < .7 else b''
            elif r.random() < .5:
                body += b'\n'
        head = b' '.join(b'%d' % o for o in offs) + r.choice([b' ', b'\n', b'\r\n'])
        data = bytes(head + body)
        st = c.lib.P.Stream({'/Type': '/ObjStm', '/N': n, '/First': len(head)}, data, data)
        _, _, kind, lst = c.L.parse_object_stream(st, 33)
        c.check(kind == 'OBJSTREAM' and len(lst) == n, f'parse_object_stream lists {len(lst)} objects instead of {n}', text=short(data, 1500))
        for (num, v), e in zip(items, lst):
            c.check(e[0] == num and e[2] == 33, f'parse_object_stream: object number {e[0]} instead of {num}', text=short(data, 1500))
            compare(c, e[1], v, data, f'object {num} of the object stream')
            ks |= set()
            kinds(v, ks)
        c.digest(data)
        v = None
        c.feat('ctx:objstm')
    else:
        st = gen.g_stream(r, {gen.g_name(r, 1): gen.g_value(r, wild, 2, [1]) for _ in range(r.randint(0, 3))})
        d = dict(st.d)
        d[N('Length')] = len(st.raw)
        items = list(d.items())
        r.shuffle(items)
        v = Stm(dict(items), st.raw)
        t = gen.spell(r, v.d, wild)
        t += gen.s_ws(r, min(wild, 2), False) + b'stream' + r.choice([b'\n', b'\r\n']) + v.raw
        t += r.choice([b'\n', b'\r\n', b'\r', b'']) + b'endstream'
        c.digest(t)
        s = c.L.parse_obj(t)
        compare(c, s, v, t, 'parse_obj(stream)')
        if st.plain is not None:
            c.check(s['stream'] == st.plain, 'decoded stream content differs', text=short(t, 900), want=short(st.plain), got=short(s['stream']))
        indirect(c, v, t)
        c.feat('ctx:stream')
    if v is not None:
        kinds(v, ks)
    c.feat(*ks)
    c.feat(f'wild{wild}')
    c.sample(locals().get('text') or locals().get('data') or locals().get('t'))


TEXTS = [
    b'true', b'false', b'null', b'0', b'-0', b'+17', b'-98', b'34.5', b'-3.62', b'+123.6', b'4.', b'-.002', b'.5', b'00012', b'/',
    b'/A;Name_With-Various***Characters?', b'/1.2', b'/$$', b'/@pattern', b'/.notdef', b'/A#42', b'/Lime#20Green', b'/paired#28#29parentheses',
    b'(This is a string)', b'(Strings may contain balanced parentheses ( ) and\nspecial characters ( * ! & } ^ % and so on ) .)',
    b'()', b'(\\))', b'(\\\\)', b'(\\()', b'(a\\\\)', b'(a\\\\\\))', b'((()))', b'(\\0533)', b'(\\053)', b'(\\53)', b'(line\\\nbreak)',
    b'<4E6F762073686D6F7A206B6120706F702E>', b'<901FA>', b'<>', b'< 9 0\n1f >', b'[549 3.14 false (Ralph) /SomeName]', b'[]', b'[[]]', b'[[][[]]]', b'[/A/B(c)<41>[1]<</D 1>>]',
    b'[1 0 R]', b'[1 0 R 2 0 R]', b'[1 2 0 R 3]', b'[1 2 3 0 R 4 5]', b'[1 0 R/R 2]', b'12 3 R', b'[/R 1 2 /R]', b'[(])]', b'[(\\])]', b'[(()])]', b'[(a(b)c])]', b'[(\\)])]', b'[%]\n1]', b'[1%[\n]',
    b'[<5D>]', b'[<</A[1]>>]', b'<<>>', b'<</A<<>>>>', b'<</A/B>>', b'<</A(>>)>>', b'<</A(<<)/B 2>>', b'<</A<41>>>', b'<</A<41>/B<42>>>', b'<</A%>>\n1>>', b'<</A 1%<<\n/B 2>>',
    b'<</A[1 0 R 2 3 R]/B 4 5 R>>', b'<</A 1/B null/C true>>', b'<</A[<</B(])>>]>>', b'<</K(a\\)>>b)>>', b'[<</A(])/B[(>>)]>>]', b'<< /Type /Example /Subdictionary << /Item1 0.4 /Item2 true >> >>',
    b'<</A()/B<>/C[]/D<<>>/E/ /F 1>>', b'[()()]', b'[true false null]', b'[true/A false(x)null]', b'[-1+2 .5-.5]'[:0] or b'[-1 +2 .5 -.5]', b'<</A true>>', b'<</A false/B null>>', b'<</A -1>>', b'<</A 1.5>>',
    b'[1 0 R]%c', b'<</a 1 0 R>>%', b'[ %c]\n1]', b'[ 1 0 R\n]', b'[0 0 R]', b'<</S(stream)/E(endstream)>>', b'[/stream/endobj]', b'[(%)1]', b'[(\\\\)1]', b'[(\\\\\\()1]', b'<</A(\\\\)>>', b'<</A(\\\\)/B(>>)>>',
    b'[<</A<</B<</C<</D[[[[1]]]]>>>>>>>>]', b'[12 0 R 13 1 R 14 65535 R]', b'/A', b'(\xfe\xff\x00\x29)'[:0] or b'(\xfe\xff\x00a)', b'<FEFF0041>', b'[/A<</B 1>>/C]', b'<</A[(>>)]>>',
]


def _directed(t):
    def f(c):
        want, _ = refpdf.parse_value(t, 0)
        c.digest(t)
        c.sample(t)
        for tail in (b'', b' ', b'\n'):
            compare(c, c.L.parse_obj(t + tail), want, t + tail, 'parse_obj')
        if not t.startswith(b'%'):
            indirect(c, want, t) if b'%' not in t[-3:] else None
        compare(c, c.L.parse_obj(b'[' + t + b'\n]'), [want], b'[' + t + b'\n]', 'parse_obj in array')
        compare(c, c.L.parse_obj(b'<</K ' + t + b'\n/Z 1>>'), {N('K'): want, N('Z'): 1}, b'<</K ' + t + b'\n/Z 1>>', 'parse_obj in dict')
    return f


DIRECTED = {f't{i}': _directed(t) for i, t in enumerate(TEXTS)}
