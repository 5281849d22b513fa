"""C17: shown text decodes through its font to the right Unicode.

Monitor: documents with fonts of every supported kind are generated together with the Unicode value and width of each code; the fragments the library extracts from
random text-showing programs are compared in content order with the texts shown, their advances with the sum of the declared widths."""
from ..lib import Name, Str, Ref, Stm, from_lib, short
from .. import gen, docs, content
from . import c27

ID = 'C17'
QUICK, THOROUGH = 2200, 45000
SCALES, SCALED = ['commands', 'strings', 'fonts', 'pages'], 10
RULE = ('random pages whose simple and composite fonts use WinAnsi, MacRoman or generated ToUnicode maps (single, range and array mappings, several sections, ligatures, '
        'surrogates), strings shown by all four operators in literal and hexadecimal form; distinct: contents; non-trivial: a character outside ASCII')
NEED = {'oracle_checks': 40000, 'fragments': 15000, 'codes': 40000, 'advances': 12000, 'font:win': 300, 'font:mac': 150, 'font:tou1': 300, 'font:type0': 300, 'font:tou1mac': 150,
        'op:Tj': 2000, 'op:TJ': 2000, "op:'": 800, 'op:"': 800, 'spaced': 300, 'pages': 2500, 'same_name': 300, 'single_codes': 3000}
N = docs.N


def check_texts(c, shown, frags, where):
    c.check(len(frags) == len(shown), f'{where}: {len(frags)} fragments for {len(shown)} shown texts')
    for i, (s, f) in enumerate(zip(shown, frags)):
        c.count('fragments')
        want, got = s.text, f[1]
        big = any(not isinstance(p, Str) and p <= -0.7 * (s.font.width(32) if s.font.width(32) is not None else s.font.dw if s.font.n == 2 else 500) for p in s.parts)
        c.count('codes', sum(len(s.font.chars(p)) for p in s.parts if isinstance(p, Str)))
        if big:                     # a large shift may be rendered as spaces
            c.count('spaced')
            want, got = want.replace(' ', ''), got.replace(' ', '')
        c.check(got == want, lambda: f'{where}: fragment {i} ({s.op} {short(s.parts, 300)} in {s.font.kind} {s.font.name}) is {short(got)} instead of {short(want)}')
    c27.check_fragments(c, shown, frags, where)


def case(c):
    r, L = c.r, c.L
    book = c27.Book(c)
    progs = []
    shared = [content.Font(r, book.new) for _ in range(r.choice([1, 2, 3]))]
    npages = r.choice([12, 30]) if gen.large('pages') else r.choice([1, 1, 2, 3])
    many = gen.large('fonts')
    refs = [book.new(f.value) for f in shared]
    if npages > 1:
        c.count('same_name')
    for _ in range(npages):
        fonts, res = {}, {}
        for i in range(r.choice([12, 30, 50]) if many else r.choice([1, 2, 3])):
            n = N('F%d' % i)              # the same names stand for other fonts on other pages
            if r.random() < .5:
                k = r.randrange(len(shared))
                fonts[n], res[n] = shared[k], refs[k]
            else:
                f = content.Font(r, book.new)
                fonts[n] = f
                res[n] = book.new(f.value) if r.random() < .7 else f.value
        prog = content.Program(r, fonts, r.choice([8, 15, 30, 50]), adjust=r.choice([0, .3, 1]))
        wild = r.choice([0, 1, 2])
        book.page(res, [prog.spell(wild)] if r.random() < .7 else [p for p in pieces(r, prog, wild)])
        progs.append((prog, fonts))
        for a, op in prog.ops:
            if op in ('Tj', 'TJ', "'", '"'):
                c.count('op:' + op)
        for f in fonts.values():
            c.count('font:' + f.kind)
    doc = book.open()
    c.digest(book.file.data())
    order = list(range(npages))
    r.shuffle(order)
    allf = L.get_page_fonts(doc, list(range(npages))) if r.random() < .4 else None
    odd = False
    for i in order:
        prog, fonts = progs[i]
        c.count('pages')
        shown = content.interpret(prog.ops, fonts)
        odd |= any(not s.text.isascii() for s in shown)
        fs = [allf[i]] if allf else L.get_page_fonts(doc, [i])
        frags = L.build_text_fragments(L.get_page_contents(doc, i), fs)
        check_texts(c, shown, frags, f'page {i} of {npages}')
    # every code of one font on its own
    prog, fonts = progs[order[0]]
    name = r.choice(sorted(fonts))
    f = fonts[name]
    lf = L.get_page_fonts(doc, [order[0]])[0]
    key = '/' + name.decode()
    c.check(key in lf, f'font {key} is not among the fonts of page {order[0]}: {sorted(lf)}')
    for code in r.sample(sorted(f.codes), min(len(f.codes), 12)):
        b = code.to_bytes(f.n, 'big')
        s = gen.s_str(r, b, 2)
        c.count('single_codes')
        t, chars = L.do('decode', lambda: lf[key]['dec_fun'](s))
        c.check(t == f.codes[code], f'code {code:#x} spelled {s} in {f.kind} decodes to {t!r} instead of {f.codes[code]!r}')
        if f.width(code) is not None:
            w = L.do('width', lambda: sum(lf[key]['char_width'](x) for x in chars))
            c.check(abs(w - f.width(code)) < 1e-6, f'code {code:#x} in {f.kind} has width {w} instead of {f.width(code)}')
    if not odd:
        c.trivial()
    c.sample(f'{npages} pages, fonts {[x.kind for x in fonts.values()]}: ' + short(prog.ops, 300))


def pieces(r, prog, wild):
    for run in c27.split(r, prog.ops, r.randint(2, 4)):
        p = content.Program.__new__(content.Program)
        p.r, p.ops = r, run
        yield p.spell(wild)


def d_kind(kind):
    """All codes of one encoding in one string per code."""
    def f(c):
        r, L = c.r, c.L
        book = c27.Book(c)
        fonts = [content.Font(r, book.new, kind) for _ in range(4)]
        page = book.page({N('F%d' % i): f.value for i, f in enumerate(fonts)}, [b''])
        doc = book.open('table')
        lf = L.get_page_fonts(doc, [0])[0]
        for i, f in enumerate(fonts):
            for code in f.codes:
                b = code.to_bytes(f.n, 'big')
                s = r.choice([b'<' + b.hex().encode() + b'>', gen.s_lit(r, b, 2)])
                t, chars = L.do('decode', lambda: lf[f'/F{i}']['dec_fun'](s))
                c.check(t == f.codes[code], f'code {code:#x} spelled {s} in {kind} decodes to {t!r} instead of {f.codes[code]!r}')
                c.count('single_codes')
    return f


DIRECTED = {f'{k}': d_kind(k) for k in ['win', 'mac', 'tou1', 'type0', 'tou1mac']}
