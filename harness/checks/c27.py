"""C27: content streams split into commands and place text correctly.

Monitor: generated programs of graphics and text operators, spelled at random, are split by the library and compared operator by operator; the matrices it reports
before and after each shown text are compared with an independent interpreter of the imaging model."""
from ..lib import Name, Str, Ref, Stm, Kw, from_lib, to_lib, short, same, P
from .. import gen, docs, content

ID = 'C27'
QUICK, THOROUGH = 3500, 70000
SCALES, SCALED = ['commands', 'strings', 'fonts', 'streams', 'saves'], 10
RULE = ('random legal programs over all text operators, graphics state operators, paths, marked content, inline images and comments, spelled with every white space and '
        'delimiter variant, in one or several content streams; distinct: program bytes; non-trivial: shows text')
NEED = {'oracle_checks': 100000, 'commands': 50000, 'shown': 12000, 'images': 80, 'saved_states': 3000, 'op:Tj': 2000, 'op:TJ': 2000, "op:'": 1000, 'op:"': 1000, 'op:TD': 1000,
        'op:T*': 800, 'op:cm': 2000, 'op:Tz': 500, 'op:Ts': 500, 'op:Tm': 1000, 'op:Td': 1000, 'documents': 300, 'advances': 8000}
N = docs.N


def check_commands(c, ops, got, where):
    """got: the library's list of commands."""
    want = [(a, op) for a, op in ops if op != 'IMAGE']
    seen, inside = [], False
    for cmd in got:
        c.check(isinstance(cmd, list) and cmd, f'{where}: command {short(cmd)}')
        if cmd[-1] == 'BI' or 'BI' in cmd:
            inside = True
        if not inside:
            seen.append(cmd)
        if cmd[-1] == 'EI':
            inside = False
    for i, (a, op) in enumerate(want):
        c.count('commands')
        c.check(i < len(seen), f'{where}: command {i} ({a} {op}) is missing')
        g = seen[i]
        c.check(g[-1] == op, lambda: f'{where}: command {i} is {short(g)} instead of {short(a)} {op}')
        x = from_lib(list(g[:-1]))
        c.check(same(x, a), lambda: f'{where}: command {i}: operands of {op}: {short(x)} instead of {short(a)}')
    c.check(len(seen) == len(want), lambda: f'{where}: unexpected command {short(seen[len(want)])}')


def close(a, b, scale):
    return all(abs(x - y) <= 1e-6 * max(1.0, scale) for x, y in zip(a, b))


def check_fragments(c, shown, frags, where, advance=True):
    c.check(len(frags) == len(shown), f'{where}: {len(frags)} fragments for {len(shown)} shown texts')
    for i, (s, f) in enumerate(zip(shown, frags)):
        c.count('shown')
        sc = max(map(abs, s.trm + s.end))
        c.check(close(f[0], s.trm, sc), lambda: f'{where}: fragment {i} ({s.op}) starts at {f[0]} instead of {s.trm}')
        if advance and s.exact:
            c.count('advances')
            c.check(close(f[2], s.end, sc), lambda: f'{where}: fragment {i} ({s.op}) ends at {f[2]} instead of {s.end}')


class Book:
    """Collects objects for a document of pages with fonts and contents."""

    def __init__(self, c):
        self.c, self.r = c, c.r
        self.doc = gen.Doc()
        self.alloc = gen.Alloc(c.r)
        self.cat = self.new({N('Type'): N('Catalog')})
        self.root = self.new({})
        self.doc.objs[self.cat.num] = (0, {N('Type'): N('Catalog'), N('Pages'): self.root})
        self.doc.trailer[N('Root')] = self.cat
        self.kids = []
        self.inherit = {}

    def new(self, v):
        n = self.alloc()
        self.doc.objs[n] = (0, v)
        return Ref(n, 0)

    def page(self, fonts, chunks, attrs=None):
        """fonts {Name: value or Ref}; chunks: list of content bytes."""
        r = self.r
        ind = lambda v, p=.25: self.new(v) if r.random() < p else v
        d = {N('Type'): N('Page'), N('Parent'): self.root, N('MediaBox'): [0, 0, 612, 792]}
        res = {}
        if fonts is not None:
            res[N('Font')] = ind(dict(fonts))
        res[N('ProcSet')] = [N('PDF'), N('Text')]
        d[N('Resources')] = ind(res)
        refs = [self.new(gen.g_stream(r, {}, plain=ch, unsup=0)) for ch in chunks]
        if len(refs) == 1 and r.random() < .6:
            d[N('Contents')] = refs[0]
        elif refs or r.random() < .3:
            d[N('Contents')] = ind(refs)
        d.update(attrs or {})
        ref = self.new(d)
        self.kids.append(ref)
        return ref

    def open(self, layout=None, linearized=False):
        c, r = self.c, self.r
        self.doc.objs[self.root.num] = (0, {N('Type'): N('Pages'), N('Kids'): self.kids, N('Count'): len(self.kids), **self.inherit})
        f = gen.File(r, wild=r.choice([0, 1]))
        f.revision(self.doc, self.alloc, layout or r.choice(gen.LAYOUTS))
        self.file = f
        return c.L.loads(f.data())


def split(r, ops, k):
    """Cut a program in k runs."""
    cuts = sorted(r.randint(0, len(ops)) for _ in range(k - 1))
    return [ops[a:b] for a, b in zip([0] + cuts, cuts + [len(ops)])]


def case(c):
    r, L = c.r, c.L
    book = Book(c)
    fonts = {N('F%d' % i): content.Font(r, book.new) for i in range(r.choice([15, 40]) if gen.large('fonts') else r.choice([1, 1, 2, 3]))}
    wild = r.choice([0, 1, 1, 2, 2])
    prog = content.Program(r, fonts)
    if gen.large('saves'):      # inside many saved states
        k = r.choice([30, 100, 300])
        prog.ops = [x for i in range(k) for x in [([], 'q'), ([1, 0, 0, 1, i % 3, 1], 'cm')]] + prog.ops + [([], 'Q')] * k
    data = prog.spell(wild)
    for a, op in prog.ops:
        c.count('op:' + op if op in 'Tj TJ \' " TD T* cm Tz Ts Tm Td'.split() else 'op:other')
    c.count('images', prog.images)
    c.count('saved_states', sum(op == 'q' for a, op in prog.ops))
    check_commands(c, prog.ops, L.parse_stream_content(data), short(data, 400))
    shown = content.interpret(prog.ops, fonts)
    if not shown:
        c.trivial()
    c.digest(data)
    c.sample(short(data, 500))
    k = r.choice([15, 40]) if gen.large('streams') else r.choice([1, 1, 2, 3, 5])
    runs = split(r, prog.ops, k)
    chunks = []
    for run in runs:
        p = content.Program.__new__(content.Program)
        p.r, p.ops = r, run
        chunks.append(p.spell(wild))
    page = book.page({n: book.new(f.value) if r.random() < .8 else f.value for n, f in fonts.items()}, chunks)
    doc = book.open()
    c.count('documents')
    where = f'{len(chunks)} content stream(s) {short(b" | ".join(chunks), 500)}'
    pcs = L.get_page_contents(doc, 0)
    c.check([s['stream'] for s in pcs] == chunks, lambda: f'{where}: page contents {short([s["stream"] for s in pcs])}')
    frags = L.build_text_fragments(pcs, L.get_page_fonts(doc, [0]))
    check_fragments(c, shown, frags, where)


def d_fixed(c):
    """Hand-written programs with known positions."""
    L = c.L
    tests = [
        (b'BT /F1 10 Tf 100 200 Td (a) Tj ET', [(100, 200)]),
        (b'BT /F1 10 Tf 14 TL 100 200 Td (a) Tj T* (b) Tj (c) \' 0 0 (d) " ET', [(100, 200), (100, 186), (100, 172), (100, 158)]),
        (b'BT /F1 10 Tf 100 200 TD 0 -12 TD (a) Tj T* (b) Tj ET', [(100, 188), (100, 176)]),
        (b'q 1 0 0 1 10 20 cm q 2 0 0 2 0 0 cm BT /F1 10 Tf 5 6 Td (a) Tj ET Q BT /F1 10 Tf 5 6 Td (b) Tj ET Q BT /F1 10 Tf 5 6 Td (c) Tj ET', [(20, 32), (15, 26), (5, 6)]),
        (b'BT /F1 10 Tf 1 0 0 1 7 8 Tm (a) Tj 3 Ts (b) Tj 0 Ts 1 0 0 1 7 8 Tm 1 1 Td (c) Tj ET BT (d) Tj ET', [(7, 8), (12, 11), (8, 9), (0, 0)]),
        (b'/F1 10 Tf 50 Tz BT (a) Tj (b) Tj ET 100 Tz 2 Tc BT (a) Tj (b) Tj ET 0 Tc BT [(a) -1000 (b)] TJ (c) Tj ET', [(0, 0), (2.5, 0), (0, 0), (7, 0), (0, 0), (20, 0)]),
        (b'q /F1 20 Tf 3 Tc Q /F1 10 Tf BT (a) Tj (b) Tj ET', [(0, 0), (5, 0)]),
        (b'BT/F1 10 Tf(a)Tj<62>Tj[(c)]TJ/F1 5 Tf(d)Tj ET', [(0, 0), (5, 0), (10, 0), (15, 0)]),
    ]
    book = Book(c)
    for t, _ in tests:
        book.page({N('F1'): {N('Type'): N('Font'), N('Subtype'): N('Type1'), N('BaseFont'): N('Courier'), N('Encoding'): N('WinAnsiEncoding'), N('FirstChar'): 32, N('LastChar'): 126, N('Widths'): [500] * 95}}, [t])
    doc = book.open('table')
    for i, (t, want) in enumerate(tests):
        fr = L.build_text_fragments(L.get_page_contents(doc, i), L.get_page_fonts(doc, [i]))
        got = [(round(f[0][4], 6), round(f[0][5], 6)) for f in fr]
        c.check(got == [(float(x), float(y)) for x, y in want], f'{t}: positions {got} instead of {want}')


def d_n(i):
    def f(c):
        c.r.seed(27000 + i)
        case(c)
    return f


DIRECTED = {'fixed': d_fixed, **{f'n{i}': d_n(i) for i in range(4)}}
