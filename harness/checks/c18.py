"""C18: extracted page text keeps every fragment in reading order.

Monitor: pages are generated as lines of placed fragments, drawn in random order with random operators; the extracted text is compared, line by line and character by
character, with the lines an independent interpreter of the content derives; grids of fixed-pitch text, anywhere on the page, must come out as the same grid."""
from ..lib import Name, Str, Ref, short
from .. import gen, docs, content
from .c27 import Book

ID = 'C18'
QUICK, THOROUGH = 3000, 60000
SCALES, SCALED = ['lines', 'row', 'wide', 'grid', 'pages'], 8
RULE = ('random pages of 0-40 lines, several columns, font sizes and fonts, negative and huge coordinates, scaled and flipped coordinate systems, drawn in reading order, '
        'reverse or at random; distinct: contents; non-trivial: at least two fragments')
NEED = {'oracle_checks': 30000, 'lines': 9000, 'fragments': 20000, 'far': 4000, 'abut': 800, 'how:Tm': 2000, 'how:Td': 2000, 'how:T*': 500, "how:'": 500, 'how:cm': 2000, 'how:scaled': 2000,
        'how:flip': 2000, 'shuffled': 500, 'mixed_sizes': 500, 'negative': 500, 'sparse_column': 150, 'pages': 1500, 'other_units': 250, 'grids': 120, 'grid_blank_lines': 300}
N = docs.N


def plan(r):
    """[(y, [(x, size)])] from top to bottom."""
    kind = r.choice(['body', 'body', 'columns', 'sparse', 'random', 'random', 'title', 'single'])
    size = r.choice([6, 8, 9.5, 10, 12, 12, 24, 40])
    y = r.choice([792, 750, 700.5, 100, 0, -50, 5000, 12.25])
    left = r.choice([0, 36, 72, 72.5, -100, 300, -1, 0.5])
    n = r.choice([100, 256, 400]) if gen.large('lines') else r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])
    row = gen.large('row')
    lead = round(size * r.choice([1.05, 1.15, 1.2, 1.5, 2, 3]), 3)
    out = []
    for i in range(n):
        s = size
        if kind == 'title' and i == 0:
            s = size * r.choice([1.5, 2, 3])
        if kind == 'random':
            s = r.choice([size, size, size * .75, size * 1.5])
        if out:
            prev = min(q[1] for q in out[-1][1])
            gap = lead
            if kind in ('random', 'columns') and r.random() < .3:
                gap = round(lead * r.uniform(1, 5), r.choice([0, 2, 3]))
            gap = max(gap, 1.05 * min(s, prev))
            if kind == 'random':
                gap = max(gap, 1.05 * max(s, prev))
            y = round(y - gap, 6)
        if kind in ('body', 'title', 'single'):
            xs = [left + (r.choice([0, 0, 0, 18]) if kind == 'body' else 0)]
            if r.random() < .2:
                xs.append(left + r.randint(200, 400))
        elif kind == 'columns':
            xs = [left + 150 * k for k in range(r.choice([2, 3, 4])) if r.random() < .8] or [left]
        elif kind == 'sparse':
            xs = ([left] if i % 4 == 0 else []) + [left + 120 + round(r.uniform(0, 60), 2)]
        else:
            xs = sorted({round(left + r.uniform(0, 500), r.choice([0, 1, 3])) for _ in range(r.choice([1, 1, 2, 3, 6]))})
        if row:
            xs = [left + 90 * k for k in range(r.choice([30, 60, 100]))]
        out.append((y, [(x, s) for x in xs]))
    return kind, out


def draw(c, fonts, lines):
    """Operators drawing the planned fragments; consecutive shows may continue a fragment."""
    r = c.r
    items = [(x, y, s) for y, xs in lines for x, s in xs]
    order = r.choice(['reading', 'reading', 'reverse', 'shuffle', 'columns'])
    if order == 'reverse':
        items.reverse()
    elif order == 'shuffle':
        r.shuffle(items)
        c.count('shuffled')
    elif order == 'columns':
        items.sort(key=lambda t: (t[0], -t[1]))
    ops = []
    emit = lambda op, *a: ops.append((list(a), op))
    text = [False]
    state = {}

    def begin():
        if not text[0]:
            emit('BT')
            text[0] = True
            state['line'] = (0, 0)

    def end():
        if text[0]:
            emit('ET')
            text[0] = False

    def font(size):
        n = r.choice(list(fonts))
        if state.get('font') != (n, size) or r.random() < .2:
            emit('Tf', n, size)
            state['font'] = (n, size)
        return fonts[state['font'][0]]

    def words(f):
        k = r.choice([0, 1, 2, 3, 5, 8, 12]) if r.random() < .9 else 1
        return Str(f.string(k)[0])

    def show(f, op=None):
        op = op or r.choice(['Tj', 'Tj', 'TJ'])
        if op == 'TJ':
            a = []
            for _ in range(r.choice([1, 2, 3])):
                a.append(words(f))
                if r.random() < .5:
                    a.append(r.choice([-20, 15, -700, -30.5]))
            if r.random() < .9 and not isinstance(a[-1], Str):
                a.pop()
            emit('TJ', a)
        else:
            emit(op, words(f))
        if r.random() < .12:
            emit('Tj', words(f))
        elif r.random() < .05:
            emit('TJ', [-3000, words(f)])
    for x, y, s in items:
        how = r.choice(['Tm', 'Tm', 'Td', 'Td', 'cm', 'scaled', 'flip', 'T*', "'"])
        if how in ('T*', "'") and not (text[0] and abs(state['line'][0] - x) < 1e-9):
            how = 'Td'
        c.count('how:' + how)
        if how in ('cm', 'scaled', 'flip'):
            end()
            saved = dict(state)
            emit('q')
            if how == 'cm':
                ox, oy = r.choice([(0, 0), (10, -20), (300, 300.5)])
                emit('cm', 1, 0, 0, 1, ox, oy)
                begin()
                f = font(s)
                emit('Td', round(x - ox, 6), round(y - oy, 6))
            elif how == 'scaled':
                k = r.choice([2, .5, .1, 10])
                emit('cm', k, 0, 0, k, 0, 0)
                begin()
                m = r.choice([1, 1, 2])
                f = font(round(s / k / m, 6))
                emit('Tm', m, 0, 0, m, round(x / k, 6), round(y / k, 6))
            else:
                emit('cm', 1, 0, 0, -1, 0, 792)
                begin()
                f = font(s)
                emit('Tm', 1, 0, 0, -1, x, round(792 - y, 6))
            show(f)
            end()
            emit('Q')
            state.clear()
            state.update(saved)
            continue
        begin()
        f = font(s)
        if how == 'Tm':
            emit('Tm', 1, 0, 0, 1, x, y)
            state['line'] = (x, y)
        elif how == 'Td':
            lx, ly = state['line']
            dx, dy = round(x - lx, 6), round(y - ly, 6)
            emit('Td', dx, dy)
            state['line'] = (lx + dx, ly + dy)
        else:
            lx, ly = state['line']
            lead = round(ly - y, 6)
            emit('TL', lead)
            state['line'] = (lx, ly - lead)
            if how == 'T*':
                emit('T*')
                show(f)
            else:
                show(f, "'")
            continue
        show(f)
        if r.random() < .1:
            end()
    end()
    return ops


SPACE = str.isspace


def squeeze(s):
    return ''.join(ch for ch in s if not ch.isspace())


def expected(shown):
    """[(y, [Shown left to right])]"""
    rows = []
    for s in sorted(shown, key=lambda s: -s.trm[5]):
        if rows and abs(rows[-1][0] - s.trm[5]) < 1e-4:
            rows[-1][1].append(s)
        else:
            rows.append((s.trm[5], [s]))
    for y, row in rows:
        row.sort(key=lambda s: s.trm[4])
    return rows


def ambiguous(rows):
    for i, (y, row) in enumerate(rows):
        for a, b in zip(row, row[1:]):
            if b.trm[4] - a.trm[4] < 1e-3 and squeeze(a.text) and squeeze(b.text):
                return True
        if i:
            gap = rows[i - 1][0] - y
            if gap < min(abs(s.trm[0]) for s in row + rows[i - 1][1]) * .97:
                return True
    return False


def check_text(c, rows, out, where):
    c.check(isinstance(out, str), f'{where}: {short(out)}')
    want = [(row, ''.join(squeeze(s.text) for s in row)) for y, row in rows]
    want = [w for w in want if w[1]]
    got = [ln for ln in out.split('\n') if squeeze(ln)]
    for i in range(max(len(want), len(got))):
        g = squeeze(got[i]) if i < len(got) else None
        w = want[i][1] if i < len(want) else None
        c.check(g == w, lambda: f'{where}: line {i} of the extracted text is {short(g)} instead of {short(w)}')
    for (row, w), ln in zip(want, got):
        c.count('lines')
        c.count('fragments', len(row))
        sep, k = [False] * (len(w) + 1), 0      # sep[k]: white space before the k-th visible character
        for ch in ln:
            if ch.isspace():
                sep[k] = True
            else:
                k += 1
        k = 0
        prev, far = None, False
        for s in row:
            t = squeeze(s.text)
            if prev is not None:
                gap = s.trm[4] - prev.end[4]
                size = max(abs(s.trm[0]), abs(prev.trm[0]))
                if gap > max(6, .6 * size):
                    far = True
                if t and k and far:
                    c.count('far')
                    c.check(sep[k], lambda: f'{where}: no space before {short(s.text)}, {gap} away from what precedes, in {short(ln)}')
                elif t and k and abs(gap) < 1e-6 and squeeze(prev.text) and not prev.text[-1:].isspace() and not s.text[:1].isspace() and s.op != 'TJ' and prev.op != 'TJ':
                    c.count('abut')
                    c.check(not sep[k], lambda: f'{where}: {short(s.text)} directly follows {short(prev.text)} but is separated in {short(ln)}')
            if t:
                k += len(t)
                far = False
            prev = s


def case(c):
    r, L = c.r, c.L
    if gen.FORCE in ('grid', 'wide') or r.random() < .12:
        return grid_case(c)
    book = Book(c)
    fonts = {N('F%d' % i): content.Font(r, book.new, kind=r.choice(['win', 'win', 'mac', 'tou1', 'type0'])) for i in range(r.choice([1, 1, 2]))}
    res = {n: book.new(f.value) for n, f in fonts.items()}
    pages = []
    for _ in range(r.choice([12, 25]) if gen.large('pages') else r.choice([1, 1, 2, 3])):
        kind, lines = plan(r)
        ops = draw(c, fonts, lines)
        if r.random() < .15:                # the whole page in other units
            k = r.choice([.001, .01, .05, .3, 4, 20])
            ops = [([k, 0, 0, k, 0, 0], 'cm')] + ops
            c.count('other_units')
        shown = content.interpret(ops, fonts)
        rows = expected(shown)
        if ambiguous(rows):
            ops, shown, rows = [], [], []
        if kind == 'sparse' and len(rows) > 8:
            c.count('sparse_column')
        if len({round(s.trm[0], 3) for s in shown}) > 1:
            c.count('mixed_sizes')
        if any(s.trm[4] < 0 or s.trm[5] < 0 for s in shown):
            c.count('negative')
        chunks = []
        for run in content_split(r, ops):
            p = content.Program.__new__(content.Program)
            p.r, p.ops = r, run
            chunks.append(p.spell(r.choice([0, 1])))
        book.page(res, chunks)
        pages.append((rows, chunks))
    doc = book.open()
    if sum(len(row) for rows, _ in pages for y, row in rows) < 2:
        c.trivial()
    c.digest(repr([ch for _, ch in pages]))
    order = list(range(len(pages)))
    r.shuffle(order)
    for i in order + order[:1]:
        rows, chunks = pages[i]
        c.count('pages')
        check_text(c, rows, L.extract_page_text(doc, i), f'page {i} of {len(pages)}, contents {short(b" | ".join(chunks), 900)}')
    if pages[0][0]:
        c.sample(short(b'|'.join(pages[0][1]), 500))


def content_split(r, ops):
    k = r.choice([1, 1, 1, 2, 4])
    cuts = sorted(r.randint(0, len(ops)) for _ in range(k - 1))
    return [ops[a:b] for a, b in zip([0] + cuts, cuts + [len(ops)])]


def fixed(c, text, want):
    book = Book(c)
    font = {N('Type'): N('Font'), N('Subtype'): N('Type1'), N('BaseFont'): N('Courier'), N('Encoding'): N('WinAnsiEncoding'), N('FirstChar'): 32, N('LastChar'): 126, N('Widths'): [600] * 95}
    book.page({N('F1'): font, N('F2'): font}, [text])
    doc = book.open('table')
    out = [' '.join(ln.split()) for ln in c.L.extract_page_text(doc, 0).split('\n') if ln.strip()]
    c.check(out == want, f'{text}: extracted {out} instead of {want}')


def d_fixed(c):
    fixed(c, b'', [])
    fixed(c, b'BT /F1 12 Tf 72 700 Td (one) Tj ET', ['one'])
    fixed(c, b'BT /F1 12 Tf 72 100 Td (low) Tj 0 600 Td (high) Tj ET', ['high', 'low'])
    fixed(c, b'BT /F1 12 Tf 300 700 Td (right) Tj -228 0 Td (left) Tj ET', ['left right'])
    fixed(c, b'BT /F1 12 Tf 72 -1 Td (a) Tj 0 -20 Td (b) Tj 0 -200 Td (c) Tj ET', ['a', 'b', 'c'])
    fixed(c, b'BT /F1 12 Tf -1 50 Td (a) Tj -1 -20 Td (b) Tj 1 -20 Td (c) Tj ET', ['a', 'b', 'c'])
    fixed(c, b'BT /F1 10 Tf 12 TL 72 700 Td (a) Tj (b) \' T* (c) Tj 200 24 Td (d) Tj ET', ['a d', 'b', 'c'])
    # a column of labels every 60 units beside lines 12 units apart
    lines = b''.join(b'1 0 0 1 %d %d Tm (t%d) Tj ' % (200 + i % 5 * 3, 700 - 12 * i, i) for i in range(16))
    labels = b''.join(b'1 0 0 1 72 %d Tm (L%d) Tj ' % (700 - 60 * i, i) for i in range(4))
    fixed(c, b'BT /F1 10 Tf ' + lines + labels + b'ET', [('L%d ' % (i // 5) if i % 5 == 0 else '') + 't%d' % i for i in range(16)])
    # a large title with more characters than the text below it
    fixed(c, b'BT /F1 30 Tf 72 700 Td (A very long title here) Tj /F2 10 Tf 0 -20 Td (x) Tj 0 -12 Td (y) Tj 0 -12 Td (z) Tj ET', ['A very long title here', 'x', 'y', 'z'])
    fixed(c, b'BT /F1 12 Tf 72 700 Td (a) Tj (b) Tj (c) Tj ET', ['abc'])


MONO = {N('Type'): N('Font'), N('Subtype'): N('Type1'), N('BaseFont'): N('Courier'), N('Encoding'): N('WinAnsiEncoding'), N('FirstChar'): 32, N('LastChar'): 126, N('Widths'): [500] * 95}


def grid_case(c):
    """Text on a grid of a fixed-pitch font comes out on the same grid, wherever the grid is on the page."""
    r, L = c.r, c.L
    size = r.choice([12, 14, 20, 24, 40])
    w = size // 2
    lead = size + r.choice([0, 2, 5, size, .7, 1.5, 2.4, .9])
    rows = []
    word = lambda: ''.join(r.choice('abcdefghijXYZ019.,;') for _ in range(r.choice([1, 2, 3, 5, 9])))
    big, wide = gen.large('grid'), gen.large('wide')
    for _ in range(r.choice([60, 150]) if big else r.choice([1, 2, 4, 8])):
        row, col = [], 0
        for _ in range(r.choice([30, 80]) if wide else r.choice([1, 1, 2, 3, 5])):
            t = word()
            row.append((col, t))
            col += len(t) + r.choice([1, 2, 3, 10, 40])
        rows.append(row)
        for _ in range(r.choice([0, 0, 0, 1, 2, 3, 7, 12])):
            rows.append([])
    while rows and not rows[-1]:
        rows.pop()
    full = sum(map(len, rows)) + 3
    if r.random() < .2 and not big and not wide:      # only three lines tell the spacing
        rows = [[(3 * i + 1, word())] if row else [] for i, row in enumerate(rows[:20])]
        while rows and not rows[-1]:
            rows.pop()
        full = 3
        c.count('grids_of_three')
    tail = [[(0, word() + 'z')] for _ in range(full)]
    rows = rows + tail if r.random() < .5 else tail + rows
    at = r.choice([(72, 700), (-1, -1), (0, 0), (-500, -300), (-1 - w * r.randint(0, 9), -1 + int(lead) * r.randint(0, max(0, len(rows) - 1))), (r.randint(-300, 300), r.randint(-999, 999))])
    frags = [(at[0] + col * w, at[1] - i * lead, t) for i, row in enumerate(rows) for col, t in row]
    if r.random() < .5:
        r.shuffle(frags)
    k = r.choice([1, 1, 2])
    out = [b'BT /F1 %d Tf' % (size // k)]
    for x, y, t in frags:
        out.append(b'%d 0 0 %d %d %s Tm (%s) Tj' % (k, k, x, b'%d' % y if y == int(y) else b'%.1f' % y, t.encode()))
    out.append(b'ET')
    text = b' '.join(out)
    book = Book(c)
    book.page({N('F1'): MONO}, [text])
    doc = book.open('table')
    want = []
    for row in rows:
        s = ''
        for col, t in row:
            s = s.ljust(col) + t
        want.append(s)
    got = [ln.rstrip() for ln in L.extract_page_text(doc, 0).split('\n')]
    while got and not got[-1]:
        got.pop()
    c.count('grids')
    c.count('grid_blank_lines', want.count(''))
    c.digest(text)
    c.check(len(got) == len(want), lambda: f'a grid of {len(want)} lines, {lead} apart from {at}, comes out as {len(got)} lines: {short(got)} instead of {short(want)}; contents {short(text, 900)}')
    for i, (g, t) in enumerate(zip(got, want)):
        c.check(g == t, lambda: f'line {i} of a grid at {at} comes out as {short(g)} instead of {short(t)}; contents {short(text, 900)}')


def d_n(i):
    def f(c):
        c.r.seed(18000 + i)
        case(c)
    return f


DIRECTED = {'fixed': d_fixed, **{f'n{i}': d_n(i) for i in range(4)}}
