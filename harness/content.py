"""Generator of fonts and content streams, and an independent interpreter of the text operators (ISO 32000, 8.3-8.4 and 9.3-9.4)."""
from .refpdf import Name, Str, Ref, Stm
from . import gen

N = gen.N
WIN = {b: bytes([b]).decode('cp1252') for b in range(0x20, 0x100) if b not in (0x7f, 0x81, 0x8d, 0x8f, 0x90, 0x9d, 0xa0, 0xad)}
MAC = {b: bytes([b]).decode('mac_roman') for b in range(0x20, 0x100)
       if b not in (0x7f, 0xad, 0xb0, 0xb2, 0xb3, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xbd, 0xc3, 0xc5, 0xc6, 0xca, 0xd7, 0xdb, 0xf0)}


class Font:
    """value: the font dictionary (objects are created through new); codes {code: text}; width(code); n bytes per code."""

    def __init__(self, r, new, kind=None, name=None, multi=True):
        self.r = r
        self.kind = kind or r.choice(['win', 'win', 'mac', 'tou1', 'tou1', 'type0', 'type0', 'tou1mac'])
        self.n = 2 if self.kind == 'type0' else 1
        self.name = name or r.choice(['Helvetica', 'Courier', 'ABCDEF+Some', 'Times-Roman']) + str(r.randrange(10 ** 5))
        self.multi = multi
        ind = lambda v: new(v) if r.random() < .3 else v
        d = {N('Type'): N('Font'), N('BaseFont'): ind(N(self.name))}
        if self.kind == 'type0':
            self.type0(d, new, ind)
        else:
            self.simple(d, new, ind)
        self.value = d

    def simple(self, d, new, ind):
        r = self.r
        d[N('Subtype')] = ind(N(r.choice(['Type1', 'TrueType', 'TrueType', 'Type3', 'MMType1'] if self.kind not in ('win', 'mac') else ['Type1', 'TrueType'])))
        if self.kind == 'win':
            codes = WIN
            d[N('Encoding')] = ind(N('WinAnsiEncoding'))
        elif self.kind == 'mac':
            codes = MAC
            d[N('Encoding')] = ind(N('MacRomanEncoding'))
        else:
            if self.kind == 'tou1mac' or r.random() < .3:
                d[N('Encoding')] = N('MacRomanEncoding')
            elif r.random() < .3:
                d[N('Encoding')] = ind({N('Type'): N('Encoding'), N('Differences'): [32, N('g1'), N('g2')]})
            codes = None
        if r.random() < .5:
            first, last = 32, 255
        else:
            first = r.choice([0, 1, 31, 33, 65, 128, 200]) if codes is None else r.choice([32, 33, 65, 128, 200])
            last = min(255, first + r.choice([0, 1, 5, 30, 90, 200]))
        if self.kind in ('tou1', 'tou1mac') and r.random() < .2:
            first, last = 0, 255
        self.w = {}
        if r.random() < .85 or codes is None:
            ws = [r.choice([0, 250, 278, 500, 600, 1000, round(r.uniform(100, 1200), 2), r.randint(1, 2000)]) for _ in range(first, last + 1)]
            self.w = dict(zip(range(first, last + 1), ws))
            d[N('FirstChar')] = ind(first)
            d[N('LastChar')] = ind(last)
            d[N('Widths')] = ind([new(x) if r.random() < .03 else x for x in ws])
        if codes is None:
            self.codes, cmap = tounicode(r, first, last, 1, self.multi)
            d[N('ToUnicode')] = new(cmap)
        else:
            self.codes = {c: t for c, t in codes.items() if not self.w or c in self.w}
            if not self.codes:
                self.codes = dict(codes)
                self.w = {}
                for k in ('FirstChar', 'LastChar', 'Widths'):
                    d.pop(N(k), None)
        add_nulls(r, d, 'FirstChar', 'LastChar', 'Widths', 'DescendantFonts', 'Encoding', 'ToUnicode')

    def type0(self, d, new, ind):
        r = self.r
        d[N('Subtype')] = ind(N('Type0'))
        d[N('Encoding')] = ind(N('Identity-H'))
        first = r.choice([0, 1, 3, 100, 255, 256, 0x1234, 0xff00, 0xfff8, 0xffff])
        last = min(65535, first + r.choice([0, 3, 40, 255, 300]))
        self.codes, cmap = tounicode(r, first, last, 2, self.multi)
        d[N('ToUnicode')] = new(cmap)
        dw = 1000
        c = {N('Type'): N('Font'), N('Subtype'): N('CIDFontType2'), N('BaseFont'): N(self.name), N('CIDSystemInfo'): {N('Registry'): Str(b'Adobe'), N('Ordering'): Str(b'Identity'), N('Supplement'): 0}}
        if r.random() < .6:
            dw = r.choice([0, 500, 1000, 333.3, 750])
            c[N('DW')] = ind(dw)
        self.w = dict.fromkeys(range(first, last + 1), dw)
        self.dw = dw
        w, k = [], first
        while k <= last and r.random() < .9:
            k += r.choice([0, 0, 1, 5])
            if k > last:
                break
            m = min(r.choice([1, 2, 5, 20]), last - k + 1)
            if r.random() < .5:
                ws = [r.choice([0, 250, 500, 1000, round(r.uniform(1, 1500), 1)]) for _ in range(m)]
                w += [k, new(ws) if r.random() < .15 else ws]
                self.w.update(zip(range(k, k + m), ws))
            else:
                x = r.choice([250, 500, 777, 333.25])
                w += [k, k + m - 1, x]
                self.w.update(dict.fromkeys(range(k, k + m), x))
            k += m
        if w or r.random() < .5:
            c[N('W')] = ind(w)
        add_nulls(r, c, 'W', 'DW')
        add_nulls(r, d, 'Widths', 'FirstChar')
        d[N('DescendantFonts')] = ind([new(c)])

    def width(self, code):
        """Declared width or None."""
        return self.w.get(code)

    def string(self, k=None, space=True):
        """(bytes, text) of k random codes."""
        r = self.r
        k = k if k is not None else r.choice([0, 1, 1, 2, 3, 5, 8, 20])
        pool = sorted(self.codes)
        if r.random() < .5:
            a = [c for c in pool if c < 128]
            pool = a or pool
        cs = [r.choice(pool) for _ in range(k)]
        if space and self.n == 1 and 32 in self.codes and cs and r.random() < .4:
            cs[r.randrange(len(cs))] = 32
        return b''.join(c.to_bytes(self.n, 'big') for c in cs), ''.join(self.codes[c] for c in cs)

    def chars(self, b):
        return [int.from_bytes(b[i:i + self.n], 'big') for i in range(0, len(b), self.n)]


def add_nulls(r, d, *keys, p=.06):
    """Null entries, the same as absent ones."""
    for k in keys:
        if N(k) not in d and r.random() < p:
            d[N(k)] = None


def tounicode(r, first, last, n, multi=True):
    """(code -> text, CMap stream) with every code of first..last mapped by single mappings or ranges."""
    codes = {}
    chars, ranges = [], []
    hexc = lambda c: '<' + (('%0' + str(2 * n) + 'X') % c if r.random() < .6 else ('%0' + str(2 * n) + 'x') % c) + '>'

    def target():
        x = r.random()
        if x < .5:
            return chr(r.choice([r.randint(0x20, 0x7e), r.randint(0xa1, 0x17f), r.randint(0x391, 0x3c9), r.randint(0x4e00, 0x9fa0), 0xfb01]))
        if x < .6 and multi:
            return ''.join(r.choice('fil') for _ in range(r.randint(2, 3)))
        if x < .7 and multi:
            return chr(r.randint(0x1f600, 0x1f64f))
        return chr(r.randint(0x30, 0x7a))

    def hext(t):
        h = t.encode('utf-16be').hex()
        return '<' + (h.upper() if r.random() < .6 else h) + '>'
    c = first
    while c <= last:
        left = last - c + 1
        x = r.random()
        if left == 1 or x < .3:
            t = target()
            codes[c] = t
            chars.append((hexc(c), hext(t)))
            c += 1
            continue
        m = r.randint(2, min(left, r.choice([3, 20, 96, 256])))
        m = min(m, 256 - (c & 255))          # a range does not cross the last byte
        if m < 2:
            m = 1
        if x < .6:
            ts = [target() for _ in range(min(m, 12))]
            m = len(ts)
            ranges.append((hexc(c), hexc(c + m - 1), '[' + r.choice(['', ' ']).join(hext(t) for t in ts) + ']'))
            for i, t in enumerate(ts):
                codes[c + i] = t
        else:
            base = r.choice([0x20, 0x41, 0xa1, 0x391, 0x4e00, 0x1f300 if multi else 0x41])
            if base < 0x100 and base + m > 0x7f and base < 0x7f:
                m = max(1, 0x7f - base)
            m = min(m, 256 - (base & 255))
            pre = 'x' if multi and r.random() < .1 else ''
            ranges.append((hexc(c), hexc(c + m - 1), hext(pre + chr(base))))
            for i in range(m):
                codes[c + i] = pre + chr(base + i)
        c += m
    secs = []
    r.shuffle(chars)
    r.shuffle(ranges)
    while chars:
        k = r.randint(1, min(100, len(chars)))
        secs.append(f'{k} beginbfchar\n' + '\n'.join(f'{a} {b}' if r.random() < .9 else f'{a}{b}' for a, b in chars[:k]) + '\nendbfchar\n')
        chars = chars[k:]
    while ranges:
        k = r.randint(1, min(100, len(ranges)))
        secs.append(f'{k} beginbfrange\n' + '\n'.join(r.choice([' ', ' ', '']).join(t) for t in ranges[:k]) + '\nendbfrange\n')
        ranges = ranges[k:]
    r.shuffle(secs)
    top = 'F' * (2 * n)
    head = '/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n'
    if r.random() < .7:
        head += '/CIDSystemInfo\n<< /Registry (Adobe)\n/Ordering (UCS)\n/Supplement 0\n>> def\n'
    if r.random() < .2:
        head = '%!PS-Adobe-3.0 Resource-CMap\n%%EndComments\n' + head
    head += '/CMapName /Adobe-Identity-UCS def\n/CMapType 2 def\n'
    head += f'1 begincodespacerange\n<{"0" * 2 * n}> <{top}>\nendcodespacerange\n'
    tail = 'endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend'
    if r.random() < .15:
        head, tail = head[head.index('1 begincodespace'):], 'endcmap'
    txt = (head + ''.join(secs) + tail).encode()
    return codes, gen.g_stream(r, {}, plain=txt, unsup=0)


# ---------------------------------------------------------------- programs

def num(r, lo=-300, hi=300):
    x = r.random()
    if x < .5:
        return r.randint(lo, hi)
    return round(r.uniform(lo, hi), r.choice([1, 2, 3, 4]))


def matrix(r):
    x = r.random()
    if x < .4:
        return [1, 0, 0, 1, num(r), num(r)]
    if x < .6:
        s = r.choice([.5, 2, 1.25, 12, .1])
        return [s, 0, 0, s, num(r), num(r)]
    if x < .75:
        return [1, 0, 0, -1, num(r), num(r)]
    if x < .85:
        return [0, 1, -1, 0, num(r), num(r)]
    return [round(r.uniform(-2, 2), 3) for _ in range(4)] + [num(r), num(r)]


NOISE = [(4, 're'), (2, 'm'), (2, 'l'), (6, 'c'), (0, 'f'), (0, 'f*'), (0, 'S'), (0, 's'), (0, 'n'), (0, 'W'), (0, 'W*'), (0, 'B'), (0, 'b*'), (3, 'rg'), (1, 'g'), (1, 'w'), (4, 'K'), (1, 'j'), (0, 'h'), (1, 'i')]


class Program:
    """ops: list of (operands, operator); legal nesting of BT/ET and q/Q."""

    def __init__(self, r, fonts, n=None, noise=True, simple=False, adjust=1.0):
        self.r, self.fonts, self.noise, self.adjust = r, fonts, noise, adjust
        self.ops = []
        self.images = 0
        self.long = gen.large('strings') is not None
        self.run(r.choice([400, 800, 1500]) if gen.large('commands') else n or r.choice([5, 10, 20, 40, 80]))

    def emit(self, op, *a):
        self.ops.append((list(a), op))

    def show(self, f):
        r = self.r
        k = r.choice(['Tj', 'Tj', 'TJ', 'TJ', "'", '"'])
        if k == 'TJ':
            a = []
            for _ in range(r.choice([50, 200, 300]) if self.long and r.random() < .2 else r.choice([0, 1, 2, 3, 6])):
                if r.random() < .5:
                    a.append(Str(f.string()[0]))
                else:
                    a.append(r.choice([0, r.randint(-40, 40), round(r.uniform(-40, 40), 2), r.randint(-3000, 3000) if r.random() < self.adjust else 5]))
            self.emit('TJ', a)
        elif k == '"':
            self.emit('"', num(r, -3, 9), num(r, -3, 9), Str(f.string()[0]))
        else:
            self.emit(k, Str(f.string(r.choice([100, 255, 256, 300, 1000, 3000]) if self.long and r.random() < .3 else None)[0]))

    def noise_op(self):
        r = self.r
        x = r.random()
        if x < .6:
            k, op = r.choice(NOISE)
            self.emit(op, *[num(r) for _ in range(k)])
        elif x < .7:
            self.emit('d', [num(r, 0, 9) for _ in range(r.randint(0, 3))], num(r, 0, 5))
        elif x < .8:
            self.emit('Do', N('Im1'))
        elif x < .9:
            self.emit('gs', N('GS#0'))
        else:
            self.images += 1
            data = bytes(r.randrange(256) for _ in range(r.randint(1, 30)))
            self.ops.append((data, 'IMAGE'))

    def run(self, n):
        r = self.r
        names = list(self.fonts)
        stack, cur, intext, depth = [], None, False, 0
        while len(self.ops) < n or intext or depth:
            closing = len(self.ops) >= n
            x = r.random()
            if x < .08 and self.noise and not closing:
                if not intext:
                    self.noise_op()
                else:
                    y = r.random()
                    if y < .3:
                        self.emit('BDC', N('P'), {N('MCID'): r.randrange(9), N('Lang'): Str(b'x(y')})
                    elif y < .6:
                        self.emit('EMC')
                    elif y < .8:
                        self.emit('rg', 0, .5, 1)
                    else:
                        self.emit('MP', N('Tag'))
                continue
            if x < .25:             # text state, allowed anywhere
                k = r.choice(['Tc', 'Tw', 'Tz', 'TL', 'Ts', 'Tr', 'Tf', 'Tf'])
                if k == 'Tf':
                    cur = r.choice(names)
                    self.emit('Tf', cur, r.choice([1, 8, 10, 12, 9.5, 24, 12, -12]))
                elif k == 'Tz':
                    self.emit('Tz', r.choice([100, 50, 150, 87.5, 100]))
                elif k == 'Tr':
                    self.emit('Tr', r.choice([0, 1, 2, 3, 7]))
                elif k == 'TL':
                    self.emit('TL', num(r, -20, 40))
                else:
                    self.emit(k, num(r, -3, 8))
                continue
            if not intext:
                if x < .4 and not closing:
                    self.emit('q')
                    stack.append(cur)
                    depth += 1
                elif x < .55 and depth:
                    self.emit('Q')
                    cur = stack.pop()
                    depth -= 1
                elif x < .7:
                    self.emit('cm', *matrix(r))
                elif not closing:
                    self.emit('BT')
                    intext = True
                elif depth:
                    self.emit('Q')
                    cur = stack.pop()
                    depth -= 1
                continue
            if cur is None:
                cur = r.choice(names)
                self.emit('Tf', cur, r.choice([8, 10, 12, 9.5]))
            if x < .35:
                self.emit('Td', num(r), num(r))
            elif x < .43:
                self.emit('TD', num(r), num(r, -40, 40))
            elif x < .52:
                self.emit('Tm', *matrix(r))
            elif x < .58:
                self.emit('T*')
            elif x < .68 or closing:
                self.emit('ET')
                intext = False
            else:
                self.show(self.fonts[cur])

    def spell(self, wild):
        """Bytes of the program."""
        r = self.r
        out = bytearray()
        for a, op in self.ops:
            if op == 'IMAGE':
                d = r.choice([b'/W 2 /H 2 /CS /G /BPC 8', b'/W 4/H 1/BPC 1/IM true', b'/W 1 /H 1 /F [/AHx]'])
                data = a.replace(b'EI', b'eI')
                out += gen.s_ws(r, wild, bool(out)) if True else b''
                out += b'BI ' + d + b' ID ' + data + r.choice([b'\nEI', b' EI', b'\r\nEI'])
                out += b'\n'
                continue
            toks = []
            for v in a:
                gen.tokens(r, v, wild, toks)
            toks.append(op.encode())
            s = gen.join(r, toks, wild)
            need = bool(out) and gen._reg(out[-1]) and gen._reg(s[0])
            sep = gen.s_ws(r, wild, need)
            if wild == 0:
                sep = b'\n' if out and out[-1:] != b'\n' else b''
            out += sep + s
        return bytes(out)


def mul(a, b):
    return [a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
            a[4] * b[0] + a[5] * b[2] + b[4], a[4] * b[1] + a[5] * b[3] + b[5]]


class Shown:
    """One text-showing operation."""

    def __init__(self, op, font, parts, trm, end, size, known, ctm, tm):
        self.op, self.font, self.parts, self.trm, self.end, self.size, self.known = op, font, parts, trm, end, size, known
        self.ctm, self.tm = ctm, tm

    @property
    def text(self):
        return ''.join(''.join(self.font.codes[c] for c in self.font.chars(p)) for p in self.parts if isinstance(p, Str))


def interpret(ops, fonts):
    """[Shown] of a program; `known` tells whether every width was declared by the font."""
    one = [1, 0, 0, 1, 0, 0]
    g = dict(ctm=one, Tc=0, Tw=0, Th=1.0, Tl=0, f=None, fs=0, rise=0)
    stack = []
    tm = tlm = one
    out = []

    def line(x, y):
        nonlocal tm, tlm
        tlm = mul([1, 0, 0, 1, x, y], tlm)
        tm = tlm
    for a, op in ops:
        if op == 'q':
            stack.append(dict(g))
        elif op == 'Q':
            if stack:
                g = stack.pop()
        elif op == 'cm':
            g['ctm'] = mul(a, g['ctm'])
        elif op == 'BT':
            tm = tlm = one
        elif op == 'Tc':
            g['Tc'] = a[0]
        elif op == 'Tw':
            g['Tw'] = a[0]
        elif op == 'Tz':
            g['Th'] = a[0] / 100
        elif op == 'TL':
            g['Tl'] = a[0]
        elif op == 'Tf':
            g['f'], g['fs'] = a[0], a[1]
        elif op == 'Ts':
            g['rise'] = a[0]
        elif op == 'Td':
            line(*a)
        elif op == 'TD':
            g['Tl'] = -a[1]
            line(*a)
        elif op == 'Tm':
            tm = tlm = list(a)
        elif op == 'T*':
            line(0, -g['Tl'])
        elif op in ('Tj', 'TJ', "'", '"'):
            if op == '"':
                g['Tw'], g['Tc'] = a[0], a[1]
            if op in '\'"':
                line(0, -g['Tl'])
            parts = a[0] if op == 'TJ' else [a[-1]]
            f = fonts[g['f']]
            rend = lambda: mul(mul([g['fs'] * g['Th'], 0, 0, g['fs'], 0, g['rise']], tm), g['ctm'])
            start, tm0 = rend(), tm
            known = True
            for p in parts:
                if isinstance(p, Str):
                    for ch in f.chars(p):
                        w = f.width(ch)
                        if w is None:
                            known, w = False, 500
                        t = (w / 1000 * g['fs'] + g['Tc'] + (g['Tw'] if f.n == 1 and ch == 32 else 0)) * g['Th']
                        tm = mul([1, 0, 0, 1, t, 0], tm)
                else:
                    tm = mul([1, 0, 0, 1, -p / 1000 * g['fs'] * g['Th'], 0], tm)
            out.append(Shown(op, f, parts, start, rend(), g['fs'], known, list(g['ctm']), tm0))
            out[-1].exact = known
    return out
