"""C21: byte access is exact and independent of the access mode.

Monitor: every provider (bytes, file read once or on demand, generated data, composite of an update) is asked for ranges of known data and the
delivered window is compared with a plain slice; hex dumps are parsed back; the same file is opened in every access mode, read, rewound, edited
and written with the same random choices (on-demand documents interleaved on moving file objects) and the recorded observations are compared."""
import io
import os
import random
import re
from ..lib import P, Ref, Stm, from_lib, short
from .. import gen, docs, edits

ID = 'C21'
QUICK, THOROUGH = 2500, 50000
SCALED = 40
RULE = ('random data and composite providers with many ranges counted from both ends; random files of every layout opened in 6 access modes with the same '
        'observations and edits in each; distinct: the data; non-trivial: not empty')
NEED = {'oracle_checks': 100000, 'ranges': 60000, 'from_end': 20000, 'composite': 250, 'overlap': 1000, 'dumps': 1500, 'dump_ranges': 400, 'files': 300,
        'observations': 8000, 'interleaved': 200, 'edits': 300, 'rewinds': 200, 'mode:ondemand': 1000, 'mode:single': 1000, 'empty': 50}
LINE = re.compile(r'^(\d{10,})  ((?:[0-9a-f]{2} )*[0-9a-f]{2})? *\|', re.A)


def g_bytes(r):
    x = r.random()
    n = 0 if x < .06 else r.randint(1, 12) if x < .3 else r.randint(1, 60) if x < .7 else r.randint(60, 400)
    k = r.random()
    if k < .5:
        return r.randbytes(n)
    return bytes(r.choice(b'%PDF abc|(<0\n\r\x00\x7e\x7f\x1f\x20\xff') for _ in range(n))


def provider(c, data, depth=2):
    """Some provider of data."""
    r, L = c.r, c.L
    x = r.random()
    if depth and x < .35:
        cut = r.randint(0, len(data))
        junk = r.choice([b'', b'', r.randbytes(r.randint(1, 30))])       # the base may be longer than the part kept
        c.count('composite')
        base, k = provider(c, data[:cut] + junk, depth - 1)
        return L.merge_fdata(base, cut, data[cut:]), f'composite({cut}, {k})'
    k = r.choice(['bytes', 'single', 'ondemand', 'ondemand', 'dummy'])
    c.count('mode:' + k)
    if k == 'bytes':
        return L.bdata_provider(data), k
    if k == 'dummy':
        return L.bdata_dummy(data), k
    if r.random() < .5:
        f = io.BytesIO(data)
    else:
        p = c.path()
        with open(p, 'wb') as f:
            f.write(data)
        f = open(p, 'rb')
        c.files.append(f)
    if k == 'ondemand':
        c.seekable.append(f)
        if r.random() < .3:
            f.seek(r.randint(0, len(data) + 3))
        return L.bdata_provider(f, 'CONTINUOUS'), k
    return L.bdata_provider(f, r.choice(['SINGLE', 'SINGLE'])), k


def move(c):
    for f in c.seekable:
        if c.r.random() < .3:
            f.seek(c.r.randint(0, 50), c.r.choice([0, 2]))


def check_ranges(c):
    r, L = c.r, c.L
    data = g_bytes(r)
    c.digest(data)
    n = len(data)
    if not n:
        c.count('empty')
        c.trivial()
    fd, kind = provider(c, data)
    where = f'{kind} of {n} bytes'
    c.check(L.bdata_length(fd) == n, lambda: f'{where}: length {L.bdata_length(fd)}')
    whole = L.bdata_all(fd)
    c.check(bytes(whole) == data, lambda: f'{where}: bdata_all gives {short(whole)} instead of {short(data)}')
    for _ in range(40):
        s = r.choice([r.randint(-n, n), r.randint(-n, n), 0, n, -n, r.randint(max(-n, -15), min(n, 15))])
        ln = r.choice([-1, 0, 1, r.randint(0, n + 5), r.randint(0, 12)])
        a = s if s >= 0 else n + s
        z = n if ln == -1 else min(n, a + ln)
        move(c)
        c.count('ranges')
        if s < 0:
            c.count('from_end')
        if 'composite' in kind and a < int(kind.split('(')[1].split(',')[0]) < z:
            c.count('overlap')
        buf, i, off, nb = L.run('provider', fd, s, ln)
        c.check(nb == z - a, lambda: f'{where}: range ({s}, {ln}) counts {nb} bytes instead of {z - a}')
        c.check(bytes(buf[i:i + nb]) == data[a:z], lambda: f'{where}: range ({s}, {ln}) delivers {short(bytes(buf[i:i + nb]))} instead of {short(data[a:z])}')
        c.check(off + i == a, lambda: f'{where}: range ({s}, {ln}) is said to lie at {off + i} instead of {a}')
        if r.random() < .1:
            c.check(L.bdata_length(fd) == n, lambda: f'{where}: length {L.bdata_length(fd)} after ({s}, {ln})')
    check_dump(c, fd, data, where)


def check_dump(c, fd, data, where, ranges=True):
    r, L = c.r, c.L
    n = len(data)
    todo = [(None, None)]
    if n and ranges:
        a = r.randint(0, n)
        todo.append((a, r.choice([None, r.randint(a, n), n + r.randint(1, 30)])))
        todo.append((None, r.randint(0, n)))
    for a, z in todo:
        move(c)
        if a is None and z is None:
            txt = L.hexdump(fd)
            c.count('dumps')
        else:
            txt = L.hexdump(fd, a, z)
            c.count('dump_ranges')
        w = f'{where}: dump {a}..{z}'
        lo, hi = a or 0, n if z is None else min(z, n)
        pos = None
        got = bytearray()
        first = None
        lines = txt.split('\n')
        c.check(lines.pop() == '', f'{w} does not end with a line end')
        for ln in lines:
            m = LINE.match(ln)
            c.check(m, f'{w}: line {ln!r}')
            b = bytes.fromhex(m[2] or '')
            c.check(b, f'{w}: empty line {ln!r}')
            if first is None:
                first = pos = int(m[1])
            c.check(int(m[1]) == pos, lambda: f'{w}: line {ln!r} instead of offset {pos}')
            want = ''.join(chr(x) if 32 <= x <= 126 else '.' for x in b)
            c.check(ln[m.end():] == want + '|', lambda: f'{w}: line {ln!r} instead of rendering |{want}|')
            got += b
            pos += len(b)
        if lo >= hi:
            c.check(len(got) < 10, f'{w}: {len(got)} bytes listed')
        else:
            c.check(first is not None and lo - 10 < first <= lo and pos >= hi and pos < hi + 10, f'{w}: covers {first}..{pos}')
        if first is not None:
            c.check(bytes(got) == data[first:pos], lambda: f'{w}: lists {short(bytes(got))} instead of {short(data[first:pos])}')


# ------------------------------------------------------------------ the same document in every mode
MODES = ['bytes', 'file', 'path', 'bytesio', 'ondemand', 'ondemandio']


def open_mode(c, data, mode):
    L = c.L
    if mode == 'bytes':
        return L.loads(data)
    if mode == 'bytesio':
        return L.load(io.BytesIO(data))
    if mode == 'ondemandio':
        f = io.BytesIO(data)
        c.seekable.append(f)
        return L.load(f, 'CONTINUOUS')
    p = c.path()
    with open(p, 'wb') as f:
        f.write(data)
    if mode == 'path':
        return L.readfile(p)
    f = open(p, 'rb')
    c.files.append(f)
    if mode == 'file':
        return L.load(f)
    c.seekable.append(f)
    return L.load(f, 'CONTINUOUS')


def view(c, v):
    """Comparable text of a result."""
    if isinstance(v, tuple):
        return repr(tuple(view(c, x) for x in v))
    return repr(v)


class Script:
    """The same observations in the same order, whatever the mode."""

    def __init__(self, c, doc, seed, data):
        self.c, self.doc, self.r, self.data = c, doc, random.Random(seed), data
        self.out = []

    def note(self, name, v):
        self.out.append((name, v))

    def steps(self):
        c, L, r = self.c, self.c.L, self.r
        d = self.doc
        self.note('trailer', repr(L.trailer(d)))
        yield
        nums = list(range(len(d.index[-1])))
        r.shuffle(nums)
        for i, n in enumerate(nums[:25]):
            self.note(f'object {n}', repr(L.get_object(d, complex(0, n))))
            if i % 7 == 3:
                yield
        for k, f in [('structure', L.structure), ('metadata', L.metadata), ('fonts', L.fonts), ('in_use', L.in_use), ('changes', L.changes), ('pages', L.pages),
                     ('version', L.version), ('updates', L.updates), ('length', lambda x: len(x.index))]:
            self.note(k, repr(f(d)))
            yield
        for i in range(min(3, len(L.flat_page_tree(d)))):
            self.note(f'text {i}', repr(L.extract_page_text(d, i)))
            yield
        fd = d.data[-1]['fdata']
        self.note('dump', L.hexdump(fd))
        self.note('map', repr(L.file_object_map(fd)))
        yield
        w, b = L.write(d, c.path())
        self.note('written', b)
        yield
        # back to the first revision
        x = d
        k = 0
        while len(x.index) > 1 and k < 8:
            x = L.rewind(x)
            k += 1
            c.count('rewinds')
            self.note(f'rewind {k}', repr((L.trailer(x), sorted(L.live(x).items()), L.changes(x))))
            yield
            if k == 1 or r.random() < .2:
                self.note(f'rewind {k} written', L.write(x, c.path())[1])
                yield
        # edits
        x = d
        if len(d.index) > 2 and r.random() < .3:
            x = L.rewind(L.rewind(d)) if r.random() < .5 else L.rewind(d)
        for k in range(r.randint(1, 4)):
            sub = type('S', (), {})()
            sub.L, sub.r, sub.touched = L, random.Random(r.random()), set()
            sub.path = c.path
            x, nm = edits.op(sub, x, [o for o in edits.OPS] + ['squash', 'compress'])
            c.count('edits')
            self.note(f'edit {k}: {nm}', repr((L.trailer(x), sorted(L.live(x).items()), L.changes(x))))
            yield
        x, b = L.write(x, c.path())
        self.note('edited and written', b)
        fd = x.data[-1].get('fdata')
        if fd:
            self.note('edited length', L.bdata_length(fd))
            self.note('edited data', bytes(L.bdata_all(fd)))
            same = bytes(L.bdata_all(fd)) == b
            if len(x.data) > 1 and 'bdata' not in x.data[-2]:      # nothing new: the data is the file it came from
                same = bytes(L.bdata_all(fd)).startswith(b)
            c.check(same, lambda: f'the data of the written document has {len(L.bdata_all(fd))} bytes, the file written {len(b)}')
        yield
        self.note('still', repr((L.trailer(d), sorted(L.live(d).items()))))


def check_modes(c):
    r, L = c.r, c.L
    f, b = gen.random_file(r, revs=r.choice([1, 1, 2, 3]), build=dict(gens=r.random() < .3, sparse=r.choice([0, 0, .1]), objects=r.randint(2, 8)))
    data = f.data()
    if r.random() < .1:
        data += r.choice([b'\n', b'\r\n', b'   ', b'\x00' * 10])
    c.digest(data)
    c.count('files')
    seed = r.random()
    modes = ['bytes'] + r.sample(MODES[1:5], r.randint(1, 2)) + ['ondemand' if r.random() < .6 else 'ondemandio']
    runs = [(m, Script(c, open_mode(c, data, m), seed, data)) for m in modes]
    for m, s in runs:
        c.feat('mode:' + m)
        c.count('mode:' + ('ondemand' if 'ondemand' in m else 'single'))
    live = [(m, s, s.steps()) for m, s in runs]
    if r.random() < .6:                                  # interleave
        c.count('interleaved')
        while live:
            k = r.randrange(len(live))
            move(c)
            if next(live[k][2], 'end') == 'end':
                live.pop(k)
    else:
        for m, s, it in live:
            for _ in it:
                move(c)
    ref = runs[0][1].out
    for m, s in runs[1:]:
        for i, (name, v) in enumerate(ref):
            c.count('observations')
            if i < len(s.out):
                c.check(s.out[i][0] == name, lambda: f'{m}: {s.out[i][0]} instead of {name}')
                c.check(s.out[i][1] == v, lambda: f'{"/".join(f.layouts)}: {name} differs: {short(s.out[i][1], 500)} with {m} instead of {short(v, 500)} with bytes')
        c.check(len(s.out) == len(ref), f'{m}: {len(s.out)} observations instead of {len(ref)}')


def case(c):
    c.files, c.seekable = [], []
    try:
        if c.r.random() < .7:
            check_ranges(c)
        else:
            check_modes(c)
    finally:
        for f in c.files:
            f.close()


def d_all(c):
    """Every range of small data through every provider."""
    L = c.L
    c.files, c.seekable = [], []
    for n in (0, 1, 2, 9, 10, 11, 20, 21):
        data = bytes((i * 37 + 120) % 256 for i in range(n))
        ps = [('bytes', L.bdata_provider(data)), ('dummy', L.bdata_dummy(data)), ('single', L.bdata_provider(io.BytesIO(data), 'SINGLE')),
              ('ondemand', L.bdata_provider(io.BytesIO(data), 'CONTINUOUS'))]
        for cut in {0, 1, n // 2, n}:
            if cut <= n:
                ps.append((f'composite {cut}', L.merge_fdata(L.bdata_provider(data[:cut] + b'junk'), cut, data[cut:])))
                ps.append((f'composite ondemand {cut}', L.merge_fdata(L.bdata_provider(io.BytesIO(data[:cut] + b'junk'), 'CONTINUOUS'), cut, data[cut:])))
        for k, fd in ps:
            c.check(L.bdata_length(fd) == n, f'{k} of {n} bytes: length {L.bdata_length(fd)}')
            c.check(bytes(L.bdata_all(fd)) == data, f'{k} of {n} bytes: bdata_all')
            for s in range(-n, n + 1):
                for ln in range(-1, n + 3):
                    a = s if s >= 0 else n + s
                    z = n if ln == -1 else min(n, a + ln)
                    buf, i, off, nb = L.run('provider', fd, s, ln)
                    c.check(nb == z - a and bytes(buf[i:i + nb]) == data[a:z] and off + i == a, lambda: f'{k} of {n} bytes: range ({s}, {ln}) gives {short(buf)}, {i}, {off}, {nb}')
            for _ in range(4):
                check_dump(c, fd, data, f'{k} of {n} bytes')


DIRECTED = {'all': d_all}
