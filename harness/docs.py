"""Shared oracles on documents: comparison of what the library shows with a model state, graph isomorphism, observations."""
from .lib import from_lib, Name, Ref, Stm, same, differ, short, strip_len, P
from . import refpdf

N = lambda s: Name(s.encode() if isinstance(s, str) else s)
XKEYS = {N(k) for k in 'Type W Index Filter DecodeParms Length Prev Size XRefStm'.split()}
SUPPORTED = {b'FlateDecode', b'ASCIIHexDecode', b'ASCII85Decode', b'Fl', b'AHx', b'A85'}


def decodable(v):
    return not indirect_filters(v) and all(f in SUPPORTED for f in refpdf.filters_of(v.d))


def has_ref(x):
    return isinstance(x, Ref) or isinstance(x, (list, dict)) and any(map(has_ref, x.values() if isinstance(x, dict) else x))


def indirect_filters(v):
    """Filters or parameters given through references: they cannot be told from the stream alone."""
    return has_ref(v.d.get(b'Filter')) or has_ref(v.d.get(b'DecodeParms'))


def fill_plain(v, objs):
    """Decode a stream read by the reference reader among objs {num: (gen, value)}."""
    def res(x):
        if isinstance(x, Ref):
            return res(objs.get(x.num, (0, None))[1])
        if isinstance(x, dict):
            return {k: res(e) for k, e in x.items()}
        return [res(e) for e in x] if isinstance(x, list) else x
    w = Stm({k: res(v.d[k]) for k in (N('Filter'), N('DecodeParms')) if k in v.d}, v.raw)
    if decodable(w):
        v.plain = refpdf.decode(w)
        return True
    return False


def same_value(a, b):
    """Model values equal; streams up to their Length entry (which may be indirect)."""
    return same(strip_len(a), strip_len(b))


def diff_value(a, b):
    return differ(strip_len(a), strip_len(b))


def check_value(c, want, got, where):
    c.count('oracle_checks')
    if not same_value(want, got):
        c.fail(f'{where}: {diff_value(want, got)}', want=short(want, 800), got=short(got, 800))
    if isinstance(want, Stm) and want.plain is not None and (decodable(want) or indirect_filters(want) and got.plain is not None):
        c.count('plain_checks')
        if indirect_filters(want):
            c.count('indirect_filters')
        if got.plain != want.plain:
            c.fail(f'{where}: decoded stream data {short(got.plain)} instead of {short(want.plain)}', dict=short(want.d))


def trailer_view(d):
    return {k: v for k, v in d.items() if k not in XKEYS and v is not None}


def check_trailer(c, want, got, where):
    c.check(same(trailer_view(want), trailer_view(got)), lambda: f'{where}: {differ(trailer_view(want), trailer_view(got))}')


def check_objects(c, want, got, where, ignore=()):
    """want, got: {num: (gen, value)}."""
    a = {n for n in want if n not in ignore}
    b = {n for n in got if n not in ignore}
    c.check(a == b, lambda: f'{where}: objects missing {sorted(a - b)[:8]}, unexpected {sorted(b - a)[:8]}')
    for n in sorted(a):
        c.check(want[n][0] == got[n][0], f'{where}: object {n} has generation {got[n][0]} instead of {want[n][0]}')
        check_value(c, want[n][1], got[n][1], f'{where}: object {n}')


def check_pages(c, want, got, where):
    """want: [(num, effective dict)], got: [(Ref, effective dict)]."""
    c.check([n for n, _ in want] == [r.num for r, _ in got], lambda: f'{where}: pages {[r.num for r, _ in got]} instead of {[n for n, _ in want]}')
    for i, ((n, w), (r, g)) in enumerate(zip(want, got)):
        c.check(same(w, g), lambda: f'{where}: page {i} (object {n}): {differ(w, g)}')


def check_state(c, L, doc, state, where, ignore=(), pages=True):
    """The document shows exactly the model state (a gen.Doc)."""
    check_trailer(c, state.trailer, L.trail(doc), f'{where}: trailer')
    check_objects(c, state.objs, L.live(doc), where, ignore)
    if pages:
        check_pages(c, state.pages(), L.eff_pages(doc), where)
        n = L.number_pages(doc)
        c.check(n == len(state.pages()), f'{where}: number_pages {n}')


def snapshot(L, doc):
    """Everything a document shows: trailer, objects with generations, pages, change list."""
    return {
        'trailer': L.trail(doc),
        'objects': L.live(doc),
        'pages': L.eff_pages(doc),
        'changes': sorted((int(i.imag), int(i.real), a) for i, a in L.changes(doc)),
        'updates': L.updates(doc),
    }


def diff_snapshot(a, b):
    """First difference between two snapshots or None."""
    for k in a:
        if k == 'objects':
            if set(a[k]) != set(b[k]):
                return f'objects {sorted(set(a[k]) ^ set(b[k]))[:8]} appear or disappear'
            for n in a[k]:
                if a[k][n][0] != b[k][n][0]:
                    return f'generation of object {n}: {a[k][n][0]} vs {b[k][n][0]}'
                if not same_value(a[k][n][1], b[k][n][1]):
                    return f'object {n}: {diff_value(a[k][n][1], b[k][n][1])}'
                x, y = a[k][n][1], b[k][n][1]
                if isinstance(x, Stm) and x.plain != y.plain:
                    return f'object {n}: decoded data {short(x.plain)} vs {short(y.plain)}'
        elif k == 'trailer':
            if not same(a[k], b[k]):
                return f'trailer: {differ(a[k], b[k])}'
        elif k == 'pages':
            if [r for r, _ in a[k]] != [r for r, _ in b[k]]:
                return f'page list {[r for r, _ in a[k]]} vs {[r for r, _ in b[k]]}'
            for i, ((_, x), (_, y)) in enumerate(zip(a[k], b[k])):
                if not same(x, y):
                    return f'page {i}: {differ(x, y)}'
        elif a[k] != b[k]:
            return f'{k}: {short(a[k])} vs {short(b[k])}'
    return None


# ---------------------------------------------------------------- graphs

class Graph:
    """trailer (model dict) and objs {num: (gen, value)}."""

    def __init__(self, trailer, objs):
        self.trailer, self.objs = trailer_view(trailer), objs

    @staticmethod
    def of(L, doc):
        return Graph(L.trail(doc), L.live(doc))

    def target(self, ref):
        """Number of the object a reference leads to, None for the null object."""
        seen = 0
        while isinstance(ref, Ref):
            e = self.objs.get(ref.num)
            if e is None or e[1] is None:
                return None
            if not isinstance(e[1], Ref):
                return ref.num
            ref = e[1]
            seen += 1
            if seen > 100:
                return None
        return None


FILTER = {N('Filter'), N('DecodeParms'), N('F'), N('DP')}


class Iso:
    """Checks that the part of graph a reachable from the visited values is that of b up to renumbering."""

    def __init__(self, a, b, recode=False, skip=lambda path: False):
        self.a, self.b, self.recode, self.skip = a, b, recode, skip
        self.fwd, self.bwd = {}, {}
        self.todo = []

    def refs(self, x, y, path):
        m, n = self.a.target(x), self.b.target(y)
        if m is None or n is None:
            return None if m is n is None else f'{path}: {x!r} leads to {"nothing" if m is None else "an object"}, {y!r} to {"nothing" if n is None else "an object"}'
        if m in self.fwd or n in self.bwd:
            if self.fwd.get(m) != n or self.bwd.get(n) != m:
                return f'{path}: {x!r} became {y!r}, but elsewhere {m} became {self.fwd.get(m)} and {n} comes from {self.bwd.get(n)}'
            return None
        self.fwd[m], self.bwd[n] = n, m
        self.todo.append((m, n, path))
        return None

    def val(self, x, y, path):
        if isinstance(x, Ref) and isinstance(y, Ref):
            return self.refs(x, y, path)
        if isinstance(x, Ref) and self.a.target(x) is None:
            x = None
        if isinstance(y, Ref) and self.b.target(y) is None:
            y = None
        if isinstance(x, Stm) and isinstance(y, Stm):
            dx, dy = dict(x.d), dict(y.d)
            for k in (b'Length',):
                dx.pop(k, None), dy.pop(k, None)
            if decodable(x) or indirect_filters(x) and decodable(y):
                if decodable(y):
                    if x.plain != y.plain:
                        return f'{path}: decoded data {short(x.plain)} became {short(y.plain)}'
                    if self.recode:
                        for k in FILTER:
                            dx.pop(k, None), dy.pop(k, None)
                    elif x.raw != y.raw:
                        return f'{path}: encoded data {short(x.raw)} became {short(y.raw)}'
                else:
                    return f'{path}: filter {dx.get(N("Filter"))} became {dy.get(N("Filter"))}'
            elif x.raw != y.raw:
                return f'{path}: encoded data {short(x.raw)} became {short(y.raw)}'
            return self.val(dx, dy, path)
        if isinstance(x, dict) and isinstance(y, dict):
            kx = {k for k in x if x[k] is not None and not (isinstance(x[k], Ref) and self.a.target(x[k]) is None)}
            ky = {k for k in y if y[k] is not None and not (isinstance(y[k], Ref) and self.b.target(y[k]) is None)}
            kx = {k for k in kx if not self.skip(f'{path}/{k.decode("latin-1")}')}
            ky = {k for k in ky if not self.skip(f'{path}/{k.decode("latin-1")}')}
            if kx != ky:
                return f'{path}: entries {sorted(kx - ky)} disappeared, {sorted(ky - kx)} appeared'
            for k in sorted(kx):
                e = self.val(x[k], y[k], f'{path}/{k.decode("latin-1")}')
                if e:
                    return e
            return None
        if isinstance(x, list) and isinstance(y, list):
            if len(x) != len(y):
                return f'{path}: {len(x)} items became {len(y)}'
            for i, (p, q) in enumerate(zip(x, y)):
                e = self.val(p, q, f'{path}[{i}]')
                if e:
                    return e
            return None
        if not same(x, y):
            return f'{path}: {short(x)} became {short(y)}'
        return None

    def close(self):
        root = self.a.trailer.get(N('Root'))
        root = self.a.target(root) if isinstance(root, Ref) else None
        while self.todo:
            m, n, path = self.todo.pop()
            e = self.val(self.a.objs[m][1], self.b.objs[n][1], f'{path[-60:]}>{"catalog" if m == root else ""}({m}->{n})')
            if e:
                return e
        return None

    def run(self, *pairs):
        for x, y, path in pairs:
            e = self.val(x, y, path) or self.close()
            if e:
                return e
        return None

    def unreachable(self):
        """Compare what was not reached: the same values, references to reached objects mapped."""
        def sig(v, mp, g):
            if isinstance(v, Ref):
                t = g.target(v)
                return 'None' if t is None else f'R{mp[t]}' if t in mp else 'R*'
            if isinstance(v, Stm):
                dec = decodable(v) or self.recode and indirect_filters(v) and v.plain is not None and not v.plain.startswith(b'#PDFSyntaxException')
                d = {k: x for k, x in v.d.items() if k != b'Length' and not (self.recode and dec and k in FILTER)}
                return f'S{sig(d, mp, g)}{v.plain if dec else v.raw!r}'
            if isinstance(v, dict):
                return 'D' + ''.join(sorted(f'{k!r}:{sig(x, mp, g)};' for k, x in v.items() if x is not None and not (isinstance(x, Ref) and g.target(x) is None)))
            if isinstance(v, list):
                return 'A' + ','.join(sig(x, mp, g) for x in v)
            return repr(v)
        ident = {n: n for n in self.bwd}
        a = sorted(sig(v, self.fwd, self.a) for n, (g, v) in self.a.objs.items() if n not in self.fwd and v is not None and not isinstance(v, Ref))
        b = sorted(sig(v, ident, self.b) for n, (g, v) in self.b.objs.items() if n not in self.bwd and v is not None and not isinstance(v, Ref))
        if a != b:
            x = [s for s in a if s not in b]
            y = [s for s in b if s not in a]
            return f'{len(a)} unreferenced objects became {len(b)}: missing {short(x[:1], 300)}, new {short(y[:1], 300)}'
        return None


def same_document(a, b, pages_a, pages_b, recode=False, skip=lambda p: False):
    """None or why two graphs with their page lists [(Ref, effective dict)] are not the same document up to renumbering; -> (reason, Iso)."""
    iso = Iso(a, b, recode, skip)
    e = iso.run((a.trailer, b.trailer, 'trailer'))
    if e:
        return e, iso
    if len(pages_a) != len(pages_b):
        return f'{len(pages_a)} pages became {len(pages_b)}', iso
    for i, ((r1, p1), (r2, p2)) in enumerate(zip(pages_a, pages_b)):
        e = iso.run((r1, r2, f'page {i}'), (p1, p2, f'effective page {i}'))
        if e:
            return e, iso
    return None, iso


def markers(objs):
    """Unique integers the generators put in documents."""
    out = set()

    def walk(v):
        if isinstance(v, Stm):
            walk(v.d)
        elif isinstance(v, dict):
            for k, x in v.items():
                if k == b'VfId' and isinstance(x, int):
                    out.add(x)
                else:
                    walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    for g, v in objs.values():
        walk(v)
    return out
