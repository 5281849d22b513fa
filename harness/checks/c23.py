"""C23: the font inventory is complete and exact.

Monitor: documents with fonts of every type, direct and referenced, in own, inherited, shared and referenced resources, through revisions and library edits; the
inventory and the font tables of single pages are compared with the fonts that an independent walk of the page tree finds."""
from ..lib import Name, Ref, Stm, Str, from_lib, short
from .. import gen, docs, content
from . import c04

ID = 'C23'
QUICK, THOROUGH = 5000, 90000
RULE = ('random page trees whose resources (own, inherited, null, empty, shared, referenced) name fonts of every type and encoding, in files of every layout and up to four '
        'revisions, then page selections and other edits; distinct: the expected inventory; non-trivial: at least two pages and two fonts')
NEED = {'oracle_checks': 30000, 'fonts': 8000, 'inherited': 1400, 'empty_resources': 40, 'direct_fonts': 140, 'shared_pages': 1400, 'two_names': 200, 'same_name': 500,
        'type:Type0': 500, 'type:Type3': 300, 'type:TrueType': 500, 'type:Type1': 1000, 'unicode': 1500, 'edited': 800, 'null_resources': 60, 'page_tables': 3000, 'revisions': 800}
N = docs.N
ENC = ['WinAnsiEncoding', 'MacRomanEncoding', 'StandardEncoding', 'PDFDocEncoding', 'MacExpertEncoding', 'Custom-Encoding']


class Fonts(gen.Build):
    """A document whose resources name many fonts."""

    def prepare(self):
        r = self.r
        ind = lambda v, p=.2: self.new(v) if r.random() < p else v
        self.pool = []
        self.many = r.random() < .03
        for i in range(r.randint(45, 130) if self.many else r.choice([0, 1, 2, 3, 5, 8])):
            f = self.font()
            if isinstance(f, Ref):     # equal fonts spelled out in two places would be two fonts
                self.pool.append(f)
        self.res = []          # resources shared by reference

    def font(self):
        r = self.r
        ind = lambda v, p=.2: self.new(v) if r.random() < p else v
        t = r.choice(['Type1', 'Type1', 'TrueType', 'Type0', 'Type3', 'MMType1'])
        uid = self.u()
        d = {N('Type'): N('Font'), N('Subtype'): N(t)}
        if t == 'Type3':
            if r.random() < .7:
                d[N('Name')] = ind(N(f'T{uid}'), .1)
            else:
                d[N('BaseFont')] = N(f'T{uid}')
            d[N('FontBBox')] = [0, 0, 0, 0]
            d[N('FontMatrix')] = [0.001, 0, 0, 0.001, 0, 0]
            d[N('CharProcs')] = ind({N('a'): self.new(gen.g_stream(r, {}, plain=b'0 0 10 10 re f', unsup=0))})
        else:
            d[N('BaseFont')] = ind(N(r.choice(['F%d', 'ABCDEF+Font-%d', 'Font,Bold%d', 'VeryLongFontNameThatGoesBeyondThirtyCharacters%d']) % uid), .15)
            if r.random() < .2:
                d[N('Name')] = N(f'Other{uid}')
        if t == 'Type0':
            desc = {N('Type'): N('Font'), N('Subtype'): N('CIDFontType2'), N('BaseFont'): N(f'Desc{uid}'),
                    N('CIDSystemInfo'): {N('Registry'): Str(b'Adobe'), N('Ordering'): Str(b'Identity'), N('Supplement'): 0}}
            if r.random() < .5:
                desc[N('DW')] = ind(500, .1)
            if r.random() < .5:
                desc[N('W')] = ind([1, [500, 600], 10, 12, 400])
            content.add_nulls(r, desc, 'W', 'DW')
            d[N('DescendantFonts')] = ind([self.new(desc)])
            d[N('Encoding')] = ind(N('Identity-H')) if r.random() < .8 else self.new(gen.g_stream(r, {N('Type'): N('CMap'), N('CMapName'): N('X')}, plain=b'begincmap endcmap', unsup=0))
        else:
            x = r.random()
            if x < .5:
                d[N('Encoding')] = ind(N(r.choice(ENC)))
            elif x < .7:
                d[N('Encoding')] = ind({N('Type'): N('Encoding'), N('BaseEncoding'): N('WinAnsiEncoding'), N('Differences'): [65, N('A'), N('B')]}, .5)
            elif x < .75:
                d[N('Encoding')] = None
            if r.random() < .5:
                d[N('FirstChar')] = ind(32, .1)
                d[N('LastChar')] = 34
                d[N('Widths')] = ind([500, ind(600, .1), 700])
        if t != 'Type3' and r.random() < .3:
            d[N('FontDescriptor')] = self.new({N('Type'): N('FontDescriptor'), N('FontName'): N(f'T{uid}'), N('Flags'): 32})
        if r.random() < .4:
            d[N('ToUnicode')] = self.new(gen.g_stream(r, {}, plain=b'1 begincodespacerange <00> <FF> endcodespacerange 1 beginbfchar <41> <0041> endbfchar', unsup=0))
        elif r.random() < .1:
            d[N('ToUnicode')] = r.choice([None, Ref(90000, 0)])
        content.add_nulls(r, d, 'FirstChar', 'LastChar', 'Widths', 'DescendantFonts', 'FontDescriptor', 'BaseFont', 'Name')
        for k in ('Widths', 'DescendantFonts', 'Encoding', 'FontDescriptor', 'BaseFont'):
            if N(k) not in d and r.random() < .03:
                d[N(k)] = Ref(90000, 0)
        if r.random() < .25:     # entries that say nothing about the font
            for k in r.sample(['CIDToGIDMap', 'ToUni', 'FontName', 'PSName', 'Metadata', 'Encodings', 'Base', 'W', 'DW', 'CharSet', 'UseCMap', 'ToUnicodeMap'], 3):
                d[N(k)] = r.choice([N('Identity'), Ref(r.randint(1, 9), 0), Str(b'x'), 1, [1, 2]])
        items = list(d.items())
        r.shuffle(items)
        d = dict(items)
        return self.new(d) if r.random() < .85 else d

    def resources(self):
        r = self.r
        if not hasattr(self, 'pool'):
            self.prepare()
        if self.res and r.random() < .25:
            return r.choice(self.res)
        if r.random() < .12:
            return r.choice([{}, {N('ProcSet'): [N('PDF')]}, {N('Font'): {}}, {N('Font'): None}])
        fs = {}
        for i in range(r.choice([0, 1, 1, 2, 3, 4])):
            f = r.choice(self.pool) if self.pool and r.random() < .8 else self.font()
            if isinstance(f, Ref) and r.random() < .5:
                self.pool.append(f)
            fs[N(r.choice(['F%d' % r.randint(0, 4), 'F%d' % r.randint(0, 4), 'TT%d' % i, 'C2_%d' % i]))] = f
        if self.many and self.pool:
            for i, f in enumerate(r.sample(self.pool, r.randint(1, len(self.pool)))):
                fs[N('M%d' % i)] = f
        if fs and r.random() < .12:     # the same font under another name
            fs[N('Alias')] = r.choice([x for x in fs.values() if isinstance(x, Ref)] or [self.font()])
        if r.random() < .05:
            fs[N('Gone')] = None
        d = {N('Font'): self.new(fs) if r.random() < .3 else fs}
        if r.random() < .3:
            d[N('ProcSet')] = [N('PDF'), N('Text')]
        if r.random() < .2:
            d[N('ExtGState')] = {N('G0'): {N('Type'): N('ExtGState'), N('CA'): 1}}
        if r.random() < .4:
            d = self.new(d)
            self.res.append(d)
        return d

    def page(self, parent, have):
        ref = super().page(parent, have)
        r = self.r
        d = self.doc.objs[ref.num][1]
        if N('Resources') in have and N('Resources') not in d and r.random() < .1:
            d[N('Resources')] = None
        return ref


def expected(doc):
    """{name: (type, encoding or None when unspecified, unicode, key, [pages])} and per page {resource name: font name}."""
    inv, tables = {}, []
    for i, (num, d) in enumerate(doc.pages()):
        res = doc.deref(d.get(N('Resources')))
        fs = doc.deref(res.get(N('Font'))) if isinstance(res, dict) else None
        tab = {}
        for k, v in (fs or {}).items():
            f = doc.deref(v)
            if f is None:
                continue
            nm = doc.deref(f.get(N('BaseFont'))) or doc.deref(f.get(N('Name')))
            t = doc.deref(f[N('Subtype')]).decode()
            e = doc.deref(f.get(N('Encoding')))
            if e is None:
                e = 'built-in' if t == 'Type1' else None
            else:
                e = e.decode() if isinstance(e, Name) else 'other'
            u = doc.deref(f.get(N('ToUnicode'))) is not None
            nm = nm.decode()
            tab[k.decode()] = nm
            ent = inv.setdefault(nm, (t, e, u, v if isinstance(v, Ref) else None, []))
            if i not in ent[4]:
                ent[4].append(i)
        tables.append(tab)
    return inv, tables


def plain(name):
    """A name as the library spells it, without escapes."""
    v = from_lib('/' + name)
    return v.decode('latin-1') if isinstance(v, Name) else name


def check_inventory(c, doc, want, where, keys=True):
    got = {}
    for k, f in c.L.fonts(doc).items():
        nm = plain(f['name'])
        c.check(nm not in got, f'{where}: font {nm} listed more than once')
        got[nm] = (k, f)
    c.check(set(got) == set(want), lambda: f'{where}: fonts {sorted(got)} instead of {sorted(want)}')
    for nm, (t, e, u, ref, pages) in want.items():
        k, f = got[nm]
        c.count('fonts')
        c.check(f['pages'] == pages, f'{where}: font {nm} on pages {f["pages"]} instead of {pages}')
        c.check(f['type'] == t, f'{where}: font {nm} of type {f["type"]} instead of {t}')
        c.check(e is None or plain(f['encoding']) == e, f'{where}: font {nm} with encoding {f["encoding"]} instead of {e}')
        c.check(bool(f['to_unicode']) == u, f'{where}: font {nm} Unicode map {f["to_unicode"]} instead of {u}')
        if keys and ref is not None:
            c.check(k == complex(ref.gen, ref.num), f'{where}: font {nm} is object {k} instead of {ref}')
        if ref is None:
            c.check(type(k) != complex, f'{where}: direct font {nm} has the number {k}')


def stats(c, doc, want, tables):
    for nm, (t, e, u, ref, pages) in want.items():
        c.count('type:' + t)
        c.count('unicode', u)
        c.count('direct_fonts', ref is None)
        c.count('shared_pages', len(pages) > 1)
    for i, tab in enumerate(tables):
        c.count('two_names', len(set(tab.values())) < len(tab))
        c.count('same_name', any(k in t and t[k] != v for t in tables[:i] for k, v in tab.items()))
    for num, d in doc.pages():
        own = doc.val(num).get(N('Resources'), 0)
        c.count('null_resources', own is None)
        c.count('inherited', own == 0)
        c.count('empty_resources', own == {} and bool(tables))


def check_tables(c, doc, tables, where):
    r = c.r
    if not tables:
        return
    ask = [r.randrange(len(tables)) for _ in range(r.randint(1, 4))]
    if r.random() < .3:
        ask = list(range(len(tables)))
    got = c.L.get_page_fonts(doc, ask)
    c.check(len(got) == len(ask), f'{where}: {len(got)} font tables for pages {ask}')
    for p, tab in zip(ask, got):
        c.count('page_tables')
        have = {plain(k[1:]): plain(v['name'][1:]) for k, v in tab.items()}
        c.check(have == tables[p], lambda: f'{where}: fonts of page {p}: {have} instead of {tables[p]}')


def select(want, keep):
    """The inventory after keeping these old pages, in order."""
    out = {}
    for nm, (t, e, u, ref, pages) in want.items():
        ps = [j for j, p in enumerate(keep) if p in pages]
        if ps:
            out[nm] = (t, e, u, ref, ps)
    return out


def tweak(b):
    """Change of fonts between revisions."""
    r = b.r
    ps = b.doc.pages()
    for _ in range(r.randint(0, 3)):
        if not ps:
            return
        num = r.choice(ps)[0]
        g, v = b.doc.objs[num]
        v = dict(v)
        x = r.random()
        res = v.get(N('Resources'))
        tgt = b.doc.deref(res)
        if x < .4 or not isinstance(tgt, dict):
            v[N('Resources')] = b.resources()
        elif x < .6 and len(ps) and any(N('Resources') in b.doc.val(k) for k in b.doc.tree_nodes()):
            v.pop(N('Resources'))
            if N('Resources') not in dict(b.doc.pages()).get(num, {}):
                pass
        else:
            d = dict(tgt)
            fs = b.doc.deref(d.get(N('Font')))
            fs = dict(fs or {})
            if fs and r.random() < .5:
                fs.pop(r.choice(sorted(fs)))
            else:
                fs[N('N%d' % r.randint(0, 3))] = b.font()
            if isinstance(d.get(N('Font')), Ref):
                b.doc.objs[d[N('Font')].num] = (b.doc.objs[d[N('Font')].num][0], fs)
            else:
                d[N('Font')] = fs
                if isinstance(res, Ref):
                    b.doc.objs[res.num] = (b.doc.objs[res.num][0], d)
                else:
                    v[N('Resources')] = d
        b.doc.objs[num] = (g, v)


def case(c):
    r, L = c.r, c.L
    f = gen.File(r, wild=r.choice([0, 0, 1, 2]))
    b = Fonts(r, fonts=False, forms=r.random() < .2, wild=f.wild, extras=r.random() < .2, indirect_kids=r.random() < .3, gens=r.random() < .3, annots=False)
    if r.random() < .1:
        f.linearized(b.doc, b.alloc, r.choice(['table', 'stream']))
    else:
        f.revision(b.doc, b.alloc, r.choice(gen.LAYOUTS))
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        if r.random() < .6:
            tweak(b)
        else:
            gen.mutate(r, b)
        f.revision(b.doc, b.alloc, r.choice(gen.LAYOUTS))
        c.count('revisions')
    doc, fo = c04.open_any(c, f.data())
    want, tables = expected(b.doc)
    stats(c, b.doc, want, tables)
    if len(tables) < 2 or len(want) < 2:
        c.trivial()
    c.digest(repr((sorted(want.items()), tables)).encode())
    c.sample({k: (v[0], v[1], v[2], v[4]) for k, v in want.items()})
    where = f'{len(f.states)} revision(s) {f.layouts}'
    check_inventory(c, doc, want, where)
    check_tables(c, doc, tables, where)
    if r.random() < .5:
        keys = True
        keep = list(range(len(tables)))
        for _ in range(r.randint(1, 3)):
            x = r.random()
            if x < .3 and len(keep) > 1:
                k = sorted(r.sample(range(len(keep)), r.randint(1, len(keep))))
                doc = L.keep_pages(doc, set(k))
                keep = [keep[j] for j in k]
                op = f'keep {k}'
            elif x < .45 and keep:
                op = 'rotate'
                doc = L.rotate(doc)
            elif x < .6 and keep:
                op = 'annotation'
                doc = L.add_text_annotation(doc, r.randrange(len(keep)), 'note', [1, 2, 30, 40])
            elif x < .7:
                op = 'squash'
                doc = L.squash(doc)
                keys = False
            elif x < .8:
                op = 'compress'
                doc = L.compress(doc)
                keys = False
            elif x < .9:
                op = 'write and reopen'
                doc, w = L.write(doc, c.path())
                doc = L.loads(w)
            else:
                op = 'concat with itself'
                doc = L.concat(doc, L.loads(f.data()))
                n = len(keep)
                keep = keep + list(range(len(tables)))
                keys = None
            where += f', {op}'
            c.count('edited')
            if keys is None:
                # every font of the right document comes as a copy: names repeat
                got = L.fonts(doc)
                seen = {}
                for k, ft in got.items():
                    seen.setdefault(plain(ft['name']), []).extend(ft['pages'])
                exp = {nm: v[4] for nm, v in select(want, keep).items()}
                c.check({k: sorted(set(v)) for k, v in seen.items()} == exp, lambda: f'{where}: fonts {seen} instead of {exp}')
                break
            check_inventory(c, doc, select(want, keep), where, keys)
            check_tables(c, doc, [tables[k] for k in keep], where)
    if fo:
        fo.close()


def d_n(i):
    def f(c):
        c.r.seed(23000 + i)
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(3)}
