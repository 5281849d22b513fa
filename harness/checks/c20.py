"""C20: the browse page is inert and all its links lead somewhere.

Monitor: files stuffed with hostile names, strings, comments, streams and file names are browsed; the page goes through a strict HTML reader, every element and attribute is
held against what the viewer itself may produce, every link against the anchors, and the link graph against the references the generator wrote."""
import os
import re
import sys
from ..lib import Name, Str, Ref, Stm, from_lib, short, P
from .. import gen, docs, htmltree
from .c19 import embedded

ID = 'C20'
QUICK, THOROUGH = 1800, 30000
SCALED = 12
RULE = ('random files of 1-4 revisions in every index layout, half with markup in names, strings, keys, types, comments, streams and the file name, some with unindexed objects; '
        'distinct: file bytes; non-trivial: hostile content or several revisions')
NEED = {'oracle_checks': 50000, 'blocks': 8000, 'links': 20000, 'ref_links': 8000, 'used_in': 5000, 'hostile': 300, 'texts': 10000, 'page_links': 600, 'old_revision_blocks': 500,
        'layout:hybrid': 50, 'layout:lintable': 8, 'layout:linstream': 8, 'embedded': 1000, 'trailer_users': 500, 'unindexed': 50, 'hostile_names': 200, 'streams_shown': 1000, 'binary_streams': 800,
        'long_texts': 400, 'map_items': 15000}
N = docs.N
CANARY = ['<script>alert(1)</script>', '</pre></div><img src=x onerror=alert(1)>', '"onmouseover="alert(1)', "'><b>x</b>", '&lt;i&gt;&amp;', '<!-- x', '<a href=#zz>l</a>', '&#60;b&#62;',
          'javascript:x', ']]>', '<u>', '&amp', '<?x?>', '<details open>', '</code>', '<style>', '<TITLE>']
TAGS = {'html': {'lang'}, 'head': set(), 'meta': {'charset', 'http-equiv', 'content', 'name'}, 'title': set(), 'style': set(), 'body': {'class'}, 'div': {'class', 'id'}, 'pre': {'class'},
        'code': {'class'}, 'em': set(), 'strong': set(), 'span': {'class'}, 'a': {'class', 'href'}, 'details': {'class'}, 'summary': {'class'}, 'ul': {'class'}, 'li': {'class'},
        'p': {'class'}, 'nav': {'class'}, 'table': {'class'}, 'tr': {'class'}, 'td': {'class'}, 'th': {'class'}, 'tbody': set(), 'h1': {'class'}, 'h2': {'class'}, 'section': {'class', 'id'}}
ALLOWED = re.compile(r'[A-Za-z0-9_. -]*$')


def plant(c):
    """tweak(Build): hostile content reachable from the catalog."""
    r = c.r

    def hs():
        s = r.choice(CANARY)
        return s if r.random() < .7 else r.choice(CANARY) + s

    def hname():
        s = ''.join(ch for ch in hs() if ch not in '()<>[]{}/% #') or 'x'
        if r.random() < .5:
            s = r.choice(['&lt;', '"', "'", '&quot;', '&amp;lt;']) + s
        return Name(s.encode())

    def value(depth=0):
        x = r.random()
        if x < .35:
            return Str((hs() if r.random() < .7 else ''.join(r.choice('abc <>&012"') for _ in range(r.choice([27, 28, 29, 30, 31, 45, 90])))).encode())
        if x < .5:
            return hname()
        if x < .6:
            return r.randint(0, 99)
        if x < .7:
            return Ref(r.randint(1, 12), 0)
        if x < .85 and depth < 2:
            return [value(depth + 1) for _ in range(r.randint(0, 4))]
        if depth < 2:
            return {hname(): value(depth + 1) for _ in range(r.randint(0, 3))}
        return hname()

    def tweak(b):
        root = b.doc.trailer[N('Root')]
        made = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .5:
                d = {hname(): value() for _ in range(r.randint(1, 4))}
                if r.random() < .3:
                    d[N('Type')] = r.choice([hname(), Str(hs().encode()), [hname()]])
                if r.random() < .2:
                    d[N('Subtype')] = hname()
                if r.random() < .2:
                    d[N('JS')] = Str(hs().encode())
                if r.random() < .2:
                    d[N('S')] = N('JavaScript')
                if r.random() < .2:
                    d[N('Prev')] = r.choice([0, 5, Ref(1, 0), hname(), Str(hs().encode()), 15.5, [1]])
                v = d
            elif x < .8:
                txt = ('\n'.join(hs() for _ in range(r.randint(1, 3)))).encode()
                v = gen.g_stream(r, {N('K'): value()}, plain=txt, unsup=.2)
                if r.random() < .2:
                    v.d[N('Type')] = hname()
            else:
                v = value()
                if isinstance(v, Ref):
                    v = [v]
            made.append(b.new(v, 0))
        g, cat = b.doc.objs[root.num]
        cat = dict(cat)
        cat[r.choice([N('Hostile'), hname()])] = made if r.random() < .5 else made[0]
        b.set(root, cat)
    return tweak


def refs_of(v, out=None):
    out = [] if out is None else out
    if isinstance(v, Ref):
        out.append(v)
    elif isinstance(v, Stm):
        refs_of(v.d, out)
    elif isinstance(v, dict):
        for x in v.values():
            refs_of(x, out)
    elif isinstance(v, list):
        for x in v:
            refs_of(x, out)
    return out


def check_inert(c, tree, where):
    for e in tree.walk():
        if e is tree:
            continue
        c.check(e.tag in TAGS, f'{where}: element <{e.tag}>')
        c.check(set(e.attrs) <= TAGS[e.tag], f'{where}: attributes of <{e.tag}>: {e.attrs}')
        for k, v in e.attrs.items():
            if k == 'href':
                c.check(v.startswith('#') and ALLOWED.match(v[1:]) or re.fullmatch(r'https://(www\.)?pdfsyntax\.dev/?', v), f'{where}: link to {v!r}')
            elif e.tag == 'meta':
                c.check(re.fullmatch(r'[A-Za-z0-9=, ./;-]*', v or ''), f'{where}: meta {e.attrs}')
            else:
                c.check(v is None or ALLOWED.match(v), f'{where}: attribute {k}={v!r} of <{e.tag}>')
    for t in ('html', 'head', 'body', 'style'):
        c.check(len(tree.find(t)) <= 1, f'{where}: several <{t}>')
    c.check(tree.decls == ['DOCTYPE html'], f'{where}: declarations {tree.decls}')


def shown_values(v, top, out, keys):
    """Texts that must appear for a library value: dictionary keys, names, numbers and short plain strings outside arrays."""
    if isinstance(v, P.Stream):
        v = v['entries']
    if type(v) is dict:
        for k, x in v.items():
            out.append(k)
            shown_values(x, False, out, keys)
    elif type(v) is str:
        out.append(v)
    elif type(v) in (int, float):
        out.append(str(v))
    elif type(v) is bytes and v[:1] == b'(' and all(32 <= ch < 127 and ch not in b"\\'" for ch in v):
        out.append(v.decode() if len(v) <= 30 else Long(v.decode()))
    elif type(v) is bytes and v[:1] == b'<' and len(v) > 30 and v.isascii() and v[1:-1].isalnum():
        out.append(Long(v.decode()))


class Long(str):
    """A text that may be cut, provided that it is said."""


def displayed(t, txt):
    if t in txt:
        return True
    if not isinstance(t, Long):
        return False
    i = txt.find(t[:10])
    while i >= 0:
        k = 10
        while k < len(t) and txt[i + k:i + k + 1] == t[k]:
            k += 1
        if re.match(r'[^A-Za-z0-9]{0,12}truncated', txt[i + k:]):
            return True
        i = txt.find(t[:10], i + 1)
    return False


def case(c, **opt):
    r, L = c.r, c.L
    hostile = r.random() < .6
    strays = r.random() < .25

    def prep(f):
        f.junk = r.choice([.15, .15, .4])
        if strays:
            def stray(file):
                if r.random() < .06:                  # tokens that belong to no object
                    file.put(r.choice([b'foo', b'(abc)', b'12', b'12 7', b'[1 2]', b'<</A 1>>', b'endobj', b'>>', b'(<script>x</script>)', b'/Name', b'null']))
                    file.put(file.eol)
                    c.count('stray_tokens')
                if r.random() < .05:
                    file.write_obj(r.randint(900, 999), 0, {N('Lost'): Ref(r.randint(1, 9), 0)})
                    c.count('unindexed')
            f.stray = stray
        if hostile:
            old = f.maybe_junk

            def junk():
                if r.random() < .1:
                    f.comment(b'%' + r.choice(CANARY)[:r.choice([5, 9, 40])].encode())
                old()
            f.maybe_junk = junk
    o = dict(revs=r.choice([1, 1, 2, 3, 4]), build=dict(gens=r.random() < .4, sparse=r.choice([0, 0, .1]), dangling=True, wild=r.choice([0, 1, 1, 2]), version_override=True), prep=prep)
    if hostile:
        o['tweak'] = plant(c)
        c.count('hostile')
    o.update(opt)
    f, b = gen.random_file(r, **o)
    data = f.data()
    c.digest(data)
    for ly in f.layouts:
        c.feat('layout:' + ly)
    if not hostile and len(f.states) < 2:
        c.trivial()
    where = 'file ' + '/'.join(f.layouts)
    c.sample(f'{where}: hostile={hostile}, {len(data)} bytes')
    name = 'f%d.pdf' % r.randrange(1000)
    if r.random() < .5:
        name = ''.join(ch for ch in r.choice(CANARY + ['\udcff<b>', 'é&eacute;<i>', '${x}{y}%s', 'a\nb<u>']) if ch != '/') + '.pdf'
        c.count('hostile_names')
    p = os.path.join(c.tmpdir, name)
    with open(os.fsencode(p), 'wb') as h:
        h.write(data)
    _, out = L.capture('browse', p)
    os.unlink(os.fsencode(p))
    try:
        tree = htmltree.read(out)
    except htmltree.Bad as e:
        c.fail(f'{where}, name {name!r}: {e}')
    check_inert(c, tree, where)
    if '\udcff' not in name:
        c.check(name in tree.text(), f'{where}: the file name {name!r} is not displayed as such')
    # anchors and links
    ids = {}
    for e in tree.walk():
        if 'id' in e.attrs:
            c.check(e.attrs['id'] not in ids, f'{where}: id {e.attrs["id"]!r} occurs twice')
            ids[e.attrs['id']] = e
    for e in tree.find('a'):
        c.count('links')
        h = e.attrs.get('href')
        c.check(h, f'{where}: link without target {e}')
        if h.startswith('#'):
            c.check(h[1:] in ids, f'{where}: link {e.text()!r} leads to {h}, which does not exist')
    # blocks in file order
    blocks = [e for e in tree.find('div') if 'block' in e.cls()]
    want = []
    for kind, a, z, x in f.regions:
        if kind == 'XREFSTREAM':
            continue
        want.append((kind, a, x))
        if kind == 'IND_OBJ' and isinstance(x[2], Stm) and x[2].d.get(N('Type')) == b'ObjStm':
            want += [('EMB', (a, j), (n, x[0], v)) for j, (n, _, v) in enumerate(embedded(x[2]))]
    c.check(len(blocks) == len(want), f'{where}: {len(blocks)} blocks instead of {len(want)}')
    block_of = {}             # element of an anchor -> place
    place = {}
    for e, (kind, a, x) in zip(blocks, want):
        place[a] = e
        for s in e.walk():
            if 'id' in s.attrs:
                block_of[s.attrs['id']] = a
        c.check(e.attrs.get('id'), f'{where}: the block of {kind} at {a} has no anchor')
    links = lambda e: [(l.text(), block_of.get(l.attrs['href'][1:], '?')) for l in e.find('a')]
    # which place holds each number in each revision
    last = len(f.history) - 1
    spots = []
    for h in f.history:
        d = {}
        for n, e in h.items():
            if n and e[0] == 'n':
                d[n] = e[1]
        for n, e in h.items():
            if n and e[0] == 'c':
                d[n] = (d[e[1]], e[2])
        spots.append(d)
    live = {}                 # place -> (num, last revision)
    for ver, d in enumerate(spots):
        for n, a in d.items():
            live[a] = (n, ver)
    users = {}
    for kind, a, x in want:
        if kind in ('IND_OBJ', 'EMB') and a in live and live[a][1] == last:
            for ref in refs_of(x[2]):
                if ref.num in spots[last]:
                    users.setdefault(spots[last][ref.num], set()).add((str(live[a][0]), a))
    # trailers of the last revision
    tables = {a: t for a, t in trailers(f, data)}
    for a in tables:
        if a >= (f.ends[-2] if len(f.ends) > 1 else 0):
            for ref in refs_of(tables[a]):
                if ref.num in spots[last]:
                    users.setdefault(spots[last][ref.num], set()).add(('trailer', a))
                    c.count('trailer_users')
    sections = [s for s in L.run('file_object_map', P.filestruct.file_object_map, P.bdata_provider(data)) if s[2] not in ('VOID', 'XREFSTREAM')]
    c.check(len(sections) == len(want), f'{where}: {len(sections)} sections')
    for (kind, a, x), e, sec in zip(want, blocks, sections):
        c.count('blocks')
        txt = e.text()
        if kind == 'COMMENT':
            c.check(txt.isascii() and x[:5].decode('latin-1') in txt or not x.isascii() and x.hex() in txt, f'{where}: comment {x!r} shows as {txt!r}')
            continue
        if kind == 'STARTXREF':
            c.check(re.search(r'\b%d\b' % x, txt) and 'startxref' in txt, f'{where}: startxref {x} shows as {txt!r}')
            continue
        if kind == 'XREFTABLE':
            c.check('trailer' in txt, f'{where}: table shows as {short(txt)}')
            check_entries(c, e, x, a, spots, place, block_of, where)
            continue
        num = x[0]
        gen_ = x[1] if kind == 'IND_OBJ' else 0
        v = x[2]
        st = [x for x in e.find('strong')]
        c.check('%d %d obj' % (num, gen_) in txt and st and st[0].text() == str(num), f'{where}: block of object {num} {gen_} starts with {txt[:80]!r}')
        if kind == 'EMB':
            c.count('embedded')
        if a in live and live[a][1] < last:
            c.count('old_revision_blocks')
        want_t = []
        shown_values(sec[3]['obj'], True, want_t, None)
        isx = isinstance(v, Stm) and v.d.get(N('Type')) == b'XRef'
        for t in want_t:
            c.count('texts')
            if isinstance(t, Long):
                c.count('long_texts')
            c.check(displayed(t, txt), lambda: f'{where}: object {num}: {t!r} is not displayed in {short(txt, 400)}')
        plain = from_lib(sec[3]['obj'])
        if isinstance(plain, Stm) and plain.plain and not isx and all(ch >= 20 or ch in (10, 13) for ch in plain.plain):
            c.count('streams_shown')
            s = plain.plain.decode('latin-1')
            c.check(norm(s) in norm(txt), lambda: f'{where}: object {num}: stream {short(s)} is not displayed in {short(txt, 300)}')
        elif isinstance(plain, Stm) and plain.plain and not isx:
            c.count('binary_streams')
            s = '<' + plain.plain.hex() + '>'
            c.check(displayed(Long(s), txt), lambda: f'{where}: object {num}: binary stream {short(s)} is not displayed in {short(txt, 300)}')
        if a not in live:
            continue
        ver = live[a][1]
        ls = links(e)
        body = [l for l in ls if re.fullmatch(r'\d+ \d+ R', l[0])]
        wl = []
        for ref in refs_of(v):
            tgt = spots[ver].get(ref.num)
            if tgt is not None:
                wl.append((f'{ref.num} {ref.gen} R', tgt))
        c.count('ref_links', len(wl))
        c.check(sorted(map(repr, body)) == sorted(map(repr, wl)), lambda: f'{where}: object {num} at {a}: links {body} instead of {wl}')
        if isx:
            check_entries(c, e, None, a, spots, place, block_of, where)
        if kind == 'EMB' or not isx:
            ub = {l for l in ls if not re.fullmatch(r'\d+ \d+ R', l[0]) and not l[0].startswith('#') and not l[0].isdigit() or l[0].isdigit() and isinstance(l[1], (int, tuple)) and used_link(e, l)}
            wu = users.get(a, set()) if ver == last else set()
            c.count('used_in', len(wu))
            c.check(ub == wu, lambda: f'{where}: object {num} at {a}: used in {sorted(map(repr, ub))} instead of {sorted(map(repr, wu))}')
    # navigation
    pages = f.states[-1].pages()
    nav = [d for d in tree.find('details') if d.find('summary') and d.find('summary')[0].text().strip() == 'Pages']
    c.check(len(nav) == 1, f'{where}: {len(nav)} lists of pages')
    got = [(l.text(), block_of.get(l.attrs['href'][1:])) for l in nav[0].find('a')]
    wantp = [(str(i + 1), spots[last][pg[0]]) for i, pg in enumerate(pages)]
    c.count('page_links', len(wantp))
    c.check(got == wantp, lambda: f'{where}: links to pages {got} instead of {wantp}')
    nav = [d for d in tree.find('details') if d.find('summary') and d.find('summary')[0].text().strip() == 'Minimap']
    c.check(len(nav) == 1, f'{where}: {len(nav)} maps of objects')
    got, wantm = [], []
    for li in nav[0].find('li'):
        l = li.find('a')
        c.check(len(l) == 1, f'{where}: {len(l)} links in an item of the map')
        t = li.text().strip()[len(l[0].text().strip()):].split()
        got.append((l[0].text().strip(), block_of.get(l[0].attrs['href'][1:]), t[0] if t and t[0].startswith('/') else ''))
    for (kind, a, x), sec in zip(want, sections):
        if kind == 'XREFTABLE':
            wantm.append(('xref', a, ''))
        elif kind in ('IND_OBJ', 'EMB'):
            o = sec[3]['obj']
            o = o['entries'] if isinstance(o, P.Stream) else o
            t = o.get('/Type') if isinstance(o, dict) else ''
            wantm.append((str(x[0]), a, (t.split() or [''])[0] if isinstance(t, str) and t.startswith('/') else ''))
    c.count('map_items', len(wantm))
    bad = [(g, w) for g, w in zip(got, wantm) if g != w]
    c.check(got == wantm, lambda: f'{where}: map of objects: {len(got)} items for {len(wantm)}, (shown, expected) {bad[:3]}')


def norm(s):
    return s.replace('\r\n', '\n').replace('\r', '\n')


def used_link(e, l):
    """The link belongs to the header of the block, not to a Prev entry of the body."""
    for el in e.find('em'):
        if any(x.text() == l[0] for x in el.find('a')):
            return True
    return False


def trailers(f, data):
    """(position, trailer value) of the cross-reference tables, by the reference reader."""
    from ..refpdf import parse_value
    for kind, a, z, x in f.regions:
        if kind == 'XREFTABLE':
            i = data.find(b'trailer', a)
            yield a, parse_value(data, i + 7)[0]


def check_entries(c, e, log, a, spots, place, block_of, where):
    """Entries of a section link to the objects they index."""
    for l in e.find('a'):
        m = re.fullmatch(r'#(\d+) (\d+)', l.text())
        if m:
            n = int(m[1])
            tgt = block_of.get(l.attrs['href'][1:])
            c.count('entry_links')
            c.check(any(s.get(n) == tgt for s in spots), f'{where}: entry {l.text()} of the section at {a} leads to the block at {tgt}')


def d_layout(layout, n):
    def f(c):
        c.r.seed(f'20{layout}{n}')
        case(c, **(dict(linearized=True) if layout == 'lin' else dict(linearized=False, layouts=[layout])))
    return f


DIRECTED = {f'{ly}{k}': d_layout(ly, k) for ly in ['table', 'stream', 'objstm', 'hybrid', 'lin'] for k in range(4)}
