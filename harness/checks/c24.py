"""C24: the overview states the true facts about the file.

Monitor: files are generated with known version, revisions, pages, encryption entry, layouts, linearization and first page size; the structure summary, the single
functions behind it and the effect of raising the version are compared with these facts, before and after edits and rewriting."""
import re
from ..lib import Name, Ref, Stm, Str, from_lib, short
from .. import gen, docs, edits
from . import c04

ID = 'C24'
QUICK, THOROUGH = 5000, 90000
RULE = ('random files of every layout, header version, catalog version (direct, referenced, null), page size and revision count, linearized or not, with and without an '
        'encryption entry, opened in every mode, then edited, rewritten, and raised to other versions; distinct: the facts and the page size; '
        'non-trivial: more than one page or revision')
NEED = {'oracle_checks': 40000, 'facts': 2500, 'override': 250, 'lower_override': 150, 'hybrid': 250, 'linearized': 100, 'decoy': 100, 'encrypted': 150, 'revisions:1': 300,
        'revisions:3': 100, 'known_paper': 300, 'odd_paper': 300, 'raised': 400, 'not_raised': 400, 'edited': 500, 'header2': 100}
N = docs.N
VERSIONS = ['1.0', '1.1', '1.2', '1.3', '1.4', '1.5', '1.6', '1.7', '2.0']
MM = lambda x: round(x / 25.4 * 72)
SIZES = {'A%d' % i: (MM(w), MM(h)) for i, (w, h) in enumerate([(841, 1189), (594, 841), (420, 594), (297, 420), (210, 297), (148, 210), (105, 148), (74, 105), (52, 74), (37, 52), (26, 37)])}
SIZES.update({'US Letter': (612, 792), 'US Legal': (612, 1008), 'US Tabloid': (792, 1224)})


def num(v):
    return tuple(int(x) for x in v.split('.'))


def effective(header, doc):
    v = doc.deref(doc.deref(doc.trailer[N('Root')]).get(N('Version')))
    if isinstance(v, Name) and num(v.decode()) > num(header):
        return v.decode()
    return header


def box(c):
    """A first page size and its corners."""
    r = c.r
    x = r.random()
    if x < .4:
        w, h = r.choice(sorted(SIZES.values()))
        if r.random() < .2:
            w, h = h, w
    elif x < .6:
        w, h = r.randint(1, 3000), r.randint(1, 3000)
    elif x < .8:
        w, h = round(r.uniform(1, 3000), r.choice([1, 2, 3])), round(r.uniform(1, 3000), r.choice([1, 2]))
    else:
        w, h = r.choice(sorted(SIZES.values()))
        w, h = w + r.choice([-1, 0, 1, 5, 20]), h + r.choice([-20, 1, 5])
        w, h = max(w, 1), max(h, 1)
    x0, y0 = r.choice([(0, 0), (0, 0), (-100, -50), (10, 20), (0.5, 0.25)])
    b = [x0, y0, round(x0 + w, 4), round(y0 + h, 4)]
    if r.random() < .15:
        b[0], b[2] = b[2], b[0]
    if r.random() < .15:
        b[1], b[3] = b[3], b[1]
    return b


def set_box(c, b, mb):
    """Give the first page this media box, wherever it takes it from."""
    r, doc = c.r, b.doc
    ps = doc.pages()
    if not ps:
        return
    k = ps[0][0]
    v = list(mb)
    if r.random() < .2:
        i = r.randrange(4)
        v[i] = b.new(v[i])
    if r.random() < .2:
        v = b.new(v)
    g, d = doc.objs[k]
    if N('Parent') in d and r.random() < .4:
        chain, p = [], d[N('Parent')].num
        while p is not None:
            chain.append(p)
            p = doc.val(p)[N('Parent')].num if doc.val(p).get(N('Parent')) is not None else None
        d = {a: x for a, x in d.items() if a != N('MediaBox')}
        if r.random() < .2:
            d[N('MediaBox')] = None
        doc.objs[k] = (g, d)
        for p in chain:
            gp, dp = doc.objs[p]
            if p != chain[-1] and N('MediaBox') in dp:
                doc.objs[p] = (gp, {**dp, N('MediaBox'): v})
                return
        p = r.choice(chain)
        for q in chain:
            gq, dq = doc.objs[q]
            dq = {a: x for a, x in dq.items() if a != N('MediaBox')}
            if q == p:
                dq[N('MediaBox')] = v
            doc.objs[q] = (gq, dq)
            if q == p:
                break
    else:
        doc.objs[k] = (g, {**d, N('MediaBox'): v})


def check_paper(c, text, doc, where):
    ps = doc.pages()
    if not ps:
        c.check(text == 'no page', f'{where}: paper {text!r} of a document without pages')
        return
    b = [doc.deref(x) for x in doc.deref(ps[0][1][N('MediaBox')])]
    w, h = abs(b[2] - b[0]), abs(b[3] - b[1])
    m = re.fullmatch(r'(\d+)x(\d+)mm or ([\d.]+)x([\d.]+)in \((.*)\)', text)
    c.check(m, f'{where}: paper {text!r}')
    wm, hm, wi, hi = (float(x) for x in m.groups()[:4])
    c.check(abs(wm - w * 25.4 / 72) < 1.001 and abs(hm - h * 25.4 / 72) < 1.001, f'{where}: paper {text!r} for {w} x {h} points')
    c.check(abs(wi - w / 72) < .0051 and abs(hi - h / 72) < .0051, f'{where}: paper {text!r} for {w} x {h} points')
    name = m.group(5)
    exact = [k for k, v in SIZES.items() if v == (w, h)]
    if exact:
        c.count('known_paper')
        c.check(name == exact[0], f'{where}: paper {text!r} for {w} x {h} points, that is {exact[0]}')
    else:
        c.count('odd_paper')
        if name != 'unknown':
            near = {k for k, (a, z) in SIZES.items() if min(abs(a - w) + abs(z - h), abs(a - h) + abs(z - w)) <= 6}
            c.check(name in near, f'{where}: paper {text!r} for {w} x {h} points')


def facts(c, doc, state, header, revs, enc, hyb, lin, where):
    L = c.L
    s = L.structure(doc)
    c.count('facts')
    want = {'Version': effective(header, state), 'Pages': len(state.pages()), 'Revisions': revs, 'Encrypted': enc, 'Hybrid': hyb}
    if lin is not None:
        want['Linearized'] = lin
    for k, v in want.items():
        c.check(s[k] == v and type(s[k]) == type(v), f'{where}: {k} {s[k]!r} instead of {v!r}')
    check_paper(c, s['Paper of 1st page'], state, where)
    c.check(L.version(doc) == want['Version'] and L.updates(doc) == revs and L.encrypted(doc) == enc and L.hybrid(doc) == hyb and L.number_pages(doc) == want['Pages'],
            f'{where}: {want}, the functions say {L.version(doc)}, {L.updates(doc)}, {L.encrypted(doc)}, {L.hybrid(doc)}, {L.number_pages(doc)}')
    return want


def raise_version(c, doc, live, tr, want, where):
    """update_version raises to the maximum and changes nothing else."""
    r, L = c.r, c.L
    v = r.choice(VERSIONS)
    before = L.version(doc)
    new = L.update_version(doc, v)
    top = max(before, v, key=num)
    c.count('raised' if top != before else 'not_raised')
    w = f'{where}: raised to {v} from {before}'
    c.check(L.version(new) == top, f'{w}: version {L.version(new)}')
    c.check(L.version(doc) == before, f'{w}: the version of the document itself became {L.version(doc)}')

    def compare(d, w):
        got, cat = L.live(d), tr[N('Root')].num
        c.check(set(got) == set(live), f'{w}: objects {sorted(set(got) ^ set(live))} appeared or vanished')
        for n in live:
            a, b = live[n][1], got[n][1]
            if n == cat:
                a, b = ({k: x for k, x in d.items() if k != N('Version')} for d in (a, b))
            docs.check_value(c, a, b, f'{w}: object {n}')
        docs.check_trailer(c, tr, L.trail(d), f'{w}: trailer')
    compare(new, w)
    if r.random() < .5:
        d2, data = L.write(new, c.path())
        d3 = L.loads(data)
        c.check(L.version(d3) == top, f'{w}, written and reopened: version {L.version(d3)}')
        compare(d3, f'{w}, written and reopened')
    return new


def case(c):
    r, L = c.r, c.L
    header = r.choice(VERSIONS)
    f = gen.File(r, wild=r.choice([0, 0, 1]), version=header.encode())
    c.count('header2', header == '2.0')
    b = gen.Build(r, pages=r.choice([None, None, 0, 1, 12]), indirect_kids=r.random() < .2, gens=r.random() < .3, extras=r.random() < .5, forms=r.random() < .3, wild=f.wild)
    enc = r.random() < .15
    decoy = r.random() < .2

    def tweak():
        cat = b.doc.trailer[N('Root')].num
        g, v = b.doc.objs[cat]
        x = r.random()
        if x < .45:
            over = N(r.choice(VERSIONS))
            if r.random() < .12:
                over = b.new(over)
            v = {**v, N('Version'): over}
        elif x < .5:
            v = {**v, N('Version'): None}
        elif x < .6:
            v = {a: y for a, y in v.items() if a != N('Version')}
        b.doc.objs[cat] = (g, v)
        if r.random() < .7:
            set_box(c, b, box(c))
    tweak()
    if enc:
        d = {N('Filter'): N('Standard'), N('V'): 1, N('R'): 2, N('P'): -4, N('O'): Str(b'o' * 32), N('U'): Str(b'u' * 32)}
        b.doc.trailer[N('Encrypt')] = b.new(d) if r.random() < .7 else d
    elif r.random() < .05:
        b.doc.trailer[N('Encrypt')] = None
    if decoy:      # objects that only mention linearization
        ref = b.new(r.choice([{N('A'): {N('Linearized'): 1}}, [{N('Linearized'): 1}], Str(b'/Linearized 1'), {N('A'): N('Linearized')}, {N('VfId'): b.u(), N('NotLinearized'): 1}]))
        b.doc.objs = {ref.num: b.doc.objs[ref.num], **b.doc.objs}
        c.count('decoy')
    lin = r.random() < .15
    if lin:
        f.long_header = .4
        f.linearized(b.doc, b.alloc, r.choice(['table', 'stream']))
        c.count('linearized')
    else:
        f.revision(b.doc, b.alloc, r.choice(gen.LAYOUTS))
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        for _ in range(5):
            if gen.mutate(r, b, pages=True):
                break
        if r.random() < .5:
            tweak()
        f.revision(b.doc, b.alloc, r.choice(gen.LAYOUTS))
    n = len(f.states)
    c.count(f'revisions:{min(n, 3)}')
    hyb = 'hybrid' in f.layouts
    c.count('hybrid', hyb)
    c.count('encrypted', enc)
    ov = b.doc.deref(b.doc.deref(b.doc.trailer[N('Root')]).get(N('Version')))
    if isinstance(ov, Name):
        c.count('override' if num(ov.decode()) > num(header) else 'lower_override')
    doc, fo = c04.open_any(c, f.data(), 'ondemand' if lin and r.random() < .5 else None)
    where = f'header {header}, {n} revision(s) {f.layouts}'
    want = facts(c, doc, b.doc, header, n, enc, hyb, lin if n == 1 else None if lin else False, where)
    if n == 1 and want['Pages'] < 2:
        c.trivial()
    c.digest(repr((want, b.doc.pages()[:1])).encode())
    c.sample({**want, 'override': str(ov), 'linearized': lin})
    live, tr = L.live(doc), L.trail(doc)
    new = raise_version(c, doc, live, tr, want, where)
    again = facts(c, doc, b.doc, header, n, enc, hyb, None, f'{where}, after raising a copy')
    if r.random() < .4 and not enc:
        # facts that edits and rewriting must not change
        c.count('edited')
        d2 = new if r.random() < .5 else doc
        v2 = L.version(d2)
        exp = n
        pending = bool(L.changes(d2))
        for _ in range(r.randint(1, 4)):
            if r.random() < .3:
                d2 = L.commit(d2)
                exp += pending
                pending = False
            else:
                d2, nm = edits.op(c, d2, ('add', 'addref'))
                pending = True
        exp += pending
        d3, data = L.write(d2, c.path())
        s = L.structure(L.loads(data))
        where += ', edited, written and reopened'
        c.check(s['Version'] == v2, f'{where}: version {s["Version"]} instead of {v2}')
        c.check(s['Revisions'] == exp, f'{where}: {s["Revisions"]} revisions instead of {exp}')
        c.check(L.updates(d3) == exp, f'{where}, in memory: {L.updates(d3)} revisions instead of {exp}')
        c.check(s['Pages'] == want['Pages'] and s['Encrypted'] == enc and s['Hybrid'] == hyb, f'{where}: {s}')
        check_paper(c, s['Paper of 1st page'], b.doc, where)
        if r.random() < .5:
            q = L.squash(d3)
            c.check(L.version(q) == v2 and L.number_pages(q) == want['Pages'] and not L.hybrid(q), f'{where}, squashed: version {L.version(q)}')
    if fo:
        fo.close()


def d_n(i):
    def f(c):
        c.r.seed(24000 + i)
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(3)}
