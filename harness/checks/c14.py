"""C14: adding a text annotation adds exactly that annotation.

Monitor: after every addition the annotation arrays of all pages, the new annotation (its text decoded by an independent decoder), and the equality of every
other object are compared with a list model; again after writing and reopening."""
from ..lib import Name, Str, Ref, Stm, from_lib, short, same, differ
from .. import gen, docs, edits, textref
from . import c04, c07

ID = 'C14'
QUICK, THOROUGH = 1500, 26000
SCALED = 12
RULE = ('random sequences of annotations with any Unicode text on pages whose annotation list is absent, null, empty, direct or referenced, mixed with commits, rotations '
        'and reopening; distinct: texts and places; non-trivial: at least one annotation on a page that has some, or a text outside ASCII')
NEED = {'oracle_checks': 60000, 'annotations': 3000, 'list:absent': 300, 'list:direct': 300, 'list:indirect': 300, 'list:null': 30, 'text:utf16': 500, 'text:ascii': 300,
        'untouched_objects': 20000, 'repeated': 400, 'files': 600, 'escaped': 200}
N = docs.N


def tweak_for(c):
    r = c.r

    def tweak(b):
        for n, (g, v) in list(b.doc.objs.items()):
            if isinstance(v, dict) and v.get(N('Type')) == b'Page' and N('Annots') not in v and r.random() < .2:
                v = dict(v)
                v[N('Annots')] = r.choice([None, Ref(b.alloc.next + 700, 0), [], None])
                if r.random() < .2:
                    v[N('Annots')] = b.new([])
                b.doc.objs[n] = (g, v)
    return tweak


def annots(live, num):
    """(kind, list) of the annotation list of a page."""
    v = live[num][1].get(N('Annots'))
    kind = 'absent' if N('Annots') not in live[num][1] else 'null' if v is None else 'direct'
    holder = None
    if isinstance(v, Ref):
        kind, holder = 'indirect', v.num
        v = live[v.num][1] if v.num in live else None
        if v is None:
            kind = 'null'
    return kind, list(v or []), holder


def rect(r):
    return [r.choice([r.randint(-500, 900), round(r.uniform(-10, 900), r.randint(1, 5))]) for _ in range(4)]


def case(c):
    r, L = c.r, c.L
    if r.random() < .15:
        doc, desc, fo = edits.blank(c), 'blank', None
    else:
        f, b = gen.random_file(r, revs=r.choice([1, 1, 2]), tweak=tweak_for(c), build=dict(objects=r.choice([0, 2]), pages=r.choice([1, 2, 3, 4]), gens=r.random() < .2))
        doc, fo = c04.open_any(c, f.data())
        desc = '/'.join(f.layouts)
        for ly in f.layouts:
            c.feat('layout:' + ly)
    added = {}
    log = []
    trivial = True
    for step in range(r.choice([1, 2, 3, 4, 6])):
        refs = [from_lib(a[0]) for a in L.flat_page_tree(doc)]
        if not refs:
            break
        i = r.choice(list(added)) if added and r.random() < .4 else r.randrange(len(refs))
        if i >= len(refs):
            continue
        txt = textref.text(r)
        rc, op = rect(r), r.random() < .5
        before = L.live(doc)
        kind, old, holder = annots(before, refs[i].num)
        given = list(rc)
        if op or r.random() < .7:
            doc2 = L.add_text_annotation(doc, i, txt, rc, op)
        else:
            doc2 = L.add_text_annotation(doc, i, txt, rc)
        c.check(rc == given, f'{desc}: the rectangle passed was changed')
        c.count('annotations')
        c.count('list:' + kind)
        c.count('text:ascii' if txt.isascii() else 'text:utf16')
        if any(ch in txt for ch in '()\\\r\n'):
            c.count('escaped')
        if i in added:
            c.count('repeated')
        trivial &= txt.isascii() and not old
        desc += f' annot({i}, {kind}, {len(txt)} chars)'
        log.append((i, txt, rc, op))
        after = L.live(doc2)
        k2, new, holder2 = annots(after, refs[i].num)
        c.check(len(new) == len(old) + 1 and new[:-1] == old, lambda: f'{desc}: annotation list {old} became {new}')
        a = new[-1]
        c.check(isinstance(a, Ref) and a.num not in before, f'{desc}: the new item is {a!r}')
        check_annot(c, L, doc2, a, (txt, rc, op), desc)
        allowed = {a.num}
        for n in after:
            if n not in before:
                c.check(n == a.num or n == holder2, f'{desc}: object {n} appeared')
        for n in before:
            c.check(n in after, f'{desc}: object {n} disappeared')
            if n == holder:
                c.check(from_lib(L.get_object(doc2, complex(0, n))) == new, f'{desc}: array {n}')
                continue
            x, y = before[n][1], after[n][1]
            if n == refs[i].num:
                drop = lambda d: {k: v for k, v in d.items() if k != b'Annots'}
                c.check(same(drop(x), drop(y)), lambda: f'{desc}: page object: {differ(drop(x), drop(y))}')
                continue
            c.count('untouched_objects')
            c.check(docs.same_value(x, y), lambda: f'{desc}: object {n}: {docs.diff_value(x, y)}')
        for j, p in enumerate(refs):
            if j != i and not (holder is not None and annots(before, p.num)[2] == holder):
                c.check(annots(after, p.num)[1] == annots(before, p.num)[1], f'{desc}: annotations of page {j} changed')
        c.check([from_lib(x[0]) for x in L.flat_page_tree(doc2)] == refs, f'{desc}: the page list changed')
        c.check(same(L.trail(doc), L.trail(doc2)), f'{desc}: the trailer changed')
        doc = doc2
        added.setdefault(i, []).append((a, (txt, rc, op)))
        x = r.random()
        if x < .2:
            doc = L.commit(doc)
            desc += ' commit'
        elif x < .3:
            doc = L.rotate(doc, 90)
            desc += ' rotate'
        elif x < .4:
            doc = L.loads(L.write(doc, c.path())[1])
            desc += ' reopened'
            c.count('files')
            check_added(c, L, doc, added, desc)
    if trivial:
        c.trivial()
    _, w = L.write(doc, c.path())
    d2, fo2 = c04.open_any(c, w)
    c.count('files')
    check_added(c, L, d2, added, desc + ' written and reopened')
    s1, s2 = docs.snapshot(L, doc), docs.snapshot(L, d2)
    for k in ('objects', 'pages'):
        d = docs.diff_snapshot({k: s1[k]}, {k: s2[k]})
        c.check(not d, f'{desc} written and reopened: {d}')
    c.digest(repr(log))
    c.sample(desc)
    for x in (fo, fo2):
        if x:
            x.close()


def check_annot(c, L, doc, a, given, where):
    txt, rc, op = given
    v = from_lib(L.get_object(doc, complex(a.gen, a.num)))
    c.check(isinstance(v, dict) and v.get(N('Type')) == b'Annot' and v.get(N('Subtype')) == b'Text', f'{where}: annotation {short(v)}')
    s = v.get(N('Contents'))
    try:
        t = textref.decode(s) if isinstance(s, Str) else None
    except (UnicodeDecodeError, KeyError) as e:
        t = f'<{e}>'
    c.check(t == txt, lambda: f'{where}: the text {short(txt)} became {short(t)} ({short(s)})')
    got = v.get(N('Rect'))
    c.check(isinstance(got, list) and len(got) == 4 and all(abs(x - y) <= 1e-4 + 1e-6 * abs(y) for x, y in zip(got, rc)), f'{where}: rectangle {got} for {rc}')
    c.check(v.get(N('Open')) is op, f'{where}: open flag {v.get(N("Open"))!r} for {op}')


def check_added(c, L, doc, added, where):
    live = L.live(doc)
    refs = [from_lib(a[0]) for a in L.flat_page_tree(doc)]
    for i, lst in added.items():
        _, cur, _ = annots(live, refs[i].num)
        c.check([a for a, _ in lst] == cur[-len(lst):], f'{where}: page {i} ends with {cur}, added {[a for a, _ in lst]}')
        for a, g in lst:
            check_annot(c, L, doc, a, g, where)


def d_n(i):
    def f(c):
        c.r.seed(14000 + i)
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(4)}
