"""C28: the inspection printouts describe the document as it is.

Monitor: the tables printed by pprint_index, pprint_cache, pprint_data_history, pprint_page_hierarchy and pprint_page_contents for generated multi-revision files and for edited
documents are parsed and compared with the generator's record of every offset, container, deletion and revision end, with the written file and with the reported changes."""
import re
from ..lib import Name, Ref, Stm, from_lib, short
from ..refpdf import RefPDF
from .. import gen, docs, edits
from . import c04, c19

ID = 'C28'
QUICK, THOROUGH = 2500, 40000
SCALED = 12
RULE = ('random files of 1-5 revisions in every layout, printed as loaded and after each step of a random history of edits and commits; distinct: file bytes; '
        'non-trivial: more than one revision')
NEED = {'oracle_checks': 1000000, 'cells': 300000, 'cell:moved': 80000, 'cell:env': 14000, 'cell:Deleted': 8000, 'cell:idem': 150000, 'marks': 200000, 'ends': 8000, 'added': 2000, 'nodes': 20000,
        'pages': 10000, 'layout:table': 500, 'layout:stream': 500, 'layout:objstm': 500, 'layout:hybrid': 500, 'layout:lintable': 80, 'layout:linstream': 80, 'committed': 1300, 'content': 2500,
        'section_positions': 9000}
N = docs.N


def table(c, text, where):
    """Rows of a printed table: [(label, [cells])]."""
    rows = []
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.strip():
            head, _, rest = l.partition('|')
            if not rest and i + 1 < len(lines):        # compact: the cells are on the next line
                i += 1
                _, _, rest = lines[i].partition('|')
            rows.append((head.strip(), [x.strip() for x in rest.split('|')]))
        i += 1
    return rows


def check_row(c, num, cells, hist, where, hist_of_box):
    """Cells of one object against its entry in force at each revision (None: nothing known of it)."""
    pos, env, gen_ = '', '', None
    dead = 'never'
    for j, cell in enumerate(cells[:len(hist)]):
        w = f'{where}: object {num}, revision {j}, cell {cell!r} of {cells}'
        e = hist[j]
        c.count('cells')
        t = cell.split()
        if e is None:                                 # never defined so far
            c.check(t and t[0] in ('idem', '-', 'Deleted'), f'{w}: the object is not defined')
            pos = None if t[0] == 'Deleted' else pos
            continue
        if e[0] == 'f':
            c.check(t[0] == 'Deleted' or t[0] in ('idem', '-') and dead == 'never', f'{w}: the object is free')
            c.count('cell:' + t[0])
            pos = env = None
            dead = True if dead != 'never' else dead
            continue
        same = j and hist[j - 1] == e
        c.check(t and t[0] != 'Deleted' and t[0] != '-', f'{w}: the object is defined by {e}')
        g = e[2] if e[0] == 'n' else 0
        if t[0] == 'idem':
            c.check(same, f'{w}: the definition is another one, {e}')
            c.check(len(t) == 1, f'{w}: idem, yet a new place')
            c.count('cell:idem')
        else:
            m = re.fullmatch(r'(\d+)/(\d+)/(\d+)', t[0])
            c.check(m, f'{w}: not understood')
            c.check(int(m[1]) == g, f'{w}: generation {g}')
            c.check(int(m[3]) <= j and (same or int(m[3]) == j), f'{w}: defined in revision {j}')
        p = str(e[1]) if e[0] == 'n' else '-'
        if e[0] == 'c' and len(t) > 1 and t[1] != '-' and '.' in t[1]:      # place within the container: its offset and the rank as a fraction
            box = hist_of_box(e[1], j)
            c.check(box and box[0] == 'n' and abs(float(t[1]) - box[1] - (e[2] + 1) / 10000) < 1e-6, f'{w}: the object is number {e[2]} in the container at {box}')
            p = t[1]
        elif e[0] == 'c' and same:
            p = pos
        v = str(e[1]) if e[0] == 'c' else ''
        if not same:
            want = [[a for a in ([p] if x else []) + ([v] if v and y else []) if a] for x in ([p != pos] if pos is not None else [True, False])
                    for y in ([True, False] if env is None or v == env else [True])]
            c.check(t[1:] in want, f'{w}: the object is at {e}, was at {pos} {env}')
            c.count('cell:moved')
            c.count('cell:env', bool(v))
        pos, env, dead = p, v, False


def sections(f):
    """Cross-reference sections of each revision: [[(kind, start)]]."""
    out = [[] for _ in f.states]
    for k, a, z, info in f.regions:
        if k in ('XREFTABLE', 'XREFSTREAM'):
            j = next(i for i, e in enumerate(f.ends) if a < e)
            out[j].append((k, a))
    return out


def check_index(c, L, doc, hist, f, where, compact=False):
    _, text = L.capture('pprint_index', doc, compact)
    rows = table(c, text, where)
    objs = {}
    rest = {}
    for lab, cells in rows:
        if lab.isdigit():
            c.check(int(lab) not in objs, f'{where}: object {lab} has two rows')
            objs[int(lab)] = cells
        else:
            rest[lab.split()[-1].strip('()')] = cells
    nums = {n for h in hist for n, e in h.items() if n}
    missing = {n for n in nums - set(objs) if any(h.get(n, 'f')[0] != 'f' for h in hist)}
    c.check(not missing, lambda: f'{where}: no row for the objects {sorted(missing)[:8]}: {short(text, 400)}')
    for n, cells in objs.items():
        c.check(len(cells) >= len(hist), f'{where}: {len(cells)} columns for object {n}, {len(hist)} revisions')
        check_row(c, n, cells, [h.get(n) for h in hist], where, lambda e, j: hist[j].get(e))
    for j, secs in enumerate(sections(f)):
        kinds = {k: a for k, a in secs}
        for key, k in (('xref_table_pos', 'XREFTABLE'), ('xref_stream_pos', 'XREFSTREAM')):
            got = rest[key][j]
            if f.layouts[j].startswith('lin') or f.layouts[j] == 'hybrid' and k == 'XREFSTREAM':
                continue
            c.check(got == str(kinds.get(k, '-')), f'{where}: {key} of revision {j} is {kinds.get(k)}, shown as {got!r}')
            c.count('section_positions')


def check_cache(c, L, doc, where):
    """Marks of changed objects; returns {num: mark}."""
    _, text = L.capture('pprint_cache', doc)
    lines = [l for l in text.split('\n') if l.strip()]
    c.check(lines and lines[0].split() == ['0123456789'], f'{where}: header {lines[:1]}')
    at = lines[0].index('0')
    marks = {}
    for l in lines[1:]:
        m = re.match(r' *(\d+)_ ', l)
        c.check(m, f'{where}: line {l!r}')
        c.check(int(m[1]) * 10 not in marks, f'{where}: two lines {m[1]}')
        c.check(m.end() == at, f'{where}: columns of {l!r} not below their header')
        for k, x in enumerate(l[at:].rstrip()):
            marks[int(m[1]) * 10 + k] = x
    chg = {int(i.imag): a for i, a in L.changes(doc)}
    for n, a in chg.items():
        c.check(marks.get(n) == a, f'{where}: object {n} changed ({a}), mark {marks.get(n)!r}')
    for n, x in marks.items():
        c.check(x in 'x-' or chg.get(n) == x, f'{where}: object {n} has the mark {x!r} but did not change')
    top = max(n for n in range(len(marks)))
    c.check(set(marks) == set(range(top + 1)), f'{where}: marks for {sorted(marks)[:30]}')
    c.count('marks', len(marks))
    return marks


def check_loaded(c, L, doc, where):
    """Objects that were read are marked, the others of an unread document are not."""
    before = check_cache(c, L, doc, where)
    free = [n for n, x in before.items() if x == '-' and n]
    inuse = {int(i.imag) for i in L.in_use(doc)}
    if free:
        n = c.r.choice(free)
        v = L.get_object(doc, complex(0, n))
        after = check_cache(c, L, doc, where)
        c.check((after[n] == 'x') == (n in inuse and v is not None) or v in (None, 'null'), f'{where}: object {n} was read, mark {after[n]!r}')
        c.count('read_marks')


def check_history(c, L, doc, ends, data, where, data0, loaded):
    _, text = L.capture('pprint_data_history', doc)
    size = len(data)
    rows = dict(table(c, text, where))
    for k in ('data_sz', 'eof_cut'):
        c.check(k in rows and len(rows[k]) == len(doc.data), f'{where}: {k}: {rows.get(k)}')
    for j, e in enumerate(ends):
        got = rows['eof_cut'][j]
        if got == 'None':
            c.check(j >= loaded, f'{where}: no end of revision {j}: {rows}')
            add = rows['add_data'][j]
            c.check(add == str(ends[j] - (ends[j - 1] if j > loaded else len(data0))) and rows['data_sz'][j] == str(ends[j]),
                    f'{where}: revision {j} added {ends[j] - ends[j - 1]} bytes up to {ends[j]}: {rows}')
            c.count('added')
        else:
            c.check(got.isdigit() and not data[min(e, int(got)):max(e, int(got))].strip(b'\r\n\t ') and int(got) <= len(data), f'{where}: revision {j} ends at {e}, shown as {got}')
        c.count('ends')
    for j, x in enumerate(rows['data_sz']):
        c.check(int(x) >= (ends[j] if j < len(ends) else ends[-1]) - 2 and int(x) <= size, f'{where}: data size {x} in revision {j}, {size} bytes in all')
    return rows


def check_tree(c, L, doc, where):
    _, text = L.capture('pprint_page_hierarchy', doc)
    lines = [l for l in text.split('\n') if l.strip()]
    m = re.match(r'Page count = (\S+)$', lines[0])
    cat, _ = L.catalog(doc)
    root = cat['/Pages']
    pages = L.flat_page_tree(doc)
    node = L.get_object(doc, root)
    c.check(m and m[1] == str(L.get_object(doc, node['/Count'])), f'{where}: {lines[0]!r}')
    want = []

    def walk(ref, depth):
        node = L.get_object(doc, ref)
        if node['/Type'] == '/Pages':
            kids = L.get_object(doc, node['/Kids'])
            want.append((depth, ref, 'Pages', len(kids)))
            for k in kids:
                walk(k, depth + 1)
        else:
            want.append((depth, ref, 'Page', node.get('/Contents')))
    walk(root, 1)
    got = []
    n = 0
    for l in lines[1:]:
        m = re.match(r'( +)/(Pages|Page) (?:node at (\S+), kids count = (\d+):|\[(\d+)\] at (\S+) with content\(s\) at (.*))$', l)
        c.check(m, f'{where}: line {l!r}')
        depth = (len(m[1]) - 1) // 4
        if m[2] == 'Pages':
            got.append((depth, complex(m[3]), 'Pages', int(m[4])))
        else:
            c.check(int(m[5]) == n, f'{where}: page {n} is numbered {m[5]}')
            n += 1
            got.append((depth, complex(m[6]), 'Page', m[7]))
    c.check(len(got) == len(want), lambda: f'{where}: {len(got)} nodes shown, {len(want)} in the document: {short(text, 500)}')
    for a, b in zip(got, want):
        c.check(a[:3] == b[:3] and (a[3] == b[3] or str(b[3]) == a[3]), f'{where}: node {a} instead of {b}')
        c.count('nodes')
    c.check([complex(x[1]) for x in got if x[2] == 'Page'] == [complex(p[0]) for p in pages], f'{where}: pages {got} in another order than the document')
    c.count('pages', n)


def check_contents(c, L, doc, where):
    r = c.r
    n = L.number_pages(doc)
    if not n:
        return
    i = r.randrange(n)
    want = [from_lib(s).plain for s in L.get_page_contents(doc, i)]
    res, text = L.capture('pprint_page_contents', doc, i)
    pat = ''.join(r'\s*\S*\s*' + re.escape(w.decode('latin-1')) for w in want) + r'\s*'
    c.check(re.fullmatch(pat, text), lambda: f'{where}: contents of page {i} are {short(want, 400)}, shown as {short(text, 400)}')
    c.count('content', len(want))


def all_of(c, L, doc, hist, ends, data, f, where, data0=None):
    check_index(c, L, doc, hist, f, where, c.r.random() < .3)
    check_history(c, L, doc, ends, data, where, data0 or data, len(f.states))
    check_loaded(c, L, doc, where)
    check_tree(c, L, doc, where)
    check_contents(c, L, doc, where)


def case(c):
    r, L = c.r, c.L
    f, b = gen.random_file(r, revs=r.choice([1, 2, 2, 3, 4, 5]), linearized=r.choice([None, None, None, 'table', 'stream']) if r.random() < .3 else None,
                           build=dict(gens=r.random() < .3, sparse=r.choice([0, 0, .1])))
    data = f.data()
    c.digest(data)
    if len(f.states) < 2:
        c.trivial()
    for ly in f.layouts:
        c.count('layout:' + ly)
    where = '/'.join(f.layouts)
    c.sample(f'{where}: {len(data)} bytes')
    doc = L.loads(data)
    hist = [dict(h) for h in f.history]
    ends = list(f.ends)
    all_of(c, L, doc, hist, ends, data, f, where)
    for step in range(r.choice([1, 2, 3])):
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            doc, k = edits.op(c, doc, [o for o in edits.OPS if o != 'commit'])
            where += ' ' + k
        check_cache(c, L, doc, where)
        check_tree(c, L, doc, where)
        if not L.changes(doc):
            continue
        doc = L.commit(doc)
        c.count('committed')
        where += ' commit'
        d2, w = L.write(doc, c.path())
        ref = RefPDF(w)
        h = dict(hist[-1])
        for n, e in ref.table.items():
            h[n] = tuple(e[:3])
        hist.append(h)
        ends.append(len(w))
        all_of(c, L, doc, hist, ends, w, f, where, data)


def d_n(i):
    def g(c):
        c.r.seed(28000 + i)
        case(c)
    return g


def d_sizes(c):
    """Documents of 8 to 12, 98 to 102 and 1200 objects: rows of ten and wide numbers."""
    r, L = c.r, c.L
    for k in (1, 2, 3, 4, 5, 6, 90, 91, 92, 93, 94, 1200):
        f = gen.File(r)
        b = gen.Build(r, pages=1, objects=0, extras=False) if False else gen.Build(r, pages=1)
        for _ in range(k):
            b.new({N('K'): r.randrange(99)})
        f.revision(b.doc, b.alloc, r.choice(['table', 'stream', 'objstm']))
        gen.mutate(r, b)
        f.revision(b.doc, b.alloc, r.choice(['table', 'stream', 'objstm']))
        data = f.data()
        doc = L.loads(data)
        all_of(c, L, doc, f.history, f.ends, data, f, f'{k} more objects')
    c.digest(b'sizes')


DIRECTED = {'sizes': d_sizes, **{f'n{i}': d_n(i) for i in range(4)}}
