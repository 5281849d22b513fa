"""C08: documents are immutable values.

Monitor: a pool of documents with everything they showed and wrote; after every library operation and inspection, all of them are observed again.
Every call's arguments are compared with a copy taken before it, returned containers are scrambled, and observations of a file are repeated after
other files were processed and in a fresh process."""
import copy
import json
import os
import subprocess
import sys
import hashlib
from ..lib import Lib, P, Violation, from_lib, short, REPO
from .. import gen, docs, edits

ID = 'C08'
QUICK, THOROUGH = 900, 16000
SCALED = 12
RULE = ('random sequences of every document operation over a pool of documents sharing ancestry, with inspections whose results are scrambled; all pooled '
        'documents observed after each step; distinct: sequence and final snapshots; non-trivial: at least two documents in the pool')
NEED = {'oracle_checks': 8000, 'observations': 5000, 'rewrites': 800, 'args_compared': 500, 'scrambled': 800, 'fresh_process': 5, 'repeat': 60,
        'op:squash': 15, 'op:compress': 15, 'op:concat': 15, 'op:rewind': 15, 'op:rewinds': 15, 'op:commit': 15, 'op:rotate': 15, 'op:annot': 15, 'op:remove': 15}
N = docs.N
OPS = edits.OPS + ['squash', 'compress', 'concat', 'append', 'rewind', 'rewind']


def plain(v):
    return isinstance(v, (list, dict, set)) and not isinstance(v, P.Doc)


class GuardLib(Lib):
    """Also checks that no call modifies the values it was given."""

    def __init__(self, c, base):
        super().__init__()
        self.__dict__['events'] = base.events
        self.__dict__['trace'] = base.trace
        self.__dict__['c'] = c

    def run(self, name, f, *a, **k):
        before = [(x, copy.deepcopy(x)) for x in list(a) + list(k.values()) if plain(x) or isinstance(x, P.Stream)]
        res = super().run(name, f, *a, **k)
        for x, y in before:
            self.c.count('args_compared')
            if x != y if isinstance(x, set) else repr(x) != repr(y):
                raise Violation(f'{name} modified its argument: {short(y)} became {short(x)}')
        return res


def scramble(v, r, depth=0):
    """Destroy a returned value in place."""
    if depth > 6:
        return
    if isinstance(v, P.Stream):
        scramble(v['entries'], r, depth + 1)
    elif isinstance(v, list):
        for x in list(v):
            scramble(x, r, depth + 1)
        v.reverse()
        v.append('/Scrambled')
        if r.random() < .5:
            del v[0]
    elif isinstance(v, dict):
        for x in list(v.values()):
            scramble(x, r, depth + 1)
        if r.random() < .5 and v:
            del v[next(iter(v))]
        for k in list(v):
            if r.random() < .4 and not callable(v[k]):
                v[k] = '/Scrambled'
        v['/Scrambled'] = 13
    elif isinstance(v, set):
        v.clear()
    elif isinstance(v, tuple):
        for x in v:
            scramble(x, r, depth + 1)


def inspect(c, doc):
    """Call one inspection function and scramble what it returns."""
    L, r = c.L, c.r
    n = L.number_pages(doc)
    refs = L.in_use(doc)
    p = r.randrange(n) if n else 0
    calls = ['get_object', 'get_object', 'trailer', 'catalog', 'info', 'metadata', 'pages', 'flat_page_tree', 'page_layouts', 'in_use', 'changes', 'structure',
             'list_streams', 'dependencies', 'obj', 'method', 'hybrid', 'envelopes', 'repr', 'len', 'revision_index', 'unused']
    if n:
        calls += ['get_page_contents', 'iter', 'get_page_fonts', 'text', 'fonts', 'browse']
    k = r.choice(calls)
    if k == 'get_object':
        v = L.get_object(doc, r.choice(refs))
    elif k == 'obj':
        v = L.do('doc.obj', lambda: doc.obj(int(r.choice(refs).imag)))
    elif k == 'method':
        m = r.choice(['trailer', 'catalog', 'metadata', 'structure', 'page_layouts', 'flat_page_tree', 'pages'])
        if m in ('structure', 'page_layouts') and not n:
            return
        v = L.do('doc.' + m, lambda: getattr(doc, m)())
    elif k == 'repr':
        v = L.do('repr', lambda: repr(doc))
    elif k == 'len':
        v = L.do('len', lambda: len(doc))
    elif k == 'iter':
        for i, d in enumerate(L.do('iter', lambda: list(zip(range(2), doc)))):
            docs.snapshot(L, d[1])
        v = None
    elif k == 'dependencies':
        v = L.dependencies(doc, L.trailer(doc))
    elif k == 'get_page_contents':
        v = L.get_page_contents(doc, p)
    elif k == 'text':
        v = L.extract_page_text(doc, p)
    elif k == 'get_page_fonts':
        v = L.get_page_fonts(doc, list(range(n)))
    elif k == 'browse':
        L.capture('browse', c.i_path)
        return
    elif k == 'unused':
        v = L.unused_nums(doc)
    elif k in ('structure', 'page_layouts') and not n:
        return
    else:
        v = getattr(L, k)(doc)
    c.feat('inspect:' + k)
    c.count('scrambled')
    scramble(v, r)


def observe(c, doc):
    c.count('observations')
    L = c.L
    s = docs.snapshot(L, doc)
    s['history'] = [(L.max_num(doc, k), L.in_use(doc, k)) for k in range(L.updates(doc) + 1)]
    s['index printout'] = L.capture('pprint_index', doc)[1]
    return s


def case(c):
    r = c.r
    L = c.L = GuardLib(c, c.L)
    pool = []                      # [doc, snapshot, written bytes]
    files = []
    c.i_path = c.path()

    def enter(doc, snap=None, w=None):
        pool.append([doc, snap, w])

    for _ in range(r.choice([1, 1, 2])):
        if r.random() < .25:
            doc = edits.blank(c)
            enter(doc)
        else:
            f, b = gen.random_file(r, revs=r.choice([1, 2, 2, 3, 4]), build=dict(gens=r.random() < .3, objects=r.choice([1, 3, 6])))
            data = f.data()
            files.append(data)
            with open(c.i_path, 'wb') as fh:
                fh.write(data)
            twin = L.loads(data)
            doc = L.loads(data)
            _, w = L.write(twin, c.path())
            enter(doc, observe(c, twin), w)       # doc itself is still cold
    log = []
    for step in range(r.choice([2, 3, 5])):
        for e in pool:
            if e[1] is None:
                e[1] = observe(c, e[0])
        i = r.randrange(len(pool))
        doc = pool[i][0]
        for _ in range(r.randint(0, 2)):
            inspect(c, doc)
        x = r.random()
        if x < .1 and L.number_pages(doc) > 0:
            n = L.number_pages(doc)
            a, z = sorted([r.randint(0, n), r.randint(0, n)])
            if r.random() < .5:
                res, nm = L.do('doc[i]', lambda: doc[r.randrange(n)]), 'index'
            else:
                res, nm = L.do('doc[a:b]', lambda: doc[a:z + 1]), 'slice'
        elif x < .2:
            other = r.choice(pool)[0]
            res, nm = L.do('doc + doc', lambda: doc + other), 'concat'
        elif x < .3:
            e = pool[i]
            res, w = L.write(doc, c.path()) if r.random() < .7 else L.write_stdout(doc)
            nm = 'write'
            if e[2] is not None:
                c.check(w == e[2], lambda: f'document {i} is now written differently ({len(w)} and {len(e[2])} bytes) after {" ".join(log)}')
            e[2] = w
            c.count('rewrites')
        elif x < .35:
            ss = L.list_streams(doc)
            res, nm = L.apply_filter(doc, r.sample(ss, r.randint(0, len(ss))), r.choice(['/FlateDecode', '/ASCIIHexDecode', None])), 'filter'
        elif x < .43 and L.updates(doc) > 1:
            res, nm = doc, 'rewinds'
            for _ in range(r.randint(2, min(4, L.updates(doc)))):
                enter(res, observe(c, res))
                res = L.rewind(res)
        elif x < .4:
            res, nm = L.force_xref_stream(doc), 'xrefstream'
        elif x < .45:
            v = edits.value(c, L.live(doc))
            res, iref = L.add_object(doc, v)
            s = observe(c, res)
            scramble(v, r)
            nm = 'addthenscramble'
            d = docs.diff_snapshot(s, observe(c, res))
            c.check(not d, f'changing a value after it was added to a document changes the document: {d}')
        else:
            res, nm = edits.op(c, doc, OPS)
        log.append(f'{nm}@{i}')
        c.count('op:' + nm)
        if isinstance(res, P.Doc):
            enter(res)
        if r.random() < .5:
            inspect(c, pool[-1][0])
        for j, e in enumerate(pool):
            if e[1] is None:
                e[1] = observe(c, e[0])
                continue
            got = observe(c, e[0])
            d = docs.diff_snapshot(e[1], got)
            c.count('oracle_checks')
            if d:
                c.fail(f'{nm} on document {i} changed document {j}: {d}', history=' '.join(log))
    for j, e in enumerate(pool):
        d2, w = L.write(e[0], c.path())
        c.count('rewrites')
        c.check(e[2] is None or w == e[2], lambda: f'document {j} is now written differently ({len(w)} instead of {len(e[2])} bytes) after {" ".join(log)}')
        got = observe(c, e[0])
        d = docs.diff_snapshot(e[1], got)
        c.check(not d, f'writing changed document {j}: {d}', history=' '.join(log))
    # mutate what the library handed out, then observe every document a last time
    if len(pool) < 2:
        c.trivial()
    c.sample(' '.join(log))
    c.digest(repr(log) + repr([len(e[1]['objects']) for e in pool]))
    if files and c.i_num % 3 == 0:
        c.count('repeat')
        o = [observe_file(x) for x in files]
        other, _ = gen.random_file(r, revs=1)
        observe_file(other.data())
        c.check([observe_file(x) for x in files] == o, 'the same file gives different results after other files were processed')
        if c.i_num % 30 == 0:
            c.count('fresh_process')
            p = c.path()
            with open(p, 'wb') as fh:
                fh.write(files[0])
            out = subprocess.run([sys.executable, '-m', 'harness.checks.c08', p], capture_output=True, text=True, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                                 env=dict(os.environ, REPO=REPO), timeout=120)
            fresh = json.loads(out.stdout)
            diff = [k for k in fresh if fresh[k] != o[0][k]]
            c.check(not diff, f'{diff} of a file depend on what was processed before in the same process',
                    here={k: short(o[0][k]) for k in diff}, fresh={k: short(fresh[k]) for k in diff})


def observe_file(data):
    """Digests of everything the library says about a file."""
    import io
    L = Lib()
    out = {}

    def rec(k, f):
        try:
            v = f()
        except Exception as e:
            v = f'raises {e}'
        out[k] = repr(v)
    doc = L.loads(data)
    rec('snapshot', lambda: sorted(docs.snapshot(L, doc).items()))
    for k in ['metadata', 'structure', 'fonts', 'page_layouts', 'changes', 'hybrid', 'encrypted', 'version']:
        rec(k, lambda: getattr(L, k)(doc))
    rec('text', lambda: [L.extract_page_text(doc, i) for i in range(L.number_pages(doc))])
    rec('compressed', lambda: L.write_stdout(L.compress(doc))[1])
    rec('squashed', lambda: L.write_stdout(L.squash(doc))[1])
    rec('rewound', lambda: sorted(docs.snapshot(L, L.rewind(doc)).items()))
    rec('annot', lambda: L.write_stdout(L.add_text_annotation(doc, 0, 'x', [1, 2, 3, 4]))[1])
    rec('again', lambda: sorted(docs.snapshot(L, doc).items()))
    return {k: v if len(v) < 300 else hashlib.sha256(v.encode('utf-8', 'surrogatepass')).hexdigest() for k, v in out.items()}


_case = case


def case(c):
    c.i_num = c.i if isinstance(c.i, int) else 0
    _case(c)


def d_n(i):
    def f(c):
        c.r.seed(3000 + i)
        c.i = i * 30
        case(c)
    return f


DIRECTED = {f'n{i}': d_n(i) for i in range(6)}

if __name__ == '__main__':
    with open(sys.argv[1], 'rb') as fh_:
        print(json.dumps(observe_file(fh_.read())))
