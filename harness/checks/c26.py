"""C26: command line results agree with the library.

Monitor: every command runs, in a process of its own or through its entry point, on generated files; its exit status, standard output, standard error, output file and the
bytes and time stamp of its input file are compared with what the library reports for the same file."""
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile
from ..lib import Name, Ref, Stm, Str, P, REPO, Violation, from_lib, short
from .. import gen, docs, content, htmltree
from . import c04, c09, c10, c21, c23, c27

ID = 'C26'
QUICK, THOROUGH = 2000, 30000
RULE = ('generated files of every layout with fonts, text, metadata and unusual file names, each given to every command, part of them in a separate process, compress to a file, '
        'over an existing file and to standard output; distinct: file contents; non-trivial: the file has a page')
NEED = {'oracle_checks': 20000, 'cmd:browse': 500, 'cmd:disasm': 500, 'cmd:overview': 500, 'cmd:fonts': 500, 'cmd:text': 500, 'cmd:compress': 500, 'cmd:hexdump': 500, 'processes': 200,
        'regions': 10000, 'font_lines': 600, 'text_lines': 1500, 'metadata': 500, 'to_stdout': 150, 'to_file': 150, 'over_file': 60, 'in_place': 30, 'odd_names': 100, 'entries': 3000,
        'hex_bytes': 100000, 'browse_facts': 2000}
N = docs.N
COMMANDS = ['browse', 'disasm', 'overview', 'fonts', 'text', 'compress', 'hexdump']


def in_process(c, args):
    """main() with these arguments: (status, bytes written to standard output, text of standard error)."""
    from pdfsyntax import cli
    out, err = io.BytesIO(), io.StringIO()
    old = sys.stdout, sys.stderr, sys.argv
    wrap = sys.stdout = io.TextIOWrapper(out, encoding='utf-8', write_through=True, newline='\n')
    sys.stderr = err
    sys.argv = ['pdfsyntax'] + args
    status = 0
    try:
        c.L.run('main ' + args[0], cli.main)
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    finally:
        sys.stdout, sys.stderr, sys.argv = old
    wrap.flush()
    return status, out.getvalue(), err.getvalue()


def process(c, args):
    c.count('processes')
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONIOENCODING', None)
    if c.r.random() < .3:
        env.update(LC_ALL='C')
    p = subprocess.run([sys.executable, '-m', 'pdfsyntax'] + args, capture_output=True, env=env, cwd='/', timeout=120)
    return p.returncode, p.stdout, p.stderr.decode('utf-8', 'replace')


def some_file(c):
    """A file with pages, fonts, text and metadata."""
    r = c.r
    f = gen.File(r, wild=r.choice([0, 0, 1]))
    x = r.random()
    if x < .3:
        book = c27.Book(c)
        fonts = {N('F%d' % i): content.Font(r, book.new) for i in range(r.choice([1, 2, 3]))}
        for _ in range(r.choice([1, 1, 2, 4])):
            prog = content.Program(r, fonts)
            book.page({n: book.new(ft.value) for n, ft in fonts.items()}, [prog.spell(0)])
        book.doc.objs[book.root.num] = (0, {N('Type'): N('Pages'), N('Kids'): book.kids, N('Count'): len(book.kids)})
        doc, alloc, b = book.doc, book.alloc, None
    else:
        o = dict(wild=f.wild, gens=r.random() < .2, indirect_kids=r.random() < .2, pages=r.choice([None, None, 0, 1]), extras=r.random() < .5)
        if x < .6:
            b = c23.Fonts(r, fonts=False, **o)
        else:
            b = gen.Build(r, **o)
        doc, alloc = b.doc, b.alloc
    if r.random() < .6:
        info = {}
        for k in r.sample(['Title', 'Author', 'Subject', 'Keywords', 'Creator', 'Producer'], r.randint(1, 6)):
            t = r.choice(['Plain title', 'été <b>&', '\u4e2d\u6587 title', '(nested (parens))', 'two\nlines', ' padded ', '\U0001f600', 'x' * 300, 'null', '0'])
            info[N(k)] = Str(t.encode('ascii')) if t.isascii() else Str(b'\xfe\xff' + t.encode('utf-16be'))
        info[N('CreationDate')] = Str(b'D:20240102030405Z')
        n = alloc()
        doc.objs[n] = (0, info)
        doc.trailer[N('Info')] = Ref(n, 0)
    enc = r.random() < .06
    if enc:
        n = alloc()
        doc.objs[n] = (0, {N('Filter'): N('Standard'), N('V'): 1, N('R'): 2, N('P'): -4, N('O'): Str(b'o' * 32), N('U'): Str(b'u' * 32)})
        doc.trailer[N('Encrypt')] = Ref(n, 0)
    if r.random() < .1:
        f.linearized(doc, alloc, r.choice(['table', 'stream']))
    else:
        f.revision(doc, alloc, r.choice(gen.LAYOUTS))
    if b and not enc:
        for _ in range(r.choice([0, 0, 1, 2])):
            gen.mutate(r, b)
            f.revision(doc, alloc, r.choice(gen.LAYOUTS))
    return f, doc, enc


def text_of(out, where):
    try:
        return out.decode('utf-8')
    except UnicodeDecodeError as e:
        raise Violation(f'{where}: output is not UTF-8 text: {e}')


def check_overview(c, doc, out, enc, where):
    L = c.L
    s, m = L.structure(doc), L.metadata(doc)
    text = out
    pos = 0
    for k, v in s.items():
        line = f'{k}: {v}\n'
        i = text.find(line, pos)
        c.check(i >= 0, lambda: f'{where}: no line {line!r} in {short(out, 600)}')
        pos = i + len(line)
        c.count('entries')
    for k, v in m.items():
        line = f'{k}: #Encrypted#\n' if enc and v else f'{k}: {v}\n'
        i = text.find(line, pos)
        c.check(i >= 0, lambda: f'{where}: no line {line!r} in {short(out, 900)}')
        pos = i + len(line)
        c.count('entries')
        c.count('metadata', v is not None)


def check_fonts(c, doc, out, where):
    fs = c.L.fonts(doc)
    lines = [l for l in out.split('\n') if l.strip()][1:]
    c.check(len(lines) == len(fs), lambda: f'{where}: {len(lines)} lines for {len(fs)} fonts: {short(out, 600)}')
    rest = list(lines)
    for k, f in fs.items():
        want = [f['name'][:30].split(), f['type'][:10], f['encoding'][:16], f'{int(k.imag)},{int(k.real)}' if type(k) is complex else None, str(len(f['pages']))]
        for l in rest:
            w = l.split()
            tail = w[len(want[0]):]
            if w[:len(want[0])] == want[0] and len(tail) == 4 and tail[0] == want[1] and tail[1] == want[2] and tail[3] == want[4] and want[3] in (None, tail[2]):
                rest.remove(l)
                break
        else:
            c.fail(f'{where}: no line for font {want} in {short(out, 800)}')
        c.count('font_lines')


def check_text(c, doc, out, n, where):
    parts = []
    for i in range(n):
        parts.append(c.L.extract_page_text(doc, i))
    want = ''.join(p + '\n' for p in parts)
    c.count('text_lines', want.count('\n'))
    c.check(out.rstrip('\n') == want.rstrip('\n'), lambda: f'{where}: text {short(out, 500)} instead of {short(want, 500)}')


def check_disasm(c, data, sections, out, where):
    lines = out.split('\n')
    c.check(lines[-1] == '', f'{where}: output does not end with a line')
    rows = []
    for l in lines[:-1]:
        m = re.match(r'\+ (\d+) +\[(\d+) *\] (.*)', l)
        if m:
            rows.append((int(m.group(1)), int(m.group(2)), m.group(3)))
        else:
            c.check(l[:1] in '+-', lambda: f'{where}: line {l!r}')
    pos = 0
    for p, size, rest in rows:
        c.check(p == pos, f'{where}: region at {p} follows the end of a region at {pos}: {rest!r}')
        pos = p + size
        c.count('regions')
    c.check(pos == len(data), f'{where}: regions end at {pos}, file of {len(data)} bytes')
    got = [(a, b - a, t.lower()) for a, b, t, _ in sections if isinstance(a, int) and isinstance(b, int)]
    c.check([(p, s) for p, s, _ in rows] == [(p, s) for p, s, _ in got], lambda: f'{where}: regions {short(rows, 300)} instead of {short(got, 300)}')
    for (p, s, rest), (_, _, t) in zip(rows, got):
        c.check(t in rest.split(), f'{where}: region {t} at {p} shown as {rest!r}')


def check_hexdump(c, data, out, where):
    b = bytearray()
    for l in out.rstrip('\n').split('\n'):
        m = c21.LINE.match(l)
        c.check(m, lambda: f'{where}: line {l!r}')
        c.check(int(m[1]) == len(b), f'{where}: line {l!r} after {len(b)} bytes')
        x = bytes.fromhex(m[2] or '')
        want = ''.join(chr(v) if 32 <= v <= 126 else '.' for v in x)
        c.check(l[m.end():] == want + '|', f'{where}: line {l!r}, characters {want!r}')
        b += x
    c.count('hex_bytes', len(b))
    c.check(bytes(b) == data, lambda: f'{where}: the dump denotes {short(bytes(b), 200)}')


def check_browse(c, doc, path, out, where):
    s = c.L.structure(doc)
    try:
        tree = htmltree.read(out.strip())
    except htmltree.Bad as e:
        c.fail(f'{where}: page is not proper HTML: {e}')
    txt = tree.text() if callable(tree.text) else tree.text
    flat = ' '.join(txt.split())
    for k in ('Version', 'Page', 'Revision', 'Hybrid', 'Linearized'):
        v = s[{'Page': 'Pages', 'Revision': 'Revisions'}.get(k, k)]
        m = re.search(k + r'[^:\n]{0,4}: *(\S+)', flat)
        c.check(m and m.group(1).lower() == {True: 'yes', False: 'no'}.get(v if isinstance(v, bool) else None, str(v)), f'{where}: {k} is {v}, the page says {m and m.group()}')
        c.count('browse_facts')


def case(c):
    r, L = c.r, c.L
    f, model, enc = some_file(c)
    commands(c, f, model, enc)


def commands(c, f, model, enc):
    r, L = c.r, c.L
    data = f.data()
    c.digest(data)
    npages = len(model.pages())
    if not npages:
        c.trivial()
    c.sample(f'{f.layouts}: {npages} pages, {len(data)} bytes')
    box = tempfile.mkdtemp(prefix='vf26')
    try:
        name = r.choice(['a.pdf', 'a.pdf', 'with space.pdf', 'é\u4e2d.pdf', "q'<&>\".pdf", 'noextension', 'a.b.c.PDF', '%41.pdf', '*.pdf', '-o'])
        c.count('odd_names', name != 'a.pdf')
        path = os.path.join(box, name)
        with open(path, 'wb') as h:
            h.write(data)
        os.utime(path, (1000000000, 1000000000))
        doc = L.loads(data)
        sub = r.random() < .12
        order = list(COMMANDS)
        r.shuffle(order)
        if not sub and r.random() < .3:
            order = order[:3]
        for cmd in order:
            if cmd == 'compress' and enc:
                continue
            if cmd == 'text' and enc:
                continue
            args = [cmd, path]
            where = f'{cmd} of a file {f.layouts} named {name!r}'
            c.count('cmd:' + cmd)
            outpath = None
            if cmd == 'compress':
                x = r.random()
                if x < .6:
                    outpath = os.path.join(box, r.choice(['out.pdf', 'out é.pdf']))
                    if r.random() < .3:
                        with open(outpath, 'wb') as h:
                            h.write(bytes(r.randrange(256) for _ in range(r.choice([10, 100000]))))
                        c.count('over_file')
                    elif r.random() < .12:
                        outpath = path
                        c.count('in_place')
                    args = [[cmd, path, '-o', outpath], [cmd, path, '--output', outpath], [cmd, '-o', outpath, path], [cmd, f'--output={outpath}', path]][r.randrange(4)]
                    c.count('to_file')
                else:
                    c.count('to_stdout')
            st, out, err = (process if sub else in_process)(c, args)
            c.check(st == 0, lambda: f'{where}: exit status {st}: {short(err, 400)}')
            c.check(not err, lambda: f'{where}: standard error {short(err, 400)}')
            with open(path, 'rb') as h:
                now = h.read()
            if outpath != path:
                c.check(now == data, f'{where}: the input file was modified')
                c.check(os.stat(path).st_mtime == 1000000000, f'{where}: the input file was written to')
            left = sorted(set(os.listdir(box)) - {name} - {os.path.basename(outpath or name)})
            c.check(not left, f'{where}: files {left} appeared')
            if cmd == 'compress':
                if outpath:
                    c.check(out == b'', f'{where}: {len(out)} bytes on standard output besides the output file')
                    with open(outpath, 'rb') as h:
                        w = h.read()
                    os.unlink(outpath)
                else:
                    w = out
                c.check(w[:5] == b'%PDF-', f'{where}: output starts with {short(w[:20])}')
                base = L.loads(data)
                before = c09.graph_of(L, base)
                c10.compare_file(c, before, w, where)
                c10.compare(c, before, c09.graph_of(L, L.loads(w)), f'{where}, reopened')
                if outpath == path:
                    with open(path, 'wb') as h:
                        h.write(data)
                    os.utime(path, (1000000000, 1000000000))
                continue
            text = text_of(out, where)
            if cmd == 'overview':
                check_overview(c, doc, text, enc, where)
            elif cmd == 'fonts':
                check_fonts(c, doc, text, where)
            elif cmd == 'text':
                check_text(c, doc, text, npages, where)
            elif cmd == 'disasm':
                prov = L.bdata_provider(data)
                check_disasm(c, data, L.file_object_map(prov), text, where)
            elif cmd == 'hexdump':
                check_hexdump(c, data, text, where)
            else:
                check_browse(c, doc, path, text, where)
    finally:
        shutil.rmtree(box)


def d_usage(c):
    """Wrong usage fails and names the commands; help succeeds."""
    for args, want in [([], 2), (['nothing', 'x'], 2), (['text'], 2), (['-h'], 0), (['compress', '-h'], 0)]:
        st, out, err = in_process(c, args or ['--']) if args else process(c, [])
        c.check(st == want, f'{args}: exit status {st} instead of {want}')
        if args == ['-h']:
            for k in COMMANDS:
                c.check(k in out.decode(), f'help does not name {k}')
    c.digest(b'usage')


def d_n(i):
    def f(c):
        c.r.seed(26000 + i)
        case(c)
    return f


def d_many(c):
    """Documents of many pages and fonts."""
    r = c.r
    for n in (60, 130):
        f = gen.File(r)
        book = c27.Book(c)
        fonts = {N('F%d' % i): content.Font(r, book.new) for i in range(n // 5)}
        refs = {k: book.new(ft.value) for k, ft in fonts.items()}
        for i in range(n):
            k = r.choice(list(fonts))
            book.page({k: refs[k]}, [content.Program(r, {k: fonts[k]}).spell(0)] if i % 10 == 0 or i > n - 4 else [])
        book.doc.objs[book.root.num] = (0, {N('Type'): N('Pages'), N('Kids'): book.kids, N('Count'): n})
        f.revision(book.doc, book.alloc, r.choice(gen.LAYOUTS))
        commands(c, f, book.doc, False)
        c.count('many_pages')


DIRECTED = {'usage': d_usage, 'many': d_many, **{f'n{i}': d_n(i) for i in range(3)}}
