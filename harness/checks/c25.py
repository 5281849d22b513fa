"""C25: documentation rendering keeps text and nests tags properly.

Monitor: random documents are generated as a tree of the supported constructs and spelled as Markdown; the rendered page is read by a strict HTML reader (every tag closed in
order) and its tree compared with the generated one: elements in order, text word for word, code verbatim, link and image targets."""
import os
import subprocess
import sys
import sysconfig
from ..lib import REPO, short
from .. import gen, htmltree

ID = 'C25'
QUICK, THOROUGH = 15000, 200000
SCALES, SCALED = ['blocks', 'lines', 'items', 'cells', 'rows', 'code', 'quotes'], 10
RULE = ('random sequences of headings (both styles), paragraphs, lists, nested quotes, tables, indented and fenced code, with emphasis, code spans, links, images and line breaks '
        'inside, spelled with random blank lines, line ends, bullets, fences and delimiter rows; distinct: the Markdown text; non-trivial: at least two blocks')
NEED = {'oracle_checks': 20000, 'b:p': 5000, 'b:h': 2000, 'b:ul': 1000, 'b:ol': 1000, 'b:quote': 1000, 'b:table': 800, 'b:fence': 1000, 'b:indent': 700, 'i:em': 2000, 'i:strong': 2000,
        'i:both': 500, 'i:code': 2000, 'i:a': 2000, 'i:img': 800, 'i:br': 300, 'setext': 700, 'crlf': 500, 'no_end': 1000, 'tight': 500, 'nested_quotes': 200, 'words': 100000, 'pages': 20,
        'md_links': 200}

WORDS = ['a', 'PDF', 'file', 'Lorem', 'ipsum', 'x1', '42', 'été', 'snake_case', 'the_long_name', 'well-known', "don't", 'e.g.', 'end.', 'comma,', '(paren)', 'a/b', 'why?', 'wow!', '"q"', '50%', '$5',
         '1+1', 'a=b', 'semi;', 'colon:', '\u4e2d\u6587', 'C#', '[1]', '[note]', 'x@y.z', '~', '^', '{b}', '\\', 'A-1', 'UPPER', '3.14', 'a]', 'a--b', '7.', '-', '+', '#', '=']
HEAD = ['a', 'PDF', 'file', 'Lorem', 'ipsum', 'x1', 'été', 'snake_case', '42', '(paren)', '"q"', '\u4e2d\u6587', 'A-1', '[1]', '$5', 'comma,', 'wow!']
LABEL = ['a', 'PDF', 'snake_case', 'été', 'e.g.', '(paren)', 'wow!']
CODE = ['x = 1', '<b>', 'a & b', '&lt;', '*not em*', '_n_', '[x](y)', '![i](j)', '>>> f()', '{"a": [1]}', 'p->q', '**s**', "it's", '"', '#', '% pdf', '\\n', 'a  b', '<a href="x">', '&amp;amp;', '| a |',
        'def f(): return 1', 'é']


def word(r, first=False):
    return r.choice(HEAD if first else WORDS)


def url(r):
    seg = lambda: ''.join(r.choice('abcdefgXYZ0123456789') for _ in range(r.randint(1, 6)))
    x = r.random()
    if x < .25:
        return seg() + '.md'
    if x < .4:
        return '#' + seg()
    if x < .6:
        return f'https://{seg()}.org/{seg()}_{seg()}/?q={seg()}%20{seg()}#{seg()}'
    if x < .7:
        return f"/it's/{seg()}"
    return seg() + r.choice(['.html', '.png', '/', '.md#top', ''])


def words(r, n, first=False):
    return ' '.join(word(r, first and i == 0) for i in range(n))


def inline(c, n=None, first=False, depth=0, links=True, cell=False):
    """Random inline nodes: [(kind, ...)] separated by single spaces when spelled."""
    r = c.r
    out = []
    for i in range(n or r.choice([1, 1, 2, 3, 4, 6])):
        x = r.random()
        f = first and i == 0
        if x < .5 or depth > 1:
            out.append(('t', words(r, r.randint(1, 5), f)))
        elif x < .73 and depth == 0:
            k = r.choice(['em', 'strong', 'both'])
            sub = [('t', ' '.join(r.choice(HEAD + ['snake_case', 'e.g.', "don't"]) for _ in range(r.randint(1, 3))))]
            if r.random() < .2:
                sub.append(('code', code(r, cell)))
            if links and r.random() < .2:
                sub.append(('a', [('t', ' '.join(r.choice(LABEL) for _ in range(r.randint(1, 2))))], url(r)))
            out.append((k, sub, r.choice('**_')))
        elif x < .85:
            out.append(('code', code(r, cell)))
        elif x < .95 and links:
            sub = [('t', ' '.join(r.choice(LABEL) for _ in range(r.randint(1, 3))))]
            if r.random() < .25:
                sub = [r.choice([('code', code(r, cell).replace('[', '').replace(']', '')), ('em', sub, '*'), ('strong', sub, '*')])]
            out.append(('a', sub, url(r)))
        elif links:
            out.append(('img', ' '.join(r.choice(['a', 'PDF', "it's", 'été']) for _ in range(r.randint(0, 3))), url(r)))
        else:
            out.append(('t', words(r, 1, f)))
    return out


def code(r, cell=False):
    t = ' '.join(r.choice(CODE) for _ in range(r.choice([1, 1, 2])))
    return t.replace('|', '') or 'x' if cell else t


def spell(nodes):
    out = []
    for n in nodes:
        k = n[0]
        if k == 't':
            out.append(n[1])
        elif k in ('em', 'strong', 'both'):
            d = n[2] * {'em': 1, 'strong': 2, 'both': 3}[k]
            out.append(d + spell(n[1]) + d)
        elif k == 'code':
            out.append(f'`{n[1]}`')
        elif k == 'a':
            out.append(f'[{spell(n[1])}]({n[2]})')
        elif k == 'img':
            out.append(f'![{n[1]}]({n[2]})')
    return ' '.join(out)


def target(u):
    return u[:-3] + '.html' if u.endswith('.md') else u


def squeeze(t):
    return ' '.join(t.split())


def merge(items):
    """Adjacent texts joined, white space collapsed, ends trimmed."""
    out = []
    for x in items:
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)
    flat = [squeeze(x) if isinstance(x, str) else x for x in out]
    return [x for x in flat if x != '']


def model(c, nodes):
    """Expected inline content."""
    out = []
    for i, n in enumerate(nodes):
        if i:
            out.append(' ')
        k = n[0]
        if k == 't':
            out.append(n[1])
            c.count('words', len(n[1].split()))
            continue
        c.count('i:' + k)
        if k == 'br':
            out.append(('br',))
        elif k in ('em', 'strong', 'both'):
            sub = model(c, n[1])
            out.append({'em': ('em', sub), 'strong': ('strong', sub), 'both': ('em', [('strong', sub)])}[k])
        elif k == 'code':
            out.append(('code', n[1]))
        elif k == 'a':
            c.count('md_links', n[2].endswith('.md'))
            out.append(('a', target(n[2]), model(c, n[1])))
        elif k == 'img':
            out.append(('img', n[2], n[1]))
    return merge(out)


def seen(el):
    """Observed inline content."""
    out = []
    for k in el.kids:
        if isinstance(k, str):
            out.append(k)
        elif k.tag == 'br':
            out.append(('br',))
        elif k.tag == 'code':
            out.append(('code', k.text()))
        elif k.tag == 'a':
            out.append(('a', k.attrs.get('href'), seen(k)))
        elif k.tag == 'img':
            out.append(('img', k.attrs.get('src'), k.attrs.get('alt')))
        else:
            out.append((k.tag, seen(k)))
    return merge(out)


# ------------------------------------------------------------------ blocks

def para(c, prefix=''):
    """Lines of a paragraph and its inline nodes."""
    r = c.r
    lines, nodes = [], []
    n = r.choice([30, 100, 300]) if gen.large('lines') else r.choice([1, 1, 2, 3])
    for i in range(n):
        part = inline(c, first=True)
        br = i < n - 1 and r.random() < .15
        lines.append(prefix + spell(part) + ('  ' if br else ''))
        nodes += part
        if br:
            nodes.append(('br',))
    return lines, nodes


def quote(c, prefix, depth):
    """Lines and expected content of a quote: paragraphs and nested quotes."""
    r = c.r
    mine = prefix + '> '
    lines, exp = [], []
    for i in range(r.choice([20, 60]) if gen.large('quotes') else r.choice([1, 1, 2, 3])):
        if i:
            lines.append(mine.rstrip() if r.random() < .7 else mine)
        if i == 0 or depth >= 2 or r.random() < .6:
            ls, nodes = para(c, mine)
            lines += ls
            exp.append(('p', model(c, nodes)))
        else:
            ls, e = quote(c, mine, depth + 1)
            c.count('nested_quotes')
            lines += ls
            exp.append(e)
    return lines, ('blockquote', exp)


def block(c, kind):
    r = c.r
    c.count('b:' + kind)
    if kind == 'p':
        lines, nodes = para(c)
        return lines, ('p', model(c, nodes))
    if kind == 'h':
        if r.random() < .35:
            c.count('setext')
            nodes = inline(c, first=True)
            ch = r.choice('=-')
            return [spell(nodes), ch * r.choice([1, 2, 3, 10, len(spell(nodes))])], ('h1' if ch == '=' else 'h2', model(c, nodes))
        n = r.randint(1, 6)
        nodes = inline(c, first=True)
        return ['#' * n + ' ' + spell(nodes)], (f'h{n}', model(c, nodes))
    if kind in ('ul', 'ol'):
        ind = ' ' * r.choice([0, 0, 0, 1, 2])
        bullet = r.choice('*+-')
        start = r.choice([1, 1, 1, 9, 99, 1998])
        lines, exp = [], []
        for i in range(r.choice([60, 300]) if gen.large('items') else r.choice([1, 2, 3, 5, 12])):
            nodes = inline(c, first=True, n=r.choice([1, 1, 2]))
            lines.append(ind + (bullet if kind == 'ul' else f'{start + i}.') + ' ' + spell(nodes))
            exp.append(('li', model(c, nodes)))
        return lines, (kind, exp)
    if kind == 'quote':
        return quote(c, '', 0)
    if kind == 'table':
        w = r.choice([12, 26, 40]) if gen.large('cells') else r.randint(1, 4)

        def row(tag, tight=False):
            cells = [[] if r.random() < .08 and not (tag == 'th' or j == 0) else inline(c, n=r.choice([1, 1, 2]), first=True, cell=True) for j in range(w)]
            sep = '|' if tight else ' | '
            txt = ('|' if tight else '| ') + sep.join(spell(x) for x in cells) + ('|' if tight else ' |')
            return txt, ('tr', [(tag, model(c, x)) for x in cells])
        t, head = row('th')
        lines = [t]
        d = r.choice(['---', '--', '------', ':---', '---:', ':--:'])
        lines.append(r.choice(['| ' + ' | '.join([d] * w) + ' |', '|' + '|'.join([d] * w) + '|']))
        body = []
        for _ in range(r.choice([60, 300]) if gen.large('rows') else r.randint(0, 5)):
            t, e = row('td', r.random() < .25)
            lines.append(t)
            body.append(e)
        return lines, ('table', [('thead', [head]), ('tbody', body)])
    src = [r.choice(['', '', ' ', '    ', '        ', '  ']) + ' '.join(r.choice(CODE + WORDS) for _ in range(r.randint(1, 5))) + r.choice(['', '', '', ' ', '  ']) for _ in range(r.choice([60, 300]) if gen.large('code') else r.choice([1, 2, 3, 6]))]
    if kind == 'indent':
        return ['    ' + s for s in src], ('pre', src, 4)
    for i in range(len(src)):
        if r.random() < .15:
            src[i] = r.choice(['', '# title', '* item', '> quote', '| a | b |', '===', '---', '1. one', ' ```', '\ttab', '   '])
    if r.random() < .1:
        src = []
    return ['```' + r.choice(['', '', 'python', 'sh'])] + src + ['```'], ('pre', src, 0)


def observe(el, where):
    t = el.tag
    if t == 'pre':
        return ('pre', el.text())
    if t in ('ul', 'ol', 'table', 'thead', 'tbody', 'tr', 'blockquote'):
        out = []
        for k in el.kids:
            if isinstance(k, str):
                if k.strip():
                    return ('!', t, k)
                continue
            out.append(observe(k, where))
        return (t, out)
    return (t, seen(el))


def same(want, got):
    """None, or the first difference."""
    if want[0] != got[0]:
        return f'{short(got, 300)} instead of {short(want, 300)}'
    if want[0] == 'pre':
        ok = [''.join(s + '\n' for s in want[1])]
        if want[2]:
            ok.append(''.join(' ' * want[2] + s + '\n' for s in want[1]))
        if got[1].rstrip('\n') in [o.rstrip('\n') for o in ok] and got[1].count('\n') >= len(want[1]) - 1:
            return None
        return f'code {got[1]!r} instead of {ok[0]!r}'
    if want[0] in ('ul', 'ol', 'table', 'thead', 'tbody', 'tr', 'blockquote'):
        for a, b in zip(want[1], got[1]):
            d = same(a, b)
            if d:
                return f'in {want[0]}: {d}'
        if len(want[1]) != len(got[1]):
            return f'{want[0]} of {len(got[1])} elements instead of {len(want[1])}: {short(got, 400)}'
        return None
    if want[1] != got[1]:
        return f'{want[0]} {short(got[1], 500)} instead of {short(want[1], 500)}'


KINDS = ['p', 'p', 'p', 'h', 'h', 'ul', 'ol', 'quote', 'table', 'fence', 'indent']


FORCED = {'lines': 'p', 'items': 'ul', 'cells': 'table', 'rows': 'table', 'code': 'fence', 'quotes': 'quote'}


def document(c):
    """Markdown text and the expected blocks."""
    r = c.r
    n = r.choice([80, 200]) if gen.large('blocks') else 2 if gen.FORCE else r.choice([0, 1, 1, 2, 3, 5, 8, 15])
    lines, exp, prev = [], [], None
    for i in range(n):
        kind = FORCED.get(gen.FORCE) or r.choice(KINDS)
        if kind == 'indent' and prev in ('ul', 'ol', 'indent') or kind in ('ul', 'ol') and prev in ('ul', 'ol'):
            kind = 'p'
        ls, e = block(c, kind)
        if i == 0:
            gap = r.choice([0, 0, 0, 1, 2])
        else:
            setext = e[0] in ('h1', 'h2') and len(ls) == 2
            tight = kind == 'fence' and prev in ('p', 'h', 'fence') or kind == 'h' and not setext and prev in ('p', 'h', 'fence') or kind in ('p', 'ul', 'ol', 'quote', 'h') and prev in ('h', 'fence') \
                or kind == 'quote' and prev == 'p' or kind == 'ul' and prev == 'p'
            gap = 0 if tight and r.random() < .3 else r.choice([1, 1, 1, 2, 3])
            c.count('tight', gap == 0)
        lines += [r.choice(['', '', '', ' ', '  ', '     ']) for _ in range(gap)] + ls
        exp.append(e)
        prev = kind
    end = r.choice([0, 1, 1, 2, 3])
    c.count('no_end', end == 0)
    eol = '\r\n' if r.random() < .2 else '\n'
    c.count('crlf', eol != '\n')
    return eol.join(lines) + eol * end, exp


def compare(c, top, exp, md):
    got = []
    for k in top:
        if isinstance(k, str):
            c.check(not k.strip(), lambda: f'text {k!r} outside any block, from {short(md, 700)}')
        else:
            got.append(observe(k, md))
    for a, b in zip(exp, got):
        d = same(a, b)
        c.check(not d, lambda: f'{d}\n from {md!r}')
    c.check(len(got) == len(exp), lambda: f'{len(got)} blocks instead of {len(exp)}: {short(got[len(exp):] or exp[len(got):], 300)}\n from {md!r}')


def case(c):
    r, L = c.r, c.L
    from pdfsyntax import markdown
    md, exp = document(c)
    c.digest(md.encode())
    c.sample(short(md, 500))
    if len(exp) < 2:
        c.trivial()
    html = L.run('render_html', markdown.render_html, md)
    try:
        tree = htmltree.read(html)
    except htmltree.Bad as e:
        c.fail(f'{e}\n in {html!r}\n from {md!r}')
    compare(c, tree.kids, exp, md)
    if r.random() < .01:
        page(c, md, exp)


def page(c, md, exp):
    """The documentation page made by htmldoc.py."""
    c.count('pages')
    p = c.path()
    with open(p, 'w', encoding='utf-8', newline='') as f:
        f.write(md)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1')
    out = subprocess.run([sys.executable, os.path.join(REPO, 'htmldoc.py'), p], capture_output=True, env=env, timeout=60)
    os.unlink(p)
    c.check(out.returncode == 0, lambda: f'htmldoc.py: exit status {out.returncode}: {short(out.stderr, 300)}')
    text = out.stdout.decode('utf-8').replace('width="50"/>', 'width="50">').replace(' />', '>')
    try:
        tree = htmltree.read(text)
    except htmltree.Bad as e:
        c.fail(f'htmldoc.py: {e}\n from {md!r}')
    main = tree.find('main')
    c.check(len(main) == 1, f'htmldoc.py: {len(main)} main elements')
    compare(c, main[0].kids, exp, md)


def d_docs(c):
    """The documentation of the repository renders to nested tags and keeps its words."""
    import re
    from pdfsyntax import markdown
    for n in sorted(os.listdir(os.path.join(REPO, 'docs'))):
        if not n.endswith('.md'):
            continue
        with open(os.path.join(REPO, 'docs', n), encoding='utf-8') as f:
            md = f.read()
        tree = htmltree.read(c.L.run('render_html', markdown.render_html, md))
        got = re.findall(r'[^\W_]+', tree.text())
        want = re.findall(r'[^\W_]+', re.sub(r'(?m)^```\w*$|^\d+\. ', '', re.sub(r'\]\([^)]*\)', '', re.sub(r'!\[[^\]]*\]\([^)]*\)', '', md))))
        c.check(sorted(got) == sorted(want), lambda: f'{n}: words {short(sorted(set(want) ^ set(got)), 300)}')
        c.count('docs')
    c.digest(b'docs')


def d_hostile(c):
    """Unfinished constructs neither hang nor lose their text."""
    from pdfsyntax import markdown
    import re
    for md in ['a ](b', 'a [x](y', '](', '[](', '[]()', '*a', '**a *b', '`a', '``', '_', '***', '![', '![](', '> ', '>', '#', '# ', '*', '1.', '```', '```\na', '    ', '    a', '\n\n', '',
               'one\ntwo\n===', 'one  \ntwo\n---', '===', 'a ](b) c [d](e)', '[a [b](c)', 'a\n    b', '- a\n\n- b', '> a\n> > b\n>\n> c', '`a` `b` c`', '_a_b_ c_', 'a*b*c', '(_a_)', '*a_b*', '_a*b_']:
        html = c.L.run('render_html', markdown.render_html, md)
        got = re.findall('[a-z]+', htmltree.read(html).text())
        want = re.findall('[a-z]+', re.sub(r'(\[[^\[\]]*\])\([a-z]*\)', r'\1', md))
        c.check(sorted(''.join(got)) == sorted(''.join(want)), lambda: f'{md!r} becomes {html!r}')
        c.count('hostile')
    c.digest(b'hostile')


def d_n(i):
    def f(c):
        c.r.seed(25000 + i)
        case(c)
    return f


DIRECTED = {'docs': d_docs, 'hostile': d_hostile, **{f'n{i}': d_n(i) for i in range(3)}}
