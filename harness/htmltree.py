"""Strict reading of HTML: a tree of elements, every tag closed in order, no duplicate id."""
from html.parser import HTMLParser

VOID = {'meta', 'br', 'hr', 'img', 'link', 'input'}


class Bad(Exception):
    pass


class El:
    def __init__(self, tag, attrs, parent):
        self.tag, self.attrs, self.parent, self.kids = tag, attrs, parent, []

    def walk(self):
        yield self
        for k in self.kids:
            if isinstance(k, El):
                yield from k.walk()

    def text(self):
        out, todo = [], [self]
        while todo:
            x = todo.pop()
            if isinstance(x, str):
                out.append(x)
            else:
                todo.extend(reversed(x.kids))
        return ''.join(out)

    def find(self, tag):
        return [e for e in self.walk() if e.tag == tag]

    def cls(self):
        return (self.attrs.get('class') or '').split()

    def __repr__(self):
        return f'<{self.tag} {self.attrs}>'


class Reader(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = El('', {}, None)
        self.cur = self.root
        self.decls = []

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if len(d) != len(attrs):
            raise Bad(f'an attribute is repeated in {self.get_starttag_text()!r}')
        e = El(tag, d, self.cur)
        self.cur.kids.append(e)
        if tag not in VOID:
            self.cur = e

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            raise Bad(f'self-closed element {tag}')

    def handle_endtag(self, tag):
        if self.cur.tag != tag:
            raise Bad(f'</{tag}> closes <{self.cur.tag}> (line {self.getpos()[0]})')
        self.cur = self.cur.parent

    def handle_data(self, data):
        if data:
            if self.cur.kids and isinstance(self.cur.kids[-1], str):
                self.cur.kids[-1] += data
            else:
                self.cur.kids.append(data)

    def handle_comment(self, data):
        raise Bad(f'comment {data[:60]!r}')

    def handle_decl(self, decl):
        self.decls.append(decl)

    def unknown_decl(self, data):
        raise Bad(f'declaration {data[:60]!r}')

    def handle_pi(self, data):
        raise Bad(f'processing instruction {data[:60]!r}')


def read(text):
    r = Reader()
    r.feed(text)
    r.close()
    if r.cur is not r.root:
        raise Bad(f'<{r.cur.tag}> is not closed')
    r.root.decls = r.decls
    return r.root
