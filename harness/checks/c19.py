"""C19: the disassembly accounts for every byte and flags index errors.

Monitor: the file map of generated files is compared, region by region, with the generator's own record of what it wrote where; index entries are then falsified and
unindexed objects planted, and the two index checks and the printed disassembly must name exactly those."""
import io
import os
import re
from ..lib import Name, Ref, Stm, from_lib, short, same, P
from ..refpdf import parse_all, parse_value, skip_ws
from .. import gen, docs

ID = 'C19'
QUICK, THOROUGH = 2500, 50000
SCALED = 12
RULE = ('random files of 1-4 revisions in every index layout, half of them with wrong offsets, generations, containers or positions in some index entries, entries declared free, '
        'and objects no entry leads to; distinct: file bytes; non-trivial: more than five regions')
NEED = {'oracle_checks': 60000, 'regions': 20000, 'embedded': 3000, 'entries': 20000, 'flagged': 800, 'unindexed': 800, 'flagged_emb': 150, 'unindexed_emb': 100, 'clean': 500,
        'disasm_lines': 20000, 'layout:hybrid': 100, 'layout:lintable': 20, 'layout:linstream': 20, 'shared_address': 80, 'kinds': 10000, 'stray_tokens': 700, 'detail_entries': 1500, 'detail_filters': 800, 'detail_trailers': 1500, 'scripts': 70}
N = docs.N


def embedded(stm):
    """[(num, position in the stream, value)] of an object stream, by the reference parser."""
    first, out = stm.d[N('First')], []
    head = parse_all(stm.plain[:first])
    for n, off in zip(head[::2], head[1::2]):
        out.append((n, skip_ws(stm.plain, first + off), parse_value(stm.plain, first + off)[0]))
    return out


def falsify(c):
    """A hook spoiling some entries of a section."""
    r = c.r

    def tweak(f, ent):
        nums = [n for n in ent if n and ent[n][0] != 'f']
        for n in r.sample(nums, min(len(nums), r.choice([0, 1, 1, 2, 4]))):
            e = ent[n]
            if f.containers.get(n) in ('xref', 'objstm') and r.random() < .7:
                continue
            k = r.random()
            if e[0] == 'n':
                if k < .35:
                    ent[n] = ('n', max(0, e[1] + r.choice([-1, 1, 2, -3, 100])), e[2])
                elif k < .55:
                    ent[n] = ('n', e[1], (e[2] + r.choice([1, 2])) % 65536)
                elif k < .75:
                    o = r.choice(nums)
                    if ent[o][0] == 'n':
                        ent[n] = ('n', ent[o][1], e[2])
                elif k < .9:
                    ent[n] = ('f', 0, 65535)
                else:
                    ent[n] = ('n', 0, e[2])
            else:
                if k < .4:
                    ent[n] = ('c', e[1], e[2] + r.choice([1, 2, 50]))
                elif k < .6:
                    envs = [x for x in nums if x != e[1]]
                    if envs:
                        ent[n] = ('c', r.choice(envs), e[2])
                elif k < .8:
                    o = r.choice(nums)
                    if ent[o][0] == 'c':
                        ent[n] = ('c', ent[o][1], ent[o][2])
                else:
                    ent[n] = ('f', 0, 65535)
    return tweak


JUNK = [b'foo', b'(abc)', b'<12>', b'12', b'12 7', b'[1 2]', b'[(]) 1]', b'<</A 1>>', b'/Name', b'endobj', b'endstream', b'true', b'>>', b')', b']', b'}', b'{', b'\x80\x81', b'-1.5', b'R', b'12 0 R',
        b'<g>', b'>', b'>>>', b'xrefs', b'obj', b'f\x00g', b'trailer', b'null', b'.', b'+', b'EOF']


def stray(c):
    r = c.r
    junk = r.random() < .3

    def f(file):
        if junk and r.random() < .15:                 # what belongs to no object
            a = file.put(r.choice(JUNK))
            file.stray_bytes = getattr(file, 'stray_bytes', []) + [(a, len(file.out))]
            file.put(file.eol)
            c.count('stray_tokens')
        if r.random() < .06:
            n = r.choice([r.randint(1, 30), r.randint(1, 8), 5000])
            if r.random() < .25:
                ms = r.sample(range(1, 40), r.randint(1, 3))
                st = file.objstm([(m, r.choice([7, N('Lost'), {N('A'): Ref(1, 0)}])) for m in ms])
                if any(k == 'IND_OBJ' and x[0] == n and isinstance(x[2], Stm) for k, a, z, x in file.regions) or n < 1000:
                    n = 6000 + len(file.regions)
                file.write_obj(n, 0, st)
            else:
                file.write_obj(n, r.choice([0, 0, 1]), r.choice([7, None, [N('Lost')], {N('A'): Ref(1, 0)}, Stm({}, b'lost', b'lost')]))
    return f


def check_map(c, f, data, sections, where):
    regions = [x for x in f.regions if x[0] != 'XREFSTREAM']
    streams = {x[1]: x[3] for x in f.regions if x[0] == 'XREFSTREAM'}
    pos, i, k = 0, 0, 0
    while k < len(sections):
        a, z, kind, cont = sections[k]
        k += 1
        c.check(a == pos, lambda: f'{where}: region {kind} starts at {a} instead of {pos}')
        c.check(type(z) is int and a < z <= len(data), lambda: f'{where}: region {kind} at {a} ends at {z} of {len(data)}')
        pos = z
        c.count('regions')
        if kind == 'VOID':
            rest = [p for p in range(a, z) if data[p] not in b' \t\r\n\0\f' and not any(x <= p < y for x, y in getattr(f, 'stray_bytes', ()))]
            c.check(not rest, lambda: f'{where}: {data[a:z]!r} at {a} is no region')
            continue
        c.check(i < len(regions), lambda: f'{where}: unexpected region {kind} at {a}')
        wk, wa, wz, info = regions[i]
        i += 1
        c.check((kind, a, z) == (wk, wa, wz), lambda: f'{where}: region {kind} {a}-{z} instead of {wk} {wa}-{wz}: {short(data[wa:wz])}')
        if kind == 'COMMENT':
            c.check(cont == info, lambda: f'{where}: comment {cont!r} instead of {info!r}')
        elif kind == 'STARTXREF':
            c.check(int(cont) == info, lambda: f'{where}: startxref {cont!r} instead of {info}')
        elif kind == 'XREFTABLE':
            got = []
            for t in cont['table']:
                if len(t) != 2:
                    _, off, num, g, s = t[3]
                    got.append((num, ('f' if s == b'f' else 'n', off, g)))
            c.check(got == info, lambda: f'{where}: table at {a}: {short(got)} instead of {short(info)}')
            c.count('entries', len(got))
        else:
            num, g, v = info
            c.check((cont['o_num'], cont['o_gen']) == (num, g), lambda: f'{where}: object {cont["o_num"]} {cont["o_gen"]} at {a} instead of {num} {g}')
            got = from_lib(cont['obj'])
            if isinstance(v, Stm):
                c.check(isinstance(got, Stm) and (v.plain is None or docs.indirect_filters(v) or got.plain == v.plain) and got.raw == v.raw, lambda: f'{where}: object {num} at {a}: {short(got)} instead of {short(v)}')
            else:
                c.check(same(got, v), lambda: f'{where}: object {num} at {a}: {short(got)} instead of {short(v)}')
            if isinstance(v, Stm) and v.d.get(N('Type')) == b'ObjStm':
                for j, (n, p, x) in enumerate(embedded(v)):
                    c.check(k < len(sections) and sections[k][2] == 'IND_OBJ' and type(sections[k][1]) is tuple, lambda: f'{where}: object {n}, number {j} of the object stream {num}, is missing')
                    sa, sz, sk, sc = sections[k]
                    k += 1
                    c.count('embedded')
                    c.check(sz == (a, p, j), lambda: f'{where}: embedded object {n} is placed at {sz} instead of {(a, p, j)}')
                    c.check((sc['o_num'], sc['env_num']) == (n, num), lambda: f'{where}: embedded object {sc["o_num"]} of {sc["env_num"]} instead of {n} of {num}')
                    c.check(same(from_lib(sc['obj']), x), lambda: f'{where}: embedded object {n}: {short(sc["obj"])} instead of {short(x)}')
            if isinstance(v, Stm) and v.d.get(N('Type')) == b'XRef':
                c.check(k < len(sections) and sections[k][2] == 'XREFSTREAM' and sections[k][0] == a, lambda: f'{where}: no cross-reference stream listed at {a}')
                got = []
                for t in sections[k][3]['table']:
                    _, off, n, gg, s, env, _ = t[3]
                    got.append((n, ('c', env, off) if env is not None else ('f' if s == b'f' else 'n', off, gg)))
                k += 1
                c.check(got == streams[a], lambda: f'{where}: cross-reference stream at {a}: {short(got)} instead of {short(streams[a])}')
                c.count('entries', len(got))
    c.check(pos == len(data), lambda: f'{where}: the map ends at {pos} of {len(data)}')
    c.check(i == len(regions), lambda: f'{where}: {regions[i][0]} at {regions[i][1]} is missing')


def truth(f):
    """Objects of the file and entries of each section: ({('DIR', num, gen, pos) / ('EMB', num, env, index)}, {section position: [key]})"""
    objs, secs = set(), {}
    for k, a, z, x in f.regions:
        if k == 'IND_OBJ':
            num, g, v = x
            objs.add(('DIR', num, g, a))
            if isinstance(v, Stm) and v.d.get(N('Type')) == b'ObjStm':
                for j, (n, p, _) in enumerate(embedded(v)):
                    objs.add(('EMB', n, num, j))
        elif k in ('XREFTABLE', 'XREFSTREAM'):
            secs[a] = [('DIR', n, e[2], e[1]) if e[0] == 'n' else ('EMB', n, e[1], e[2]) for n, e in x if n and e[0] != 'f']
    return objs, secs


LINE = re.compile(r'^(?P<m>[+-]) (?P<pos>\d+)? *(?:\[(?P<size>\d+) *\])?(?P<rest>.*)$')


ABBR = {'ASCIIHexDecode': 'AHex', 'ASCII85Decode': 'A85', 'LZWDecode': 'LZW', 'FlateDecode': 'Flate', 'RunLengthDecode': 'RunL', 'CCITTFaxDecode': 'Fax', 'JBIG2Decode': 'JBIG2',
        'DCTDecode': 'DCT', 'JPXDecode': 'JPX', 'Crypt': 'Crypt'}
ENTRIES = ('Root', 'Prev', 'N', 'First')


def check_kind(c, words, v, where):
    """The kind of the value, the filters and ratio of a stream and its structural entries."""
    c.count('kinds')
    kind = 'stream' if isinstance(v, Stm) else 'dict' if isinstance(v, dict) else 'array' if isinstance(v, list) else 'int' if type(v) == int else 'other'
    c.check(kind in words, lambda: f'{where} holds a {kind} {short(v)}')
    d = v.d if isinstance(v, Stm) else v
    if kind in ('stream', 'dict'):
        t = d.get(N('Type'))
        if isinstance(t, Name) and t.isalnum():
            c.check('/' + t.decode() in [re.sub('#([0-9A-Fa-f]{2})', lambda m: chr(int(m[1], 16)), w) for w in words], lambda: f'{where} has the type {t}')
        if kind == 'dict' and N('Linearized') in d:
            c.check(any(w.startswith('/Linearized=') for w in words), lambda: f'{where} is the linearization dictionary')
        if kind == 'dict' or not docs.indirect_filters(v):
            js = d.get(N('JS')) is not None
            c.check(not js or '!/JS!' in words, lambda: f'{where} holds a script')
            c.check('!/JS!' not in words or N('JS') in d, lambda: f'{where} holds no script')
            c.count('scripts', js)
    if kind != 'stream':
        return
    for k in ENTRIES:
        x = d.get(N(k))
        if type(x) == int or isinstance(x, Ref):
            e = f'/{k}={x}' if type(x) == int else f'/{k}={x.num},{x.gen}'
            c.check(e in words, lambda: f'{where} has the entry {e}')
            c.count('detail_entries')
    flt = d.get(N('Filter'), [])
    flt = [flt] if isinstance(flt, Name) else flt
    if isinstance(flt, list) and flt and all(isinstance(x, Name) and x.decode('latin-1') in ABBR for x in flt):
        want = ''.join('_' + ABBR[x.decode()] for x in flt)
        c.check(want in words, lambda: f'{where} has the filters {want}')
        c.count('detail_filters')
    if v.plain is not None and not docs.indirect_filters(v):
        if v.plain:
            pc = len(v.raw) * 100 / len(v.plain)
            c.check(any(w[-1:] == '%' and w[:-1].isdigit() and abs(int(w[:-1]) - pc) <= 1 for w in words), lambda: f'{where} takes {pc:.0f}% of its data')
        else:
            c.check('!!' in words, lambda: f'{where} is a stream without data')


def check_trailer(c, words, d, where):
    """The line of a table shows where its trailer leads."""
    for k in ('XRefStm', 'Prev') if N('XRefStm') in d else ('Root', 'Prev'):
        x = d.get(N(k))
        if type(x) == int or isinstance(x, Ref):
            e = f'/{k}={x}' if type(x) == int else f'/{k}={x.num},{x.gen}'
            c.check(e in words, lambda: f'{where} whose trailer has the entry {e}')
            c.count('detail_trailers')


def check_disasm(c, f, path, data, bad, lost, where):
    sections, out = c.L.capture('dump_disasm', path)
    lines = out.split('\n')
    c.check(lines and lines[-1] == '', f'{where}: disassembly does not end with an end of line')
    lines = lines[:-1]
    k = 0
    inorder = []
    for kind, a, z, x in f.regions:
        if kind == 'XREFTABLE':
            inorder.append(('+', a, z, kind, None))
        elif kind != 'XREFSTREAM':
            inorder.append(('+', a, z, kind, x))
        if kind == 'IND_OBJ' and isinstance(x[2], Stm) and x[2].d.get(N('Type')) == b'ObjStm':
            inorder += [('-', n, x[0], 'ind_obj', (j, ev)) for j, (n, p, ev) in enumerate(embedded(x[2]))]
        if kind in ('XREFTABLE', 'XREFSTREAM'):
            inorder += [('-', n, e, 'xref', a) for n, e in x]
    for it in inorder:
        while k < len(lines) and re.match(r'^\+ .*\bvoid\b', lines[k]):
            k += 1
        c.check(k < len(lines), lambda: f'{where}: nothing printed for {short(it)}')
        ln = lines[k]
        k += 1
        c.count('disasm_lines')
        m = LINE.match(ln)
        c.check(m, f'{where}: line {ln!r}')
        words = m['rest'].split()
        flag = [w for w in words if w in ('-@', '@-', '-?', '?-')]
        if it[0] == '+':
            _, a, z, kind, x = it
            c.check(m['m'] == '+' and m['pos'] and int(m['pos']) == a and m['size'] and int(m['size']) == z - a and kind.lower() in words, lambda: f'{where}: line {ln!r} for {kind} {a}-{z}')
            if kind == 'IND_OBJ':
                key = ('DIR', x[0], x[1], a)
                c.check(f'{x[0]},{x[1]}' in words, lambda: f'{where}: line {ln!r} for object {x[0]} {x[1]}')
                want = '?-' if key in lost else '@-'
                check_kind(c, words, x[2], f'{where}: line {ln!r}, but object {x[0]}')
                c.check(flag == [want], lambda: f'{where}: line {ln!r} is flagged {flag} instead of {want}')
            elif kind == 'XREFTABLE':
                check_trailer(c, words, f.trailers[a], f'{where}: line {ln!r} for the table')
            elif kind == 'STARTXREF':
                c.check(words and words[-1].isdigit() and int(words[-1]) == x, lambda: f'{where}: line {ln!r} for startxref {x}')
        elif it[3] == 'ind_obj':
            _, n, env, _, (j, ev) = it
            check_kind(c, words, ev, f'{where}: line {ln!r}, but object {n} of {env}')
            want = '?-' if ('EMB', n, env, j) in lost else '@-'
            c.check(m['m'] == '-' and f'{n},' in words and f'{env},' in words and flag == [want], lambda: f'{where}: line {ln!r} for object {n} at {j} in {env}, expected {want}')
        else:
            _, n, e, _, a = it
            if e[0] == 'c':
                key, iref, addr = ('EMB', n, e[1], e[2]), f'{n},0', e[2]
            else:
                key, iref, addr = ('DIR', n, e[2], e[1]), f'{n},{e[2]}', e[1]
            want = '-?' if e[0] != 'f' and key in bad.get(a, ()) else '-@'
            c.check(m['m'] == '-' and iref in words and any(w.isdigit() and int(w) == addr for w in words) and ('free' if e[0] == 'f' else 'inuse') in words and (n == 0 or flag == [want]),
                    lambda: f'{where}: line {ln!r} for entry {n} {e} of the section at {a}, expected {want}')
    while k < len(lines) and re.match(r'^\+ .*\bvoid\b', lines[k]):
        k += 1
    c.check(k == len(lines), lambda: f'{where}: unexpected line {lines[k]!r}')


def case(c, **opt):
    r, L = c.r, c.L
    spoil = r.random() < .6

    def prep(f):
        f.junk = r.choice([.15, .15, .5, 0])
        if spoil:
            if r.random() < .8:
                f.tweak_ent = falsify(c)
            f.stray = stray(c)

    def entries(b):
        for n, (g, v) in b.doc.objs.items():
            if isinstance(v, Stm) and r.random() < .15:
                for k in r.sample(ENTRIES, r.choice([1, 2])):
                    v.d[N(k)] = r.choice([0, 0, 1, 3, 99999, b.cat])
    o = dict(revs=r.choice([1, 1, 2, 3, 4]), tweak=entries, build=dict(gens=r.random() < .4, sparse=r.choice([0, 0, .1]), dangling=True, wild=r.choice([0, 1, 1, 2])), prep=prep)
    o.update(opt)
    f, b = gen.random_file(r, **o)
    data = f.data()
    c.digest(data)
    for ly in f.layouts:
        c.feat('layout:' + ly)
    where = 'file ' + '/'.join(f.layouts)
    c.sample(f'{where}: {len(f.regions)} regions, {len(data)} bytes')
    if len(f.regions) <= 5:
        c.trivial()
    p = c.path()
    with open(p, 'wb') as h:
        h.write(data)
    fo = open(p, 'rb')
    fd = L.do('bdata_provider', lambda: P.bdata_provider(*r.choice([(data,), (io.BytesIO(data),), (fo, 'CONTINUOUS'), (fo,)])))
    sections = L.run('file_object_map', P.filestruct.file_object_map, fd)
    check_map(c, f, data, sections, where)
    # index checks
    objs, secs = truth(f)
    entries = {k for ks in secs.values() for k in ks}
    bad = {a: {k for k in ks if k not in objs} for a, ks in secs.items()}
    lost = objs - entries
    seq, _, _ = L.run('build_xref_sequence', P.filestruct.build_xref_sequence, fd)
    got = L.run('check_index_targets', P.filestruct.check_index_targets, sections, seq)
    c.check(set(got) == set(secs), lambda: f'{where}: sections checked: {sorted(got)} instead of {sorted(secs)}')
    for a in secs:
        g = [tuple(x) for x in got[a]]
        c.check(set(g) == bad[a] and len(g) == len(set(g)), lambda: f'{where}: section at {a}: wrong entries {short(sorted(g, key=repr))} instead of {short(sorted(bad[a], key=repr))}')
        c.count('flagged', len(g))
        c.count('flagged_emb', sum(x[0] == 'EMB' for x in g))
        ads = [k[3] for k in secs[a]]
        c.count('shared_address', any(ads.count(k[3]) > 1 for k in bad[a]))
    g = [tuple(x) for x in L.run('check_not_indexed_objects', P.filestruct.check_not_indexed_objects, sections, seq)]
    c.check(set(g) == lost and len(g) == len(lost), lambda: f'{where}: unindexed objects {short(sorted(g, key=repr))} instead of {short(sorted(lost, key=repr))}')
    c.count('unindexed', len(g))
    c.count('unindexed_emb', sum(x[0] == 'EMB' for x in g))
    c.count('clean', not lost and not any(bad.values()))
    check_disasm(c, f, p, data, bad, lost, where)
    fo.close()
    os.unlink(p)


def d_layout(layout, n):
    def f(c):
        c.r.seed(f'19{layout}{n}')
        case(c, **(dict(linearized=True) if layout == 'lin' else dict(linearized=False, layouts=[layout])))
    return f


DIRECTED = {f'{ly}{k}': d_layout(ly, k) for ly in ['table', 'stream', 'objstm', 'hybrid', 'lin'] for k in range(5)}
