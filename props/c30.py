"""Diagram and transaction files."""
import itertools
import os
import re
import tempfile

import fca
from fca import ConceptLattice
from fca.readwrite import dot, fimi

from mc import spaces
from mc.ref import Ref, covering
from mc.util import Frozen, masks_of_concepts

ID = 'C30'
BOUNDS = {
    'quick': 'lattices of all contexts up to 3x3 and of row multisets up to '
             '4x3, their transposes, in both writers, abbreviated or not; up '
             'to eight equal objects or attributes at a concept; all pairs '
             'out of 30 names; transaction files of all contexts up to 4x3 '
             'in five naming schemes; every way of construction and editing '
             'of 2x2, written in between; '
             'contexts of up to 1100 attributes or 1200 objects',
    'thorough': 'contexts up to 4x3 and 3x4 and row multisets up to 4x4, '
                'triples of names',
}
NAMES = ['a', 'a b', '"', '\\', '\\n', '\\"', 'a, b', ']', '[', '->', 'c0',
         'c0 -> c1', '}', '{', ';', '=', '//', '/*', '#', '<b>', '&amp;',
         "it's", 'a"b', '"a"', 'x\\', '0', '5', '...', 'label="x"', '%s']
UNICODE = ['é', '中文', 'ß "Ω"']


def cases(tier):
    q = tier == 'quick'
    for n in range(5):
        for k in range(5):
            if n * k <= (9 if q else 12) and max(n, k) <= (3 if q else 4):
                for rows in spaces.all_rows(n, k):
                    yield ['lattice', 'str', k, list(rows), 0]
    for k, rows in spaces.big('long nominal'):
        yield ['lattice', 'str', k, rows, 0]
        yield ['lattice', 'str', k, rows, 1]
    for k, rows in spaces.big():
        yield ['fimi', 'str', k, rows]
    for s in ('int', 'shared', 'tuple', 'mixed'):
        for rows in spaces.multisets(2, 2):
            yield ['lattice', s, 2, list(rows), 0]
    for way in spaces.WAYS:
        for rows in spaces.multisets(2, 2):
            yield ['way', way, 'str', 2, list(rows)]
    for n in range(4, 10):
        for rows in spaces.multisets(n, 1):
            yield ['lattice', 'str', 1, list(rows), 0]
            yield ['lattice', 'str', 1, list(rows), 1]
        for rows in spaces.multisets(n, 2):
            if len(set(rows)) < 3:
                yield ['lattice', 'str', 2, list(rows), 0]
                yield ['lattice', 'rev', 2, list(rows), 1]
    for rows in spaces.multisets(4, 3):
        yield ['lattice', 'rev', 3, list(rows), 0]
        yield ['lattice', 'str', 3, list(rows), 1]
    if not q:
        for rows in spaces.multisets(4, 4):
            yield ['lattice', 'str', 4, list(rows), 0]
    names = range(len(NAMES + UNICODE))
    for w in itertools.permutations(names, 2):
        yield ['names', list(w)]
    if not q:
        for w in itertools.combinations(names, 3):
            yield ['names', list(w)]
    for n in range(5):
        for k in range(4):
            for rows in spaces.all_rows(n, k):
                yield ['fimi', 'str', k, list(rows)]
    for s in ('int', 'rev', 'rot', 'shared', 'intrev'):
        for n, k in ((2, 2), (3, 3), (0, 2), (2, 0)):
            for rows in spaces.multisets(n, k):
                yield ['fimi', s, k, list(rows)]
    for label, k, rows in spaces.families(spaces.SMALL):
        yield ['fimi', 'str', k, rows]


# ------------------------------------------------------- reading a dot file

TOKEN = re.compile(r'\s+|"((?:[^"\\]|\\.)*)"|(->)|([\[\]{}=;,])|'
                   r'([A-Za-z0-9_.]+)', re.S)


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise ValueError('unreadable at %r' % text[pos:pos + 30])
        pos = m.end()
        if m.group(1) is not None:
            out.append(('text', m.group(1)))
        elif m.group(2) or m.group(3):
            out.append(('sign', m.group(2) or m.group(3)))
        elif m.group(4):
            out.append(('name', m.group(4)))
    return out


def parse(text):
    """nodes, [(from, to, attributes)]"""
    toks = tokens(text) + [('end', '')]
    i = 0

    def expect(*want):
        nonlocal i
        kind, value = toks[i]
        if value not in want or kind == 'text':
            raise ValueError('%r instead of %r' % (value, want))
        i += 1
        return value

    def attributes():
        nonlocal i
        out = {}
        while toks[i] == ('sign', '['):
            i += 1
            while toks[i] != ('sign', ']'):
                key = toks[i][1]
                i += 1
                expect('=')
                out[key] = toks[i][1]
                if toks[i][0] == 'sign':
                    raise ValueError('no value for ' + key)
                i += 1
                if toks[i] in (('sign', ','), ('sign', ';')):
                    i += 1
            i += 1
        return out
    expect('digraph')
    if toks[i][0] != 'sign':
        i += 1
    expect('{')
    nodes, edges = [], []
    while toks[i] != ('sign', '}'):
        if toks[i] == ('sign', ';'):
            i += 1
            continue
        kind, name = toks[i]
        if kind not in ('name', 'text'):
            raise ValueError('unexpected %r' % name)
        i += 1
        if toks[i] == ('sign', '='):
            i += 2
        elif toks[i] == ('sign', '->'):
            chain = [name]
            while toks[i] == ('sign', '->'):
                chain.append(toks[i + 1][1])
                i += 2
            a = attributes()
            edges += [(x, y, a) for x, y in zip(chain, chain[1:])]
        elif name in ('node', 'edge', 'graph'):
            attributes()
        else:
            nodes.append(name)
            attributes()
    expect('}')
    expect('')
    return nodes, edges


def label(text):
    """the names in a label, one on each line"""
    out, i = [''], 0
    while i < len(text):
        if text[i] == '\\':
            i += 1
            if text[i] in 'nlr':
                out.append('')
            else:
                out[-1] += text[i]
        else:
            out[-1] += text[i]
        i += 1
    return [x.strip(' ') if i else x for i, x in enumerate(out)]


def run(case, st):
    with tempfile.TemporaryDirectory() as folder:
        if case[0] == 'lattice':
            _, scheme, k, rows, turned = case
            ref = spaces.ref_of(scheme, k, rows)
            diagrams(st, ref.transpose() if turned else ref, folder)
        elif case[0] == 'way':
            spaces.run_way(case, st, lambda c, r: (
                draw(st, c, r, folder), transact(st, c, r, folder)))
        elif case[0] == 'names':
            pool = NAMES + UNICODE
            names = [pool[i] for i in case[1]]
            plain = all(x.isascii() for x in names)
            n = len(names)
            for o, a, rows in ((names, ['m', 'n'], [1, 2, 2][:n]),
                               (['o', 'p'], names, [1, (1 << n) - 2]),
                               (names, names[::-1], [3] * n)):
                diagrams(st, Ref(o, a, rows), folder, plain)
        else:
            transactions(case, st, folder)


def diagrams(st, ref, folder, plain=True):
    st.state(ref.key())
    draw(st, spaces.make(ref), ref, folder, plain)


def draw(st, cxt, ref, folder, plain=True):
    frozen = Frozen(cxt)
    lat = ConceptLattice(cxt)
    order = masks_of_concepts(ref, lat)
    path = os.path.join(folder, 'file.dot')
    for what, write in (
            ('write_dot', lambda: fca.write_dot(lat, path)),
            ('uwrite_dot', lambda: dot.uwrite_dot(lat, path)),
            ('uwrite_dot, full', lambda: dot.uwrite_dot(lat, path,
                                                        full=True))):
        if what == 'write_dot' and not plain:
            continue
        with open(path, 'w') as f:
            f.write('}' * 20000)
        write()
        st.eq('the lattice after ' + what, masks_of_concepts(ref, lat), order)
        with open(path, encoding='utf-8') as f:
            text = f.read()
        check(st, ref, order, text, what)
    frozen.check(st, 'writing a diagram')
    for write in (fca.write_dot, dot.uwrite_dot):
        st.raises('an empty file name', AssertionError, write, lat, '')


def check(st, ref, order, text, what):
    try:
        nodes, edges = parse(text)
    except (ValueError, IndexError) as e:
        st.true(what + ' writes a dot file', False, '%s: %s' % (e, text))
    st.eq(what + ': number of nodes', len(set(nodes)), len(order))
    st.eq(what + ': nodes declared once', len(nodes), len(order))
    # the i-th declared node is the i-th concept
    by = dict(zip(nodes, order))
    st.true(what + ': edges between nodes',
            all(x in by and y in by for x, y, _ in edges))
    drawn = sorted((by[x], by[y]) for x, y, _ in edges if x != y)
    ext = {e: i for e, i in order}
    cov = covering(ext)
    want = sorted(((e, ext[e]), (f, ext[f])) for e in ext for f in cov[e])
    st.eq(what + ': edges', drawn, want)
    heads, tails = {}, {}
    for x, y, a in edges:
        for key, into in (('headlabel', heads), ('taillabel', tails)):
            if key in a:
                st.true(what + ': one label of a kind at the node itself',
                        x == y and x not in into, (x, y, a))
                into[x] = label(a[key])
    st.outcome((tuple(want), len(heads), len(tails)))
    for node, (e, i) in by.items():
        own_o = sorted(str(o) for j, o in enumerate(ref.objects)
                       if ref.rows[j] == i)
        own_a = sorted(str(a) for j, a in enumerate(ref.attributes)
                       if ref.extent(1 << j) == e)
        for got, own in ((heads.get(node, []), own_o),
                         (tails.get(node, []), own_a)):
            judge_label(st, '%s: label of %s' % (what, (e, i)), what, got,
                        own)


def judge_label(st, text, what, got, own):
    if not own:
        st.eq(text, got, [])
    elif what == 'uwrite_dot' or what == 'write_dot' and len(own) >= 5:
        st.eq(text, got, [str(len(own))])
    elif what == 'uwrite_dot, full' and len(own) > 6:
        st.true(text, len(got) == 7 and got[-1] == '...'
                and len(set(got[:6])) == 6 and set(got[:6]) <= set(own),
                (got, own))
    else:
        st.eq(text, sorted(got), own)


def transactions(case, st, folder):
    _, scheme, k, rows = case
    ref = spaces.ref_of(scheme, k, rows)
    st.state(ref.key())
    transact(st, spaces.make(ref), ref, folder)


def transact(st, cxt, ref, folder):
    if any(isinstance(a, tuple) for a in ref.attributes):
        return
    frozen = Frozen(cxt)
    path = os.path.join(folder, 'file.dat')
    with open(path, 'w') as f:
        f.write('1 2 3\n' * 500)
    fimi.write_fimi(cxt, path)
    with open(path) as f:
        text = f.read()
    for name in (spaces.EXTRA_A, spaces.EXTRA_A2):
        text = text.replace(name, name.replace(' ', '_'))
    lines = text.split('\n')
    st.eq('the last line ends', lines.pop(), '')
    st.eq('transactions', [sorted(x.split()) for x in lines],
          [sorted(str(a).replace(' ', '_') for a in ref.anames(r))
           for r in ref.rows])
    frozen.check(st, 'write_fimi')
    st.outcome(text)
