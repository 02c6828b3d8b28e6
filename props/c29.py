"""Writing and reading xml files of concept systems."""
import itertools
import os
import tempfile
import xml.etree.ElementTree as ET

import fca
from fca import Concept, ConceptLattice, ConceptSystem
from fca.readwrite import xml_ as lib

from mc import spaces
from mc.ref import bits

ID = 'C29'
BOUNDS = {
    'quick': 'lattices of all contexts up to 3x3 and of row multisets up to '
             '4x3 in six naming schemes; all sequences of up to two and sets '
             'of three concepts over two objects and two attributes; all '
             'pairs out of 46 names; annotations with 20 values; every proper '
             'prefix of four files, and sound files read after it, in both '
             'readers; '
             'contexts of up to 1100 attributes or 1200 objects',
    'thorough': 'contexts up to 4x3 and 3x4, sequences of three and sets of '
                'four concepts, triples of names',
}
NAMES = ['a', '<', '>', '&', '&amp;', '<b>', ']]>', '<![CDATA[x]]>', '"', "'",
         'a b', 'a  b', 'é', '中文', '🙂', 'e\u0301', 'a & b', '--', '<!-- x -->',
         '&#65;', '&lt;', '%s', '{0}', '\\', 'id="o1"', '</object>', '?>',
         '<?xml?>', 'ß<é', 'o1', 'a1', 'G', 'M', 'ref', '0', '-1.5', 'None',
         'x' * 40000, 'é' * 3000, 'ab ' * 2000 + 'c', 'a=b', '#', 'a;b',
         '<a href="x">y</a>', 'Ω', '', 'a\u00a0b']
OTHER = [0, -1, 2.5, None, (1, 'a'), ('é', '<'), True, 10 ** 20]
META = [0, 1, 0.5, -2.25, 1e-300, 1e300, 1 / 3, 7, 0.1 + 0.2, 1.0, -0.0,
        float('inf'), 2 ** 60, 123456789.123456, 5e-324, 1e22, 100, 0.07,
        -1e-5, 3]
KEYS = ['stability', 'Extensional stability', 'A b c', 'éa', 'x', 'Probability',
        'Separation index', 'meta']


def cases(tier):
    q = tier == 'quick'
    for n in range(5):
        for k in range(5):
            if n * k <= (9 if q else 12) and max(n, k) <= (3 if q else 4):
                for rows in spaces.all_rows(n, k):
                    yield ['lattice', 'str', k, list(rows)]
    for k, rows in spaces.big('long'):
        yield ['lattice', 'str', k, rows]
    for s in ('rev', 'int', 'tuple', 'rot', 'shared', 'mixed'):
        for n, k in ((2, 2), (3, 2)):
            for rows in spaces.multisets(n, k):
                yield ['lattice', s, k, list(rows)]
    for rows in spaces.multisets(4, 3):
        yield ['lattice', 'str', 3, list(rows)]
    for r in range(3 if q else 4):
        for w in itertools.product(range(16), repeat=r):
            yield ['system', list(w)]
    for r in (3,) if q else (3, 4):
        for w in itertools.combinations(range(16), r):
            yield ['system', list(w)[::-1]]
    for i, j in itertools.combinations(range(len(NAMES)), 2):
        yield ['names', [i, j]]
    if not q:
        for w in itertools.combinations(range(len(NAMES)), 3):
            yield ['names', list(w)]
    for i, j in itertools.permutations(range(len(OTHER)), 2):
        yield ['other', [i, j]]
    for i in range(len(KEYS)):
        for j in range(len(META)):
            yield ['meta', i, j]
    for i in range(4):
        yield ['broken', i]


READERS = [('read_xml', fca.read_xml), ('uread_xml', lib.uread_xml)]


def texts(cs):
    return [({str(x) for x in c.extent}, {str(x) for x in c.intent},
             {k: float(v) for k, v in c.meta.items()}) for c in cs]


def judge(st, got, want, what):
    st.eq(what + ': number of concepts', len(got), len(want))
    st.true(what + ': a concept system', isinstance(got, ConceptSystem))
    for c, (e, i, m) in zip(got, want):
        st.eq(what + ': extent', c.extent, e)
        st.eq(what + ': intent', c.intent, i)
        st.eq(what + ': annotations', dict(c.meta), m)
        st.true(what + ': a concept', type(c) is Concept)


def load(path):
    with open(path, 'rb') as f:
        return f.read()


def round_trip(st, cs, folder, name='file.xml', again=()):
    path = os.path.join(folder, name)
    before = [(c, set(c.extent), set(c.intent), dict(c.meta)) for c in cs]
    with open(path, 'w') as f:
        f.write('<old/>' * 3000)
    fca.write_xml(path, cs)
    st.eq('concepts after writing', [(c, c.extent, c.intent, c.meta)
                                     for c in cs], before)
    data = load(path)
    ET.fromstring(data)
    want = texts(cs)
    for _ in range(2):
        for what, read in READERS:
            judge(st, read(path), want, what)
            for p, w in again:
                judge(st, read(p), w, what + ' of another file')
    st.true('reading changed the file', load(path) == data)
    st.outcome(hash(repr(sorted(map(repr, want)))) & 0xffffff)
    return path, want


def run(case, st):
    with tempfile.TemporaryDirectory() as folder:
        if case[0] == 'broken':
            return broken(case, st, folder)
        other = os.path.join(folder, 'other.xml')
        two = ConceptSystem([Concept(['o9', 'é'], ['a9']),
                             Concept([], ['a9', 'b9'])])
        two[0].meta['mark'] = 3
        fca.write_xml(other, two)
        again = [(other, texts(two))]
        for cs in systems(case, st):
            round_trip(st, cs, folder, again=again)


def systems(case, st):
    if case[0] == 'lattice':
        _, scheme, k, rows = case
        ref = spaces.ref_of(scheme, k, rows)
        st.state(ref.key())
        lat = ConceptLattice(spaces.make(ref))
        yield lat
        if scheme == 'str' and len(ref.concepts()) < 5:
            fca.compute_index(lat, fca.compute_istability, 'Stability')
            lat[0].meta['only one'] = 0.25
            yield lat
    elif case[0] == 'system':
        st.state(tuple(case[1]))
        cs = ConceptSystem()
        for x in case[1]:
            cs.append(Concept([('a', 'o')[i] for i in bits(x & 3)],
                              [('a', 'm')[j] for j in bits(x >> 2)]))
        yield cs
    elif case[0] in ('names', 'other'):
        names = [(NAMES if case[0] == 'names' else OTHER)[i]
                 for i in case[1]]
        st.state((case[0], tuple(case[1])))
        yield ConceptSystem([Concept(names, []), Concept(names[:1], names[1:]),
                             Concept([], names)])
        if case[0] == 'names':
            yield ConceptSystem([Concept(names[1:], names),
                                 Concept(names[:1], ['m'])])
    else:
        _, i, j = case
        st.state(('meta', i, j))
        a, b = Concept(['o'], ['m']), Concept([], ['m'])
        a.meta[KEYS[i]] = META[j]
        yield ConceptSystem([a, b])
        b.meta[KEYS[i]] = META[j - 1]
        b.meta[KEYS[i - 1]] = META[j - 2]
        a.meta[KEYS[i - 1]] = META[j]
        a.meta[KEYS[i - 2]] = META[j - 3]
        yield ConceptSystem([a, b, Concept(['o', 'p'], [])])


def broken(case, st, folder):
    annotated = Concept(['o1', 'é'], ['m'])
    annotated.meta['mark'] = 2
    systems = [ConceptSystem(), ConceptSystem([annotated]),
               ConceptSystem([Concept(['o1', 'o2'], []),
                              Concept(['o1'], ['<&>', 'n'])]),
               ConceptSystem([Concept(['p'], ['m']), annotated])]
    cs = systems[case[1]]
    good, want = round_trip(st, cs, folder)
    other, want2 = round_trip(st, systems[case[1] - 1], folder, 'other.xml')
    data = load(good)
    st.state(case[1])
    path = os.path.join(folder, 'broken.xml')
    end = data.rstrip()
    for i in range(len(end)):
        with open(path, 'wb') as f:
            f.write(end[:i])
        for what, read in READERS:
            st.raises('%s: cut after %d bytes' % (what, i), Exception, read,
                      path)
            judge(st, read(good), want, what + ' after a broken file')
            if i % 7 == 0:
                judge(st, read(other), want2, what + ' after a broken file')
