"""A mutable collection of concepts answers order queries about its present
contents after every history of additions and removals."""
import itertools

from fca import Concept, ConceptSystem

from mc import spaces
from mc.ref import Ref, bits, covering
from mc.engine import show
from mc.util import masks_of_concepts

ID = 'C04'
BOUNDS = {
    'quick': 'all histories of length <= 4 of append/remove over the concepts '
             'of 5 contexts with 2..8 concepts (up to twice each), order '
             'queries answered in between or not, from empty and from full '
             'systems; every part of the lattices of all sets of up to three '
             'distinct rows over three attributes in two orders, with every '
             'single addition and removal, and removal of what is not there; '
             'parts of lattices of up to 1100 attributes or 128 concepts',
    'thorough': 'histories of length <= 5, parts of lattices of four rows',
}
BASES = [
    (1, [0]), (1, [0, 1]),
    (2, [0b01, 0b10]),
    (3, [0b001, 0b011, 0b111]),
    (3, [0b011, 0b101, 0b110]),
]


def cases(tier):
    depth = 4 if tier == 'quick' else 5
    for k, rows in spaces.big('long'):
        for start in range(4):
            yield ['large', k, rows, start]
    for base in range(len(BASES)):
        m = len(system(base)[1])
        d = depth if m <= 5 else depth - 1
        for start in ('empty', 'full'):
            for query in (0, 1):
                for length in range(d + 1):
                    for word in itertools.product(range(2 * m),
                                                  repeat=length):
                        if legal(m, start, word):
                            yield ['cs', base, start, query, list(word)]


def legal(m, start, word):
    cur = [1 if start == 'full' else 0] * m
    for op in word:
        i, rm = op % m, op >= m
        if rm and not cur[i] or not rm and cur[i] > 1:
            return False
        cur[i] += -1 if rm else 1
    return True


def system(base):
    k, rows = BASES[base]
    ref = Ref(['o%d' % i for i in range(len(rows))],
              ['m%d' % j for j in range(k)], rows)
    return ref, sorted(ref.concepts())


def lib(ref, c):
    return Concept(ref.onames(c[0]), ref.anames(c[1]))


def check(st, cs, ref, cur):
    st.state(tuple(cur))
    st.eq('elements', masks_of_concepts(ref, cs), cur)
    st.eq('text', str(cs), '\n'.join(str(c) for c in cs))
    st.eq('size', len(cs), len(cur))
    intents = [b for _, b in cur]
    cover = covering(intents)
    st.outcome(tuple(sorted(intents)))
    for c in cur:
        x = lib(ref, c)
        b = c[1]
        st.true('membership', x in cs)
        st.eq('position', cs.index(x), cur.index(c))
        st.eq('element', cs[cur.index(c)], x)
        st.eq('upper neighbours of %s' % show(x),
              sorted(ref.amask(p.intent) for p in cs.parents(x)),
              sorted(cover[b]))
        st.eq('lower neighbours of %s' % show(x),
              sorted(ref.amask(p.intent) for p in cs.children(x)),
              sorted({d for d in intents if b in cover[d]}))
        st.eq('superconcepts of %s' % show(x),
              sorted(ref.amask(p.intent) for p in cs.filter(x)),
              sorted(d for d in intents if d != b and d & b == d))
        st.eq('subconcepts of %s' % show(x),
              sorted(ref.amask(p.intent) for p in cs.ideal(x)),
              sorted(d for d in intents if d != b and d & b == b))
    least = [b for b in intents if all(b & d == b for d in intents)]
    great = [b for b in intents if all(d & b == d for d in intents)]
    if least:
        st.eq('top', ref.amask(cs.top_concept.intent), least[0])
    if great:
        st.eq('bottom', ref.amask(cs.bottom_concept.intent), great[0])


def parts(case, st):
    _, k, rows = case
    ref = spaces.ref_of('str', k, rows)
    concepts = sorted(ref.concepts())
    m = len(concepts)
    for mask in range(1 << m):
        for turn in (1, -1):
            cur = [concepts[i] for i in bits(mask)][::turn]
            given = [lib(ref, c) for c in cur]
            cs = ConceptSystem(given)
            check(st, cs, ref, cur)
            for i, c in enumerate(concepts):
                if c in cur:
                    cs.remove(lib(ref, c))
                    rest = [x for x in cur if x != c]
                    check(st, cs, ref, rest)
                    cs.append(lib(ref, c))
                    cur = rest + [c]
                else:
                    st.raises('removing what is not there', ValueError,
                              cs.remove, lib(ref, c))
                    cs.append(lib(ref, c))
                    check(st, cs, ref, cur + [c])
                    cs.remove(lib(ref, c))
                check(st, cs, ref, cur)
            st.eq('the list given', masks_of_concepts(ref, given),
                  [concepts[i] for i in bits(mask)][::turn])


def large(case, st):
    """parts of lattices with many concepts"""
    _, k, rows, start = case
    ref = spaces.ref_of('str', k, rows)
    concepts = sorted(ref.concepts())[::-1 if start == 3 else 1]
    n = len(concepts)
    cur = [c for i, c in enumerate(concepts)
           if (True, i % 2, i > n // 3, i % 9)[start]]
    cs = ConceptSystem([lib(ref, c) for c in cur])
    check(st, cs, ref, cur)
    gone = [c for c in concepts if c not in cur]
    for i in (0, len(cur) // 2, len(cur) - 1):
        if not cur:
            break
        c = cur.pop(min(i, len(cur) - 1))
        cs.remove(lib(ref, c))
        gone.append(c)
    check(st, cs, ref, cur)
    for c in [gone[i] for i in (0, -1, len(gone) // 2, 0) if gone]:
        cs.append(lib(ref, c))
        cur.append(c)
    check(st, cs, ref, cur)


def run(case, st):
    if case[0] == 'large':
        return large(case, st)
    if case[0] == 'parts':
        return parts(case, st)
    _, base, start, query, word = case
    ref, concepts = system(base)
    m = len(concepts)
    cur = list(concepts) if start == 'full' else []
    given = [lib(ref, c) for c in cur]
    cs = ConceptSystem(given) if start == 'full' else ConceptSystem()
    for step, op in enumerate(word):
        if query:
            check(st, cs, ref, cur)
        c = concepts[op % m]
        if op >= m:
            cs.remove(lib(ref, c))
            cur.remove(c)
        else:
            cs.append(lib(ref, c))
            cur.append(c)
    check(st, cs, ref, cur)
    check(st, cs, ref, cur)
    st.raises('appending something else', TypeError, cs.append, 'a concept')
    check(st, cs, ref, cur)
    st.eq('the list given', masks_of_concepts(ref, given),
          list(concepts) if start == 'full' else [])
    st.eq('a new system', len(ConceptSystem()), 0)
