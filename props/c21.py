"""Filtering of lattices by index values, annotation of concepts."""
import itertools

import fca
from fca import ConceptLattice
from fca.algorithms import filtering

from mc import spaces
from mc.util import Frozen, masks_of_concepts
from mc.engine import show
from props.c20 import FUNCS, values

ID = 'C21'
BOUNDS = {
    'quick': 'lattices of all contexts with distinct rows up to 3x3 and of '
             'row multisets 4x3, all six indices, bounds at, below and '
             'above every value, all numbers and shares; lattices with up to '
             'five concepts with every assignment of four values; lattices '
             'with up to 128 concepts; every sequence of two annotations',
    'thorough': 'row multisets up to 4x4, six concepts with four values',
}
GRID = [0.0, 0.5, 0.625, 1.0]
LATS = [(1, [0]), (1, [0, 1]), (1, [1]), (2, [1, 2]), (2, [0, 1, 3]),
        (3, [1, 2, 4]), (3, [1, 3, 7, 0])]


def cases(tier):
    for k in range(1, 4):
        for n in range(1, 4):
            for rows in spaces.rowsets(n, k):
                yield ['idx', 'str', k, list(rows)]
    for rows in spaces.multisets(2, 2):
        yield ['idx', 'mixed', 2, list(rows)]
    for b, (k, rows) in enumerate(LATS):
        ref = spaces.ref_of('str', k, rows)
        m = len(ref.concepts())
        if m <= 5:
            for vals in itertools.product(range(len(GRID)), repeat=m):
                yield ['any', b, list(vals)]
    for rows in spaces.multisets(4, 3):
        yield ['idx', 'rev', 3, list(rows)]
    for k, rows in list(spaces.big('long chain nominal')) + [
            (13, [(1 << i) - 1 for i in range(14)]), (4, range(16)),
            (21, [1 << i for i in range(20)])]:
        yield ['idx', 'rev', k, list(rows)]
    if tier == 'thorough':
        for rows in spaces.multisets(4, 4):
            yield ['idx', 'str', 4, list(rows)]


def run(case, st):
    if case[0] == 'any':
        _, b, vals = case
        k, rows = LATS[b]
        ref = spaces.ref_of('str', k, rows)
        lat = ConceptLattice(spaces.make(ref))
        by = {c: GRID[v] for c, v in zip(lat, vals)}
        st.state((b, vals))
        modes(st, ref, lat, lambda l: dict(by), by)
        st.outcome(tuple(vals))
        return
    st.eq('provided modes', sorted(filtering.get_modes()),
          ['abs', 'part', 'value'])
    _, scheme, k, rows = case
    ref = spaces.ref_of(scheme, k, rows)
    st.state(ref.key())
    cxt = spaces.make(ref)
    frozen = Frozen(cxt)
    lat = ConceptLattice(cxt)
    masks = masks_of_concepts(ref, lat)
    exact = values(ref, masks)
    for name, fn in FUNCS.items():
        by = fn(lat)
        modes(st, ref, lat, fn, by)
    # annotations
    for first, second in itertools.permutations(FUNCS, 2):
        lat = ConceptLattice(cxt)
        fca.compute_index(lat, FUNCS[first], first)
        check_meta(st, lat, masks, exact, [first])
        fca.compute_index(lat, FUNCS[second], second)
        check_meta(st, lat, masks, exact, [first, second])
    lat = ConceptLattice(cxt)
    for c in lat:
        c.meta['mark'] = c
    fca.compute_index(lat, fca.compute_istability, 'Intensional stability')
    fca.compute_index(lat, fca.compute_istability, 'Intensional stability')
    for c in lat:
        st.true('annotation kept', c.meta.pop('mark', None) is c)
    check_meta(st, lat, masks, exact, ['Intensional stability'])
    for x in fca.filter_concepts(lat, fca.compute_estability, 'value', 0):
        st.true('annotation of a filtered concept',
                'Intensional stability' in x.meta)
    frozen.check(st, 'filtering')


def check_meta(st, lat, masks, exact, names):
    for c, m in zip(lat, masks):
        st.eq('annotations of %s' % show(c), sorted(c.meta), sorted(names))
        for x in names:
            st.close('%s annotated at %s' % (x, show(c)), c.meta[x],
                     exact[x][m])
            st.outcome((x, float(exact[x][m])))


def modes(st, ref, lat, fn, by):
    total = len(lat)
    ranked = sorted(by.values(), reverse=True)

    def judge(what, got, low, high, extra=None):
        st.true(what + ': a concept system',
                isinstance(got, fca.ConceptSystem))
        got = list(got)
        st.true(what + ': members of the lattice',
                all(c in by for c in got))
        st.true(what + ': no repetition', len(set(got)) == len(got))
        st.true(what + ': number', low <= len(got) <= high,
                lambda: '%d is not in %d..%d' % (len(got), low, high))
        kept = [by[c] for c in got]
        left = [v for c, v in by.items() if c not in got]
        if kept and left:
            st.true(what + ': something worse was kept',
                    min(kept) >= max(left), lambda: (kept, left))
        return kept
    for v in sorted(set(ranked)):
        for bound in (v, v - 1e-6, v + 1e-6):
            want = sum(1 for x in ranked if x >= bound)
            judge('filter by value %r' % bound,
                  fca.filter_concepts(lat, fn, 'value', bound), want, want)
    for n in range(total + 2):
        want = min(n, total)
        judge('filter by number %d' % n,
              fca.filter_concepts(lat, fn, 'abs', n), want, want)
    shares = {i / total for i in range(total + 1)}
    shares |= {(i + 0.5) / total for i in range(total)}
    for p in sorted(shares):
        n = int(total * p)
        high = n
        if 2 <= n < total:
            gap = ranked[n - 2] - ranked[n - 1]
            high += sum(1 for x in ranked[n:] if ranked[n] - x < gap)
        judge('filter by share %r' % p,
              fca.filter_concepts(lat, fn, 'part', p), high, high)
    st.eq('default of the value mode',
          len(fca.filter_concepts(lat, fn, 'value')),
          sum(1 for x in ranked if x >= 1))
