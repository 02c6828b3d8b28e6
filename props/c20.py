"""Concept indices have their defining values."""
from fractions import Fraction

import fca
from fca import ConceptLattice
from fca.algorithms import filtering

from mc import ref as R
from mc import spaces
from mc.ref import popcount
from mc.util import Frozen, masks_of_concepts
from mc.engine import show

ID = 'C20'
BOUNDS = {
    'quick': 'all contexts up to 3x3, 4x2 and 2x4, row multisets up to 5x3 '
             'and 4x4, sets of three rows over five and of five over four '
             'attributes, ways of construction up to 2x2, namings up to 3x3, '
             'structured contexts up to 70 rows (stability there by counting '
             'over the reference lattice); '
             'contexts of up to 1100 attributes or 1200 objects',
    'thorough': 'all contexts up to 4x3 and 3x4, multisets 5x4, 4x5, 6x3',
}


def cases(tier):
    if tier == 'quick':
        full = [(n, k) for n in range(5) for k in range(5)
                if n * k <= 9]
        it = spaces.cases(full=full, ways=[(2, 2)],
                          schemes=[(2, 2), (3, 3)], multi=[(5, 3), (4, 4)],
                          sets=[(3, 5), (5, 4)],
                          fam=spaces.MEDIUM,
                          large=spaces.big('long chain nominal'))
    else:
        full = [(n, k) for n in range(5) for k in range(5)
                if n * k <= 12]
        it = spaces.cases(full=full, ways=[(2, 2), (3, 3)],
                          schemes=[(2, 2), (3, 3)],
                          multi=[(4, 4), (5, 4), (4, 5), (6, 3)],
                          fam=spaces.LARGE,
                          large=spaces.big('long chain nominal'),
                          fam_schemes=('str', 'mixed'))
    return it


def lattice_counts(ref, concepts, which):
    """number of generating subsets of every extent (intent), by size"""
    key = 0 if which == 'i' else 1
    order = sorted(concepts, key=lambda c: popcount(c[key]))
    cnt = {}
    for c in order:
        n = 1 << popcount(c[key])
        for d in cnt:
            if d != c and d[key] & c[key] == d[key]:
                n -= cnt[d]
        cnt[c] = n
    return {c: Fraction(n, 1 << popcount(c[key])) for c, n in cnt.items()}


def values(ref, concepts):
    """{index name: {concept: exact value}}"""
    small = ref.n <= 7 and ref.k <= 7
    if small:
        ist = {c: R.istability(ref, *c) for c in concepts}
        est = {c: R.estability(ref, *c) for c in concepts}
    else:
        ist = lattice_counts(ref, concepts, 'i')
        est = lattice_counts(ref, concepts, 'e')
    return {
        'Intensional stability': ist, 'Extensional stability': est,
        'Separation index': {c: R.separation(ref, *c) for c in concepts},
        'Probability index': ref.n and {c: R.probability(ref, c[1])
                                        for c in concepts},
        'Extent size': ref.n and {c: Fraction(popcount(c[0]), ref.n)
                                  for c in concepts},
        'Intent size': ref.k and {c: Fraction(popcount(c[1]), ref.k)
                                  for c in concepts},
    }


FUNCS = {
    'Intensional stability': fca.compute_istability,
    'Extensional stability': fca.compute_estability,
    'Separation index': fca.compute_separation_index,
    'Probability index': fca.compute_probability,
    'Extent size': filtering.compute_extent_size,
    'Intent size': filtering.compute_intent_size,
}


def probe(cxt, ref, st):
    frozen = Frozen(cxt)
    lat = ConceptLattice(cxt)
    before = masks_of_concepts(ref, lat)
    want = values(ref, before)
    table = filtering.get_compute_functions()
    st.eq('provided indices', sorted(table), sorted(FUNCS))
    for name, fn in FUNCS.items():
        if not want[name]:              # no frequencies without objects
            continue
        for f in (fn, table[name]):
            got = f(lat)
            st.eq(name + ': number of concepts', len(got), len(before))
            for c in lat:
                m, = masks_of_concepts(ref, [c])
                st.true(name + ': has a value', c in got, lambda: show(c))
                st.close('%s of %s' % (name, show(c)), got[c],
                         want[name][m])
                st.outcome((name, float(want[name][m])))
            st.eq(name + ' changed the lattice',
                  masks_of_concepts(ref, lat), before)
            st.true(name + ' annotated the lattice',
                    all(not c.meta for c in lat))
    frozen.check(st, 'computing indices')


def run(case, st):
    spaces.run_way(case, st, lambda c, r: probe(c, r, st))
