"""Enumeration of all formal concepts."""
import fca
from fca import Concept

from mc import spaces
from mc.util import Frozen, masks_of_concepts

ID = 'C02'
BOUNDS = {
    'quick': 'all contexts up to 4x4, 5x3, 3x5; row multisets 6x3, 5x4 in '
             'both orders; every way of construction up to 3x3; 9 naming '
             'schemes up to 3x3; structured contexts up to 66 columns; '
             'contexts of up to 1100 attributes or 1200 objects',
    'thorough': 'all contexts up to 4x4, 6x3, 3x6; row multisets to 5x4, '
                '7x3, 6x4',
}


def cases(tier):
    if tier == 'quick':
        full = [(n, k) for n in range(5) for k in range(5)] + [(5, 3), (3, 5)]
        return spaces.cases(full=full, ways=[(1, 1), (2, 2), (3, 3)],
                            schemes=[(0, 2), (3, 3), (4, 2)],
                            multi=[(5, 3), (4, 4), (6, 3), (5, 4)],
                            fam=spaces.LARGE,
                            large=spaces.big(), fam_schemes=('str', 'intrev'))
    full = [(n, k) for n in range(6) for k in range(6) if n * k <= 16] \
        + [(6, 3), (3, 6)]
    return spaces.cases(full=full, ways=[(1, 1), (2, 2), (3, 3), (4, 3)],
                        schemes=[(0, 2), (3, 3), (4, 3)],
                        multi=[(5, 4), (7, 3), (6, 4)],
                        fam=spaces.LARGE,
                        large=spaces.big(), fam_schemes=spaces.SCHEMES)


def compare(st, what, ref, got, want):
    cs = list(got)
    masks = masks_of_concepts(ref, cs)
    st.eq(what + ': number', len(masks), len(want))
    st.eq(what, sorted(m for m in masks if m[0] is not None), sorted(want))
    st.true(what + ': are concepts',
            all(isinstance(c, Concept) for c in cs))
    st.eq(what + ': comparable by content', len(set(cs)), len(want))
    return cs


def probe(cxt, ref, st):
    want = ref.concepts()
    st.outcome((ref.n, ref.k, tuple(sorted(want))))
    frozen = Frozen(cxt)
    cs = compare(st, 'concepts', ref, cxt.concepts, want)
    compare(st, 'concept stream', ref, list(cxt.iterate_concepts()), want)
    compare(st, 'concepts, asked again', ref, cxt.concepts, want)
    compare(st, 'concept function', ref, fca.norris(cxt, False), want)
    lattice = cxt.concept_lattice
    st.eq('number of lattice elements', len(lattice), len(want))
    compare(st, 'lattice elements', ref, lattice, want)
    # results belong to the caller
    for c in cs:
        c.extent.clear()
        c.intent.clear()
    del cs[:]
    compare(st, 'concepts after the caller changed earlier ones', ref,
            cxt.concepts, want)
    frozen.check(st, 'enumerating concepts')


def stream_prefix(cxt, ref, st):
    """a stream that is abandoned does not disturb the next one"""
    want = ref.concepts()
    it = iter(cxt.iterate_concepts())
    first = next(it)
    st.true('the first streamed element is closed',
            ref.amask(first.intent) in {b for _, b in want})
    compare(st, 'concepts while another stream is open', ref, cxt.concepts,
            want)
    rest = [first] + list(it)
    compare(st, 'interrupted stream', ref, rest, want)


def run(case, st):
    def p(c, r):
        probe(c, r, st)
        stream_prefix(c, r, st)
    spaces.run_way(case, st, p)
