"""The concept lattice is ordered by the subconcept relation."""
import fca
from fca import Concept, ConceptLattice

from mc import spaces
from mc.ref import covering
from mc.engine import show
from mc.util import Frozen, masks_of_concepts

ID = 'C03'
BOUNDS = {
    'quick': 'lattices of all contexts up to 3x3 and of row multisets up to '
             '5x3 and 4x4, sets of three rows over five and of five over '
             'four attributes; every way of construction up to 2x2; naming '
             'schemes up to 3x3; structured contexts; before and after '
             'annotating the concepts with an index; '
             'contexts of up to 1100 attributes or 1200 objects',
    'thorough': 'all contexts up to 4x3, 3x4; row multisets to 5x4, 6x3',
}


def cases(tier):
    if tier == 'quick':
        full = [(n, k) for n in range(4) for k in range(4)]
        return spaces.cases(full=full, ways=[(2, 2)], schemes=[(0, 2), (3, 3)],
                            multi=[(4, 3), (5, 3), (4, 4)], sets=[(3, 5), (5, 4)],
                            fam=spaces.MEDIUM,
                            large=spaces.big(), scheme_list=spaces.SCHEMES)
    full = [(n, k) for n in range(5) for k in range(5) if n * k <= 12]
    return spaces.cases(full=full, ways=[(2, 2), (3, 3)],
                        schemes=[(0, 2), (3, 3), (4, 3)],
                        multi=[(5, 3), (4, 4), (6, 3), (5, 4)],
                        fam=spaces.LARGE,
                        large=spaces.big(), fam_schemes=spaces.SCHEMES)


def orders(st, lat, ref, what):
    cs = list(lat)
    masks = masks_of_concepts(ref, cs)
    by = dict(zip((b for _, b in masks), cs))
    want = ref.concepts()
    st.eq(what + ': elements', sorted(masks), sorted(want))
    ext = {b: e for e, b in want}
    cover = covering(ext)               # intent -> larger concepts' intents
    st.outcome((tuple(sorted(cover)),))
    lower = {b: set() for b in cover}
    for b, ups in cover.items():
        for u in ups:
            lower[u].add(b)

    def intents(concepts):
        out = []
        for c in concepts:
            st.true(what + ': neighbour is an element of the lattice',
                    c in cs)
            out.append(ref.amask(c.intent))
        return out
    for b, c in by.items():
        fresh = Concept(ref.onames(ext[b]), ref.anames(b))
        for x in (c, fresh):
            for asked in (1, 2):
                got = intents(lat.parents(x))
                st.eq(what + ': upper neighbours of %s' % show(c), sorted(got),
                      sorted(cover[b]))
                got = intents(lat.children(x))
                st.eq(what + ': lower neighbours of %s' % show(c), sorted(got),
                      sorted(lower[b]))
        st.eq(what + ': superconcepts of %s' % show(c),
              sorted(intents(lat.filter(c))),
              sorted(d for d in ext if d != b and d & b == d))
        st.eq(what + ': subconcepts of %s' % show(c),
              sorted(intents(lat.ideal(c))),
              sorted(d for d in ext if d != b and d & b == b))
        i = lat.index(fresh)
        st.eq(what + ': position of %s' % show(c), lat[i], fresh)
        st.true(what + ': membership of %s' % show(c), fresh in lat)
    for e, b in want:
        alien = Concept(ref.onames(e) | {'alien'}, ref.anames(b))
        st.true(what + ': a pair that is no concept is no element',
                alien not in lat)
    if all(type(x) is str for x in ref.objects + ref.attributes):
        lines = str(lat)
        st.eq(what + ': text', lines, '\n'.join(str(c) for c in cs))
        for c, (e, b) in zip(cs, masks):
            said = str(c).split(' meta: ')[0]
            if e and b:
                st.eq('text of a concept', said, '(%s, %s)' % (
                    sorted(ref.onames(e)), sorted(ref.anames(b))))
    st.eq(what + ': top', (ref.omask(lat.top_concept.extent),
                           ref.amask(lat.top_concept.intent)),
          (ref.all_objs, ref.intent(ref.all_objs)))
    st.eq(what + ': bottom', (ref.omask(lat.bottom_concept.extent),
                              ref.amask(lat.bottom_concept.intent)),
          (ref.extent(ref.all_atts), ref.all_atts))


def probe(cxt, ref, st):
    frozen = Frozen(cxt)
    lat = ConceptLattice(cxt)
    orders(st, lat, ref, 'lattice')
    st.true('the lattice knows its context', lat.context is cxt)
    cs, parents = fca.norris(cxt)
    cover = covering(ref.intents())
    for c in cs:
        st.eq('covering relation at %s' % show(c),
              sorted(ref.amask(p.intent) for p in parents[c]),
              sorted(cover[ref.amask(c.intent)]))
    if ref.n and ref.k:
        # annotations do not take part in the order
        fca.compute_index(lat, fca.compute_istability, 'Stability')
        orders(st, lat, ref, 'annotated lattice')
        for i, c in enumerate(lat):
            c.meta['mark'] = i
        rel = fca.compute_covering_relation(list(lat))
        for c in lat:
            st.eq('covering relation of annotated concepts',
                  sorted(ref.amask(p.intent) for p in rel[c]),
                  sorted(cover[ref.amask(c.intent)]))
    orders(st, cxt.concept_lattice, ref, 'second lattice')
    frozen.check(st, 'building the lattice')


def run(case, st):
    spaces.run_way(case, st, lambda c, r: probe(c, r, st))
