"""Factorisation of contexts."""
from fca.algorithms import factors

from mc import spaces
from mc.ref import bits, popcount
from mc.util import Frozen
from mc.engine import show

ID = 'C18'
BOUNDS = {
    'quick': 'all contexts up to 4x3 and 3x4, row multisets up to 5x3 and '
             '4x4, sets of three rows over five and of five over four '
             'attributes, namings up to 3x3, ways of construction up to 2x2, '
             'structured contexts; fidelities 0, 1 and every fraction of the '
             'crosses and just above it; both algorithms; '
             'contexts of up to 1100 attributes or 1200 objects',
    'thorough': 'all contexts up to 4x4, multisets 5x4, 6x3 and 4x5',
}


def cases(tier):
    fam = dict(contra=5, chain=9, allrows=3, pads=(8, 9), tall=(9, 17))
    if tier == 'quick':
        full = [(n, k) for n in range(5) for k in range(5) if n * k <= 12]
        return spaces.cases(full=full, ways=[(2, 2)],
                            schemes=[(0, 2), (2, 2), (3, 3)],
                            multi=[(5, 3), (4, 4)], fam=fam,
                            sets=[(3, 5), (5, 4)],
                            large=spaces.big('long'),
                            fam_schemes=('str', 'rev'))
    full = [(n, k) for n in range(5) for k in range(5)]
    return spaces.cases(full=full, ways=[(2, 2), (3, 3)],
                        schemes=[(0, 2), (2, 2), (3, 3)],
                        multi=[(5, 4), (6, 3), (4, 5)], fam=spaces.SMALL,
                        large=spaces.big('long'),
                        fam_schemes=('str', 'rev', 'mixed'))


def crosses(ref, e, b):
    return {(i, j) for i in bits(e) for j in bits(b)}


def concept_of(st, ref, what, c):
    """masks of a formal concept"""
    st.true(what + ': objects and attributes of the context',
            set(c.extent) <= set(ref.objects)
            and set(c.intent) <= set(ref.attributes), lambda: show(c))
    e, b = ref.omask(c.extent), ref.amask(c.intent)
    st.true(what + ': is a formal concept',
            ref.intent(e) == b and ref.extent(b) == e,
            lambda: '%s of %s' % ((bits(e), bits(b)), ref.rows))
    return e, b


def greedy(st, ref, what, b, gain, covered):
    """no attribute adds to a factor, or makes a better one alone"""
    for j in range(ref.k):
        for d, told in ((b, 'a further attribute'),
                        (0, 'an attribute alone')):
            if d >> j & 1:
                continue
            e = ref.extent(d | 1 << j)
            other = len(crosses(ref, e, ref.intent(e)) - covered)
            st.true('%s: %s covers more' % (what, told), other <= gain,
                    lambda: (ref.rows, bits(b), j, other, gain))


def judge(st, ref, what, produced, fidelity, share):
    """every factor a concept covering something new, stopping in time"""
    total = sum(popcount(r) for r in ref.rows)
    covered = set()
    out = []
    for n, item in enumerate(produced):
        st.true(what + ': goes on after the fraction is covered',
                total and len(covered) / total < fidelity,
                lambda: (len(covered), total))
        e, b = concept_of(st, ref, what, item[0])
        new = crosses(ref, e, b) - covered
        st.true(what + ': covers nothing new', new, lambda: (e, b))
        if share:
            st.close(what + ': share', item[1], len(new) / total)
            greedy(st, ref, what, b, len(new), covered)
        covered |= new
        out.append(item[0])
        st.true(what + ': ends', n <= total)
    st.true(what + ': stops before the fraction is covered',
            not total or len(covered) / total >= fidelity,
            lambda: (len(covered), total, fidelity))
    return out


def factor_contexts(st, ref, fs, complete):
    of, fa = factors.make_factor_cxts(fs)
    st.eq('objects of the factor context', set(of.objects),
          set().union(*[f.extent for f in fs]) if fs else set())
    st.eq('attributes of the factor context', set(fa.attributes),
          set().union(*[f.intent for f in fs]) if fs else set())
    st.eq('factor names', list(of.attributes), list(fa.objects))
    st.eq('number of factors', len(of.attributes), len(fs))
    for f, name in zip(fs, of.attributes):
        st.eq('extent of factor %s' % name, of.get_attribute_extent(name),
              f.extent)
        st.eq('intent of factor %s' % name, fa.get_object_intent(name),
              f.intent)
    if complete:
        prod = of * fa
        st.eq('Boolean product of the factor contexts',
              set(prod.object_attribute_pairs), set(ref.pairs()))


def probe(cxt, ref, st):
    frozen = Frozen(cxt)
    total = sum(popcount(r) for r in ref.rows)
    grid = [1, 0, 0.5]
    if total and ref.n * ref.k <= 20:
        for i in range(1, total + 1):
            grid += [i / total, i / total - 1e-6]
            if i < total:
                grid.append(i / total + 1e-6)
    for f in grid:
        fs = judge(st, ref, 'factors at %s' % f,
                   factors.algorithm2(cxt, f), f, True)
        st.outcome((f, len(fs), ref.k))
        if f in (0, 1, 0.5):
            factor_contexts(st, ref, fs, f == 1)
            ws = judge(st, ref, 'weighted factors at %s' % f,
                       factors.algorithm2_weighted(cxt, f), f, False)
            factor_contexts(st, ref, ws, f == 1)
    fs = judge(st, ref, 'factors', factors.algorithm2(cxt), 1, True)
    factor_contexts(st, ref, fs + fs[:1], True)
    judge(st, ref, 'weighted factors', factors.algorithm2_weighted(cxt), 1,
          False)
    # any list of concepts makes factor contexts
    if ref.n * ref.k <= 9:
        cs = cxt.concepts
        factor_contexts(st, ref, cs, True)
        factor_contexts(st, ref, cs[::-1], True)
    of, fa = factors.make_factor_cxts()
    st.eq('no factors', (len(of), len(fa)), (0, 0))
    frozen.check(st, 'factorising')


def run(case, st):
    spaces.run_way(case, st, lambda c, r: probe(c, r, st))
