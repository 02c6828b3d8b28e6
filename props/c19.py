"""Factorisation under conditions."""

from fca.algorithms import factors

from mc import spaces
from mc.ref import popcount
from mc.util import Frozen
from props.c18 import concept_of, crosses

ID = 'C19'
BOUNDS = {
    'quick': 'all contexts up to 4x3 and 3x4, all row multisets up to 5x3 '
             'and 4x4, sets of three rows over five and of five over four '
             'attributes, ways of construction up to 2x2, structured '
             'contexts; every combination of minimum '
             'size 0 to 3, shape condition, repetition and three fidelities; '
             'contexts of up to 260 attributes or 1200 objects',
    'thorough': 'row multisets up to 5x4, 6x3 and 4x5',
}
COMBOS = [(rep, m, ge, f) for m in range(4) for rep in (True, False)
          for ge in (True, False) for f in (1, 0.5, 0)]


def cases(tier):
    fam = dict(contra=5, chain=9, allrows=4, pads=(8, 9), tall=(9, 17))
    if tier == 'quick':
        full = [(n, k) for n in range(5) for k in range(5) if n * k <= 12]
        return spaces.cases(full=full, ways=[(2, 2)],
                            schemes=[(2, 2), (3, 3)],
                            multi=[(5, 3), (4, 4)], fam=fam,
                            sets=[(3, 5), (5, 4)],
                            large=spaces.big('long broad'),
                            fam_schemes=('str', 'rev'))
    full = [(n, k) for n in range(5) for k in range(5) if n * k <= 12]
    return spaces.cases(full=full, ways=[(2, 2), (3, 3)],
                        schemes=[(2, 2), (3, 3)],
                        multi=[(5, 3), (5, 4), (6, 3), (4, 5)],
                        fam=spaces.SMALL,
                        large=spaces.big('long broad'),
                        fam_schemes=('str', 'rev', 'mixed'))


def probe(cxt, ref, st):
    frozen = Frozen(cxt)
    total = sum(popcount(r) for r in ref.rows)
    for rep, m, ge, f in COMBOS:
        what = ('factors with repetition %s, minimum %d, objects >= '
                'attributes %s, fidelity %s' % (rep, m, ge, f))
        covered = set()
        uo = ua = 0
        before = 0
        count = 0
        for item in factors.algorithm2_w_condition(
                cxt, fidelity=f, allow_repeatitions=rep,
                min_atts_and_objs=m, objs_ge_atts=ge):
            st.true(what + ': goes on after the fraction is covered',
                    total and len(covered) / total < f)
            e, b = concept_of(st, ref, what, item[0])
            ne, nb = popcount(e), popcount(b)
            st.true(what + ': minimum size', ne >= m and nb >= m, (ne, nb))
            st.true(what + ': shape', not ge or ne >= nb, (ne, nb))
            new = crosses(ref, e, b) - covered
            st.true(what + ': covers nothing new', new,
                    lambda: (ref.rows, e, b))
            if not rep:
                fresh = {(i, j) for i, j in new
                         if not uo >> i & 1 and not ua >> j & 1}
                st.true(what + ': no unused object and attribute',
                        fresh, lambda: (ref.rows, e, b))
            covered |= new
            if rep:
                st.true(what + ': share of what is covered anew',
                        0 < item[1] < (len(new) + .5) / total,
                        lambda: (item[1], len(new), total))
            st.true(what + ': reported progress',
                    before + item[1] - 1e-9 <= item[2] < 1 + 1e-9
                    and item[1] > 0,
                    lambda: (before, item[1], item[2]))
            if rep:
                st.true(what + ': progress below what is covered',
                        item[2] > (len(covered) - .5) / total,
                        lambda: (item[2], len(covered), total))
            before = item[2]
            uo |= e
            ua |= b
            count += 1
            st.true(what + ': ends', count <= total)
        st.outcome((rep, m, ge, f, count, len(covered)))
    frozen.check(st, 'factorising')


def run(case, st):
    spaces.run_way(case, st, lambda c, r: probe(c, r, st))
