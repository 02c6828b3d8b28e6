"""Every basis computation returns the canonical basis."""
import fca
from fca.algorithms import aibasis, closure_operators as co, dg_basis

from mc import spaces
from mc.ref import Ref
from mc.util import Frozen, imps_of, show_imps

ID = 'C05'
BOUNDS = {
    'quick': 'all contexts up to 4x3 and 3x4, row multisets in two orders up '
             'to 5x3 and 4x4, sets of three rows over five and of up to six '
             'over four attributes, every way of construction and editing up to '
             '3x3, '
             '9 naming schemes up to 3x3, structured contexts up to 33 '
             'columns; 10 ways to ask for the basis each; '
             'contexts of up to 260 attributes or 1200 objects',
    'thorough': 'all contexts up to 5x3 and 3x5, row multisets up to 5x4, '
                '6x3 and 4x5, ways and namings up to 4x3, structured contexts '
                'up to 66 columns',
}


def cases(tier):
    if tier == 'quick':
        full = [(n, k) for n in range(5) for k in range(5) if n * k <= 12]
        return spaces.cases(full=full, ways=[(2, 2), (3, 3)],
                            schemes=[(0, 2), (2, 2), (3, 3)],
                            multi=[(5, 3), (4, 4)],
                            sets=[(3, 5), (5, 4), (6, 4)],
                            fam=spaces.MEDIUM,
                            large=spaces.big('long nominal broad'),
                            fam_schemes=('str', 'intrev'))
    full = [(n, k) for n in range(6) for k in range(6) if n * k <= 15]
    return spaces.cases(full=full, ways=[(2, 2), (3, 3), (4, 3), (3, 4)],
                        schemes=[(0, 2), (2, 2), (3, 3), (4, 3), (3, 4)],
                        multi=[(6, 3), (4, 4), (5, 4), (4, 5)],
                        fam=spaces.LARGE,
                        large=spaces.big('long nominal broad'),
                        fam_schemes=spaces.SCHEMES)


ASK = [
    ('the property', lambda c: c.attribute_implications),
    ('compute_dg_basis', fca.compute_dg_basis),
    ('compute_dg_basis with simple closure',
     lambda c: fca.compute_dg_basis(c, close=co.simple_closure)),
    ('compute_dg_basis_simple', fca.compute_dg_basis_simple),
    ('compute_dg_basis_simple through the context',
     lambda c: c.get_attribute_implications(
         basis=fca.compute_dg_basis_simple)),
    ('streamed basis', lambda c: list(c.attribute_implications_iter())),
    ('dg_basis_iter_simple with linear closure',
     lambda c: list(dg_basis.dg_basis_iter_simple(c, close=co.lin_closure))),
    ('generalized basis', lambda c: dg_basis.generalized_compute_dg_basis(
        c.attributes, c.aclosure)),
    ('canonical basis', lambda c: c.get_attribute_canonical_basis()),
    ('attribute-incremental with linear closure',
     lambda c: aibasis.compute_canonical_basis(c, close=co.lin_closure)),
]


def judge(st, ref, what, imps, want):
    imps = list(imps)
    got = sorted(imps_of(ref, imps))
    if got != want:
        st.eq(what, show_imps(ref, got), show_imps(ref, want))
    st.transitions += 1


def streams(cxt, ref, st, want):
    """several streams at a time, whose elements are used up as they come"""
    other = Ref(ref.objects, ref.attributes,
                [ref.all_atts & ~r for r in ref.rows])
    theirs = spaces.make(other)
    runs = [(r, iter(c.attribute_implications_iter()), [])
            for r, c in ((ref, cxt), (other, theirs), (ref, cxt))]
    alive = list(runs)
    while alive:
        for r, it, got in list(alive):
            imp = next(it, None)
            if imp is None:
                alive.remove((r, it, got))
                continue
            got += imps_of(r, [imp])
            imp.premise.clear()
            imp.conclusion.clear()
    for r, _, got in runs:
        exp = want if r is ref else sorted(r.pseudo_intents())
        if sorted(got) != exp:
            st.eq('basis streamed alongside others, by a consumer',
                  show_imps(r, sorted(got)), show_imps(r, exp))
    st.transitions += len(runs)


def probe(cxt, ref, st):
    frozen = Frozen(cxt)
    want = sorted(ref.pseudo_intents() if ref.k <= 6
                  else ref.pseudo_intents_nc())
    st.outcome(tuple(want))
    for what, ask in ASK:
        judge(st, ref, what, ask(cxt), want)
    # what the caller does with an answer is its own business
    got = cxt.attribute_implications
    for imp in got:
        imp.premise.clear()
    del got[:]
    for imp in cxt.get_attribute_canonical_basis():
        imp.premise.clear()
    judge(st, ref, 'the property, asked again', cxt.attribute_implications,
          want)
    judge(st, ref, 'canonical basis, asked again',
          cxt.get_attribute_canonical_basis(), want)
    if ref.n * ref.k <= 16 and ref.k <= 6:
        streams(cxt, ref, st, want)
    frozen.check(st, 'computing a basis')


def run(case, st):
    spaces.run_way(case, st, lambda c, r: probe(c, r, st))
