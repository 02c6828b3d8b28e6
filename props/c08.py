"""Object implications are the basis of the transposed context."""
import fca
from fca.algorithms import dg_basis

from mc import spaces
from mc.util import Frozen
from props.c05 import judge

ID = 'C08'
BOUNDS = {
    'quick': 'all contexts up to 3x4 and 4x3, row multisets up to 5x3 and 4x4, every '
             'way of construction and editing up to 3x3, 9 naming schemes up '
             'to 3x3, structured contexts up to 17 rows; '
             'contexts of up to 260 attributes or 1200 objects',
    'thorough': 'all contexts up to 5x3 and 3x5, row multisets up to 4x4',
}


def cases(tier):
    q = tier == 'quick'
    full = [(n, k) for n in range(6) for k in range(6)
            if n * k <= (12 if q else 15)]
    fam = dict(contra=5, chain=9, allrows=3, pads=(8, 9), tall=(9, 17))
    return spaces.cases(full=full, ways=[(2, 2), (3, 3), (2, 3), (3, 2)],
                        schemes=[(0, 2), (2, 2), (2, 0), (3, 3)],
                        multi=[(5, 3), (4, 4)] if q else [(5, 4), (4, 4), (4, 5)],
                        fam=fam,
                        large=spaces.big('long nominal broad', True),
                        fam_schemes=('str', 'intrev'))


ASK = [
    ('the property', lambda c: c.object_implications),
    ('with simple closure', lambda c: c.get_object_implications(
        basis=fca.compute_dg_basis_simple)),
    ('streamed', lambda c: list(c.get_object_implications(
        basis=dg_basis.dg_basis_iter_simple))),
    ('of the transposed context',
     lambda c: c.transpose().attribute_implications),
]


def probe(cxt, ref, st):
    frozen = Frozen(cxt)
    t = ref.transpose()
    want = sorted(t.pseudo_intents() if t.k <= 6 else t.pseudo_intents_nc())
    st.outcome(tuple(want))
    for what, ask in ASK:
        judge(st, t, 'object implications: ' + what, ask(cxt), want)
    if ref.k <= 6:
        # the other kind of basis, asked in between, has no influence
        judge(st, ref, 'attribute implications', cxt.attribute_implications,
              sorted(ref.pseudo_intents()))
    got = cxt.object_implications
    for imp in got:
        imp.premise.clear()
    del got[:]
    judge(st, t, 'object implications, asked again', cxt.object_implications,
          want)
    frozen.check(st, 'computing a basis')


def run(case, st):
    spaces.run_way(case, st, lambda c, r: probe(c, r, st))
