"""The attribute-incremental algorithm on contexts with many attributes."""
import itertools

import fca
from fca.algorithms import aibasis, closure_operators as co

from mc import spaces
from mc.util import Frozen
from props.c05 import judge

ID = 'C07'
BOUNDS = {
    'quick': 'all sets of up to five distinct rows over five attributes (all '
             'attribute orders are among them), up to three with names sorted '
             'against the order; all sets of up to three rows over six '
             'attributes; complements of permutation-like rows; structured '
             'contexts up to 33 columns; contexts of up to 260 attributes '
             'or 300 objects; bases of over 200 implications',
    'thorough': 'sets of up to six rows over five attributes, of four '
                'rows over six, of two over eight attributes',
}


def cases(tier):
    for n in range(5):
        for rows in spaces.rowsets(n, 5):
            yield ['ai', 'str', 5, list(rows)]
    for n in range(3):
        for rows in spaces.rowsets(n, 6):
            yield ['ai', 'rev', 6, list(rows)[::-1]]
    # rows missing one or two attributes
    for k in (5, 6):
        m = (1 << k) - 1
        few = [m ^ 1 << i for i in range(k)]
        two = [m ^ 1 << i ^ 1 << j
               for i, j in itertools.combinations(range(k), 2)]
        for r in range(k + 1):
            for a in itertools.combinations(few, r):
                yield ['ai', 'str', k, list(a)]
                for b in two:
                    yield ['ai', 'str', k, list(a) + [b]]
                    yield ['ai', 'rev', k, [b] + list(a)]
    for label, k, rows in spaces.families(
            spaces.MEDIUM if tier == 'quick' else spaces.LARGE):
        for s in ('str', 'rev', 'rot'):
            yield ['ai', s, k, rows]
    for k, rows in spaces.lists():
        yield ['ai', 'str', k, rows]
    for k, rows in spaces.big('long broad'):
        yield ['ai', 'str', k, rows]
        yield ['ai', 'rev', k, rows]
    for n in (3, 4):
        for rows in spaces.rowsets(n, 5):
            if tier == 'thorough' or n == 3:
                yield ['ai', 'rev', 5, list(rows)]
    for rows in spaces.rowsets(3, 6):
        yield ['ai', 'str', 6, list(rows)]
    for rows in spaces.rowsets(5, 5):
        yield ['ai', 'str', 5, list(rows)]
    if tier == 'thorough':
        for rows in spaces.rowsets(6, 5):
            yield ['ai', 'str', 5, list(rows)]
        for rows in spaces.rowsets(4, 6):
            yield ['ai', 'str', 6, list(rows)]
        for rows in spaces.rowsets(2, 8):
            yield ['ai', 'str', 8, list(rows)]


def run(case, st):
    _, scheme, k, rows = case
    ref = spaces.ref_of(scheme, k, rows)
    st.state(ref.key())
    cxt = spaces.make(ref)
    frozen = Frozen(cxt)
    want = sorted(ref.pseudo_intents() if k <= 5
                  else ref.pseudo_intents_nc())
    st.outcome(tuple(want))
    judge(st, ref, 'canonical basis', cxt.get_attribute_canonical_basis(),
          want)
    if k > 5 or len(rows) < 3:
        judge(st, ref, 'canonical basis with linear closure',
              aibasis.compute_canonical_basis(cxt, close=co.lin_closure),
              want)
        judge(st, ref, 'next-closure basis', fca.compute_dg_basis(cxt), want)
    frozen.check(st, 'computing a basis')
