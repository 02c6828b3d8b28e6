"""Bases relative to confirmed implications."""
import itertools

import fca
from fca import Implication
from fca.algorithms import closure_operators as co, dg_basis

from mc import spaces
from mc.ref import bits, imp_closure, respects
from mc.util import Frozen, imps_of, show_imps

ID = 'C06'
CHUNK = 1
BOUNDS = {
    'quick': 'all sets of distinct rows and all pairs of equal rows over up '
             'to three attributes, in two attribute orders, with every list '
             'of one valid confirmed implication (empty conclusions and '
             'tautologies included), and of two (repetitions and both orders '
             'included) for up to two attributes or three rows; three naming '
             'schemes, object implications of the transposed context, four '
             'conditions on premises; structured contexts with parts of '
             'their bases confirmed, up to 260 attributes or 1200 objects',
    'thorough': 'two implications for all sets of rows over three '
                'attributes, one for up to five rows over four attributes, '
                'three over two attributes',
}


def rowlists(k):
    for n in range((1 << k) + 1):
        for rows in spaces.rowsets(n, k):
            yield list(rows)
    for a in range(1 << k):
        yield [a, a]


def cases(tier):
    for k, rows in spaces.big('long nominal broad'):
        yield ['big', 'str', k, rows, 1]
    for k in range(4):
        for rows in rowlists(k):
            yield ['rel', 'str', k, rows, 2 if k < 3 else 1]
    for s in ('intrev', 'mixed', 'twins', 'falsy'):
        for rows in rowlists(2):
            yield ['rel', s, 2, rows, 2]
    for rows in rowlists(3):
        yield ['rel', 'rev', 3, rows, 1]
    for label, k, rows in spaces.families(spaces.SMALL):
        yield ['fam', 'str', k, rows, 1]
        yield ['fam', 'rev', k, rows, 1]
    for rows in rowlists(3):
        if tier == 'thorough' or len(rows) <= 3:
            yield ['rel', 'str', 3, rows, 2]
    if tier == 'thorough':
        for k in range(3):
            for rows in rowlists(k):
                yield ['rel', 'rot', k, rows, 3]
        for n in range(6):
            for rows in spaces.rowsets(n, 4):
                yield ['rel', 'str', 4, list(rows), 1]


def candidates(ref):
    """valid implications (premise, conclusion), as written"""
    for p in range(1 << ref.k):
        c = ref.aclose(p)
        rest = c & ~p
        cons = [c, 0]
        if rest:
            cons.append(rest)
            if p:
                cons.append(p)
            b = bits(rest)
            if len(b) > 1:
                cons += [1 << j for j in b]
        for x in cons:
            yield p, x


def family_candidates(ref):
    """a structured choice where there are many attributes"""
    basis = ref.pseudo_intents_nc()
    yield []
    yield basis
    if ref.k > 40:
        yield basis[1::2]
        return
    for i in range(len(basis)):
        yield basis[:i] + basis[i + 1:]
        yield [basis[i]]
        yield [basis[i], basis[i]]
    yield basis[::2]
    yield basis[1::2]
    yield [(1 << j, ref.aclose(1 << j)) for j in range(ref.k)]


CONDS = [
    ('at most one attribute', lambda m: bin(m).count('1') <= 1,
     lambda ref: lambda s: len(s) <= 1),
    ('without the first attribute', lambda m: not m & 1,
     lambda ref: lambda s: ref.attributes[0] not in s),
    ('no premise at all', lambda m: False, lambda ref: lambda s: False),
    ('every premise', lambda m: True, lambda ref: lambda s: True),
]

ASK = [
    ('through the context', lambda c, conf, **kw:
     c.get_attribute_implications(confirmed=conf, **kw)),
    ('compute_dg_basis_simple', lambda c, conf, **kw:
     fca.compute_dg_basis_simple(c, imp_basis=conf, **kw)),
    ('streamed', lambda c, conf, **kw: list(dg_basis.dg_basis_iter_simple(
        c, imp_basis=conf, **kw))),
    ('generalized with linear closure', lambda c, conf, **kw:
     dg_basis.generalized_compute_dg_basis(c.attributes, c.aclosure,
                                           close=co.lin_closure,
                                           imp_basis=conf, **kw)),
]


def judge(st, ref, conf, imps, what):
    got = imps_of(ref, imps)
    for i, (p, c) in enumerate(got):
        st.true(what + ': valid implication', ref.aclose(p) & c == c,
                lambda: show_imps(ref, [(p, c)]))
        st.true(what + ': premise respects the confirmed implications',
                respects(p, conf), lambda: show_imps(ref, [(p, c)]))
        rest = imp_closure(p, conf + got[:i] + got[i + 1:])
        st.true(what + ': irredundant', c & ~rest,
                lambda: '%s in %s' % (show_imps(ref, [(p, c)]),
                                      show_imps(ref, got)))
    # completeness: what is valid is entailed (checked on every premise of
    # the canonical basis; for few attributes on every set)
    sets = (range(1 << ref.k) if ref.k <= 4
            else [p for p, _ in ref.pseudo_intents_nc()])
    for s in sets:
        if imp_closure(s, conf + got) != ref.aclose(s):
            st.true(what + ': entails', False,
                    lambda: show_imps(ref, [(s, ref.aclose(s))]))
    st.transitions += len(sets)
    return got


def ask_all(st, ref, cxt, conf, conds):
    full = [(p, p | c) for p, c in conf]
    lst = [Implication(ref.anames(p), ref.anames(c)) for p, c in conf]
    before = [(set(i.get_premise()), set(i.get_conclusion())) for i in lst]
    st.state((ref.key(), tuple(conf)))
    out = None
    for what, ask in ASK:
        got = judge(st, ref, full, ask(cxt, lst), what)
        st.outcome(tuple(sorted(got)))
        out = got
        for name, test, make in conds:
            imps = imps_of(ref, ask(cxt, lst, cond=make(ref)))
            for p, c in imps:
                st.true('%s, %s: premise' % (what, name),
                        test(p), lambda: show_imps(ref, [(p, c)]))
                st.true('%s, %s: valid' % (what, name),
                        ref.aclose(p) & c == c,
                        lambda: show_imps(ref, [(p, c)]))
            if test(1) and test(ref.all_atts):
                st.eq('%s, %s' % (what, name), sorted(imps), sorted(got))
    st.eq('confirmed list',
          [(set(i.get_premise()), set(i.get_conclusion())) for i in lst],
          before)
    return out


def run(case, st):
    kind, scheme, k, rows, depth = case
    ref = spaces.ref_of(scheme, k, rows)
    cxt = spaces.make(ref)
    frozen = Frozen(cxt)
    if kind in ('fam', 'big'):
        for conf in family_candidates(ref):
            ask_all(st, ref, cxt, conf, ())
        frozen.check(st, 'computing a basis')
        return
    cand = list(candidates(ref))
    for conf in [[]] + [[c] for c in cand]:
        ask_all(st, ref, cxt, conf, CONDS if k and depth == 1 else ())
    if depth >= 2:
        for length in range(2, depth + 1):
            for conf in itertools.product(cand, repeat=length):
                ask_all(st, ref, cxt, list(conf), ())
    # object implications, relative to confirmed ones
    t = ref.transpose()
    if t.k <= 3 and depth == 1 or t.k <= 2:
        for p, c in candidates(t):
            lst = [Implication(t.anames(p), t.anames(c))]
            judge(st, t, [(p, p | c)],
                  cxt.get_object_implications(confirmed=lst),
                  'object implications')
            judge(st, t, [(p, p | c)], cxt.get_object_implications(
                basis=fca.compute_dg_basis_simple, confirmed=lst),
                'object implications, simple closure')
            st.eq('confirmed list of object implications', imps_of(t, lst),
                  [(p, p | c)])
    frozen.check(st, 'computing a basis')
