"""Object-incremental implication covers."""
import itertools

from fca import Implication
from fca.algorithms import closure_operators as co
from fca.algorithms import implication_covers as ic

from mc import spaces
from mc.ref import Ref, bits, imp_closure
from mc.util import Frozen, imps_of, show_imps

ID = 'C31'
BOUNDS = {
    'quick': 'all contexts up to 4x3, 5x2 and 3x4 with the rows in every '
             'order, all sets of up to four distinct rows over four '
             'attributes in two orders, of five and six over four and of three '
             'over five attributes, naming schemes up to 2x3, structured '
             'contexts up to 9 columns; minimising every list of up to three '
             'implications over three attributes with disjoint sides, and of '
             'up to two over four with closed conclusions; '
             'contexts of up to 260 attributes or 1200 objects',
    'thorough': 'all contexts up to 5x3, 4x4, 3x5; sets of up to four rows '
                'over six and of five over five attributes',
}


def cases(tier):
    q = tier == 'quick'
    full = [(n, k) for n in range(6) for k in range(6)
            if n * k <= (12 if q else 16)]
    fam = dict(contra=5, chain=7, allrows=3, pads=(8,), tall=(9, 17))
    yield from spaces.cases(full=full, ways=[(2, 2), (2, 3)],
                            schemes=[(0, 2), (2, 2), (2, 3)],
                            fam=fam,
                            large=spaces.big('long nominal broad'),
                            fam_schemes=('str', 'intrev'))
    for n in range(5):
        for rows in spaces.rowsets(n, 4):
            yield ['ctx', 'list', 'str', 4, list(rows)]
            yield ['ctx', 'list', 'rev', 4, list(rows)[::-1]]
    for n, k in ((3, 5), (5, 4), (6, 4)):
        for i, rows in enumerate(spaces.rowsets(n, k)):
            yield ['ctx', 'list', ('str', 'rev')[i % 2], k,
                   list(rows)[::(1, -1)[i // 2 % 2]]]
    pairs = [[p, c] for p in range(8) for c in range(8) if not p & c]
    for n in range(4):
        for lst in itertools.product(pairs, repeat=n):
            yield ['min', 3, 'any', list(lst)]
            yield ['min', 3, 'full', list(lst)]
    pairs = [[p, c] for p in range(16) for c in range(16) if not p & c]
    for n in range(3):
        for lst in itertools.product(pairs, repeat=n):
            yield ['min', 4, 'full', list(lst)]
    if not q:
        for rows in spaces.rowsets(3, 6):
            yield ['ctx', 'list', 'str', 6, list(rows)]
        for n, k in ((4, 5), (5, 5), (4, 6)):
            for i, rows in enumerate(spaces.rowsets(n, k)):
                yield ['ctx', 'list', ('rev', 'str')[i % 2], k,
                       list(rows)[::(-1, 1)[i // 2 % 2]]]


def equivalent(st, what, k, got, want, close):
    for s in range(1 << k):
        if imp_closure(s, got) != close(s):
            st.true(what, False, lambda: '%s has to imply %s but has %s' % (
                bits(s), bits(close(s)), bits(imp_closure(s, got))))
    st.transitions += 1 << k


def irredundant(st, what, imps, show):
    for i, (p, c) in enumerate(imps):
        st.true(what, c & ~imp_closure(p, imps[:i] + imps[i + 1:]),
                lambda: show([(p, c)]))


def probe(cxt, ref, st):
    frozen = Frozen(cxt)
    for close in (None, co.lin_closure):
        cover = ic.compute_implication_cover(cxt)
        got = imps_of(ref, cover)
        for i, (p, c) in enumerate(got):
            st.true('says something', c & ~p or not ref.k,
                    lambda: show_imps(ref, [(p, c)]))
            for j, (p2, c2) in enumerate(got):
                if i != j and p2 & p == p2 and c & ~(c2 | p) == 0:
                    st.true('follows from another one', False,
                            lambda: show_imps(ref, [(p, c), (p2, c2)]))
        # only implications of the context, and all of them
        if ref.k <= 6:
            equivalent(st, 'the cover', ref.k, got, None, ref.aclose)
        else:
            for p, c in got:
                st.true('valid', ref.aclose(p) & c == c,
                        lambda: show_imps(ref, [(p, c)]))
            for p, c in ref.pseudo_intents_nc():
                st.eq('closure of a pseudo-intent',
                      imp_closure(p, got), c)
        if close:
            ic.minimize(cover, close=close)
        else:
            ic.minimize(cover)
        got = imps_of(ref, cover)
        small = ref.pseudo_intents() if ref.k <= 6 else ref.pseudo_intents_nc()
        if ref.k <= 6:
            equivalent(st, 'the minimised cover', ref.k, got, None,
                       ref.aclose)
        else:
            for p, c in small:
                st.eq('minimised: closure of a pseudo-intent',
                      imp_closure(p, got), c)
            for p, c in got:
                st.true('minimised: valid', ref.aclose(p) & c == c,
                        lambda: show_imps(ref, [(p, c)]))
        st.outcome((ref.k, tuple(sorted(got))))
        if len(got) != len(small):
            st.eq('minimal number of implications', show_imps(ref, got),
                  show_imps(ref, small))
    frozen.check(st, 'computing a cover')


def run(case, st):
    if case[0] == 'ctx':
        return spaces.run_way(case, st, lambda c, r: probe(c, r, st))
    _, k, kind, lst = case
    if kind == 'full':
        lst = [(p, imp_closure(p, lst)) for p, _ in lst]
    st.state((k, lst))
    names = ['m%d' % i for i in range(k)]
    closed = [s for s in range(1 << k) if imp_closure(s, lst) == s]
    ref = Ref(list(range(len(closed))), names, closed)
    cover = [Implication(ref.anames(p), ref.anames(c)) for p, c in lst]
    ic.minimize(cover)
    got = imps_of(ref, cover)
    equivalent(st, 'minimised from %s' % show_imps(ref, lst), k, got, lst,
               lambda s: imp_closure(s, lst))
    irredundant(st, 'minimised, redundant:', got,
                lambda x: show_imps(ref, x))
    if kind == 'full':
        st.eq('number of implications minimised from %s'
              % show_imps(ref, lst), len(got), len(ref.pseudo_intents()))
