"""Closures under lists of implications."""
import itertools

from fca import Implication
from fca.algorithms import closure_operators as co

from mc.ref import bits, imp_closure
from mc.engine import show

ID = 'C09'
BOUNDS = {
    'quick': 'every set with every list of up to two implications over three '
             'and four attributes, of up to three over two attributes, and '
             'of three implications (with premise and conclusion disjoint) '
             'over three attributes; the prefix-bounded procedure with every '
             'prefix; chains and cycles of up to five implications in every '
             'order, of up to 300 implications and attributes in two orders',
    'thorough': 'every list of three implications over three attributes, of '
                'four over two attributes',
}
NAMES = {'str': lambda k: ['m%d' % i for i in range(k)],
         'int': lambda k: list(range(k)),
         'mixed': lambda k: [None, 'a', ('t',), 2.5][:k],
         'twins': lambda k: ['1', 1, (1,), '(1,)'][:k]}


def imps(k, disjoint=False):
    for p in range(1 << k):
        for c in range(1 << k):
            if not (disjoint and p & c):
                yield [p, c]


def cases(tier):
    yield ['cl', 'str', 2, []]
    yield ['cl', 'str', 3, []]
    for s in NAMES:
        for k in (1, 2):
            for n in (1, 2, 3):
                for lst in itertools.product(imps(k), repeat=n):
                    yield ['cl', s, k, list(lst)]
    for s in NAMES:
        for i in imps(3):
            yield ['cl', s, 3, [i]]
    for lst in itertools.product(imps(3), repeat=2):
        yield ['cl', 'str', 3, list(lst)]
    for i in imps(4):
        yield ['cl', 'str', 4, [i]]
    for n in (3, 4, 5):
        for perm in itertools.permutations(range(n)):
            chain = [[1 << i, 1 << i + 1] for i in perm]
            yield ['cl', 'str', n + 1, chain]
            cyc = [[1 << i, 1 << (i + 1) % n] for i in perm]
            yield ['cl', 'str', n, cyc]
            grow = [[(1 << i) - 1, 1 << i] for i in perm]
            yield ['cl', 'str', n, grow]
            yield ['cl', 'str', n, grow + grow[:2]]
    for d in (1, -1):
        for k in (40, 130):
            yield ['long', 'str', k, [[1 << i, 1 << i + 1]
                                      for i in range(k - 1)][::d]]
            yield ['long', 'str', k, [[(1 << i) - 1, 1 << i]
                                      for i in range(k)][::d]]
            yield ['long', 'str', k, [[3 << i, 4 << i]
                                      for i in range(k - 2)][::d] * 2]
        yield ['long', 'int', 300, [[1, 1 << 299], [1 << 299, 1 << 257],
                                    [5, 1 << 128], [1 << 257, 4]][::d]]
        yield ['long', 'str', 4, [[i % 16, 15 ^ i % 7]
                                  for i in range(8, 300)][::d]]
    for lst in itertools.product(imps(4, True), repeat=2):
        yield ['fast', 'str', 4, list(lst)]
    for lst in itertools.product(imps(3, tier == 'quick'), repeat=3):
        yield ['fast', 'str', 3, list(lst)]
    if tier == 'thorough':
        for lst in itertools.product(imps(4), repeat=2):
            yield ['fast', 'str', 4, list(lst)]
        for lst in itertools.product(imps(2), repeat=4):
            yield ['fast', 'int', 2, list(lst)]


def run(case, st):
    kind, scheme, k, lst = case
    names = NAMES[scheme](k)

    def ns(m):
        return {names[i] for i in bits(m)}
    imps_ = [Implication(ns(p), ns(c)) for p, c in lst]
    before = [(set(i.get_premise()), set(i.get_conclusion())) for i in imps_]
    same = list(imps_)
    if kind == 'long':
        sets = sorted({s & (1 << k) - 1 for s in (
            0, 1, 2, 3, 1 << 20, 3 << 20, (1 << k) - 1, 5, 1 << k - 1)})
    else:
        sets = range(1 << k)
    st.state((k, lst))
    for s in sets:
        want = imp_closure(s, lst)
        st.outcome((k, s, want))
        for what, fn in (('simple_closure', co.simple_closure),
                         ('lin_closure', co.lin_closure)):
            arg = ns(s)
            got = fn(arg, imps_)
            if got != ns(want):
                st.eq('%s of %s under %s' % (what, show(ns(s)), show(before)),
                      got, ns(want))
            st.true(what + ' changed its argument', arg == ns(s))
            st.true(what + ' handed out its argument', got is not arg)
        if kind == 'fast' and s not in (0, 1):
            continue
        if kind == 'cl' and k <= 3:
            orders = list(itertools.permutations(names))
        else:
            orders = [names, names[::-1]]
        for order in orders:
            for pre in range(k + 1):
                if kind == 'long' and pre not in (0, 1, 20, k):
                    continue
                p = ns(s)
                base = list(order)
                ok, got = co.closure(p, base, imps_, pre)
                agree = (set(order[:pre]) & ns(want)
                         == set(order[:pre]) & ns(s))
                st.eq('closure of %s under %s with prefix %s: success'
                      % (show(p), show(before), order[:pre]), bool(ok), agree)
                if agree:
                    st.eq('closure of %s under %s with prefix %s'
                          % (show(p), show(before), order[:pre]),
                          got, ns(want))
                st.true('closure changed its argument',
                        p == ns(s) and base == list(order))
    st.true('the list of implications changed',
            len(same) == len(imps_)
            and all(a is b for a, b in zip(same, imps_)))
    st.eq('implications', [(set(i.get_premise()), set(i.get_conclusion()))
                           for i in imps_], before)
