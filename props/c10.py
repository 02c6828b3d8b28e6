"""Implications as values."""
import copy

from fca import Implication, NegativeImplication, UnitImplication

from mc.ref import bits

ID = 'C10'
BOUNDS = {
    'quick': 'every implication, unit and negative implication over four '
             'attributes (overlapping sides included), against every set, '
             'every pair of a certain and a possible set, and every other '
             'implication; printing and parsing over an alphabet with inner '
             'blanks and non-ASCII names; implications over 70 and 300 '
             'attributes',
    'thorough': 'the same over five attributes',
}
KINDS = {'pos': Implication, 'neg': NegativeImplication}
WORDS = ['a', 'b c', 'é', 'not x', '0', 'A']


def cases(tier):
    for k in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for kind in ('pos', 'neg', 'unit'):
            for p in range(1 << k):
                for c in range(1 << k):
                    if kind == 'unit' and (c & p or bin(c).count('1') != 1):
                        continue
                    yield ['imp', kind, k, p, c]
    for k in (70, 300):
        shapes = list(wide(k))
        for kind in ('pos', 'neg', 'unit'):
            for p in shapes:
                for c in shapes:
                    if kind != 'unit' or bin(c & ~p).count('1') == 1:
                        yield ['wide', kind, k, p, c]
    for p in range(1 << len(WORDS)):
        for c in range(1 << len(WORDS)):
            yield ['parse', p, c]


def wide(k):
    """some sets of many attributes"""
    full = (1 << k) - 1
    yield from (0, 1, 1 << k - 1, 1 << 64, full, full ^ 1, full ^ 1 << 65,
                full ^ 1 << k - 1, full >> 1 & ~1,
                sum(1 << i for i in range(0, k, 2)))


def run_wide(st, kind, k, p, c):
    def ns(m):
        return {i if i % 2 else str(i) for i in bits(m)}
    st.state((kind, k, p, c))
    imp = build(kind, ns(p), ns(c & ~p) if kind == 'unit' else ns(c))
    r = c & ~p
    st.true('premise', imp.premise == ns(p))
    st.true('conclusion', imp.conclusion == ns(r))
    for s in wide(k):
        for poss in (s, (1 << k) - 1, s | 1):
            seen = r & poss if kind == 'neg' else r & ~poss
            want = not (p & ~s == 0 and seen)
            st.outcome((kind, k, p, c, s, poss, want))
            st.eq('respected', bool(imp.is_respected((ns(s), ns(poss)))),
                  want)
            if poss == s:
                st.eq('respected', bool(imp.is_respected(ns(s))), want)
        for p2, c2 in ((s, c), (p, s), (s, s)):
            if kind != 'unit':
                other = build(kind, ns(p2), ns(c2))
                same = p2 == p and c2 & ~p2 == r
                st.eq('equal', bool(imp == other), same)
                st.eq('differ', bool(imp != other), not same)
                if same:
                    st.eq('hashes', hash(imp), hash(other))
    dup = copy.deepcopy(imp)
    st.true('copy equals', bool(dup == imp) and hash(dup) == hash(imp))


def build(kind, p, c):
    if kind == 'unit':
        return UnitImplication(p, next(iter(c)))
    return KINDS[kind](p, c)


def parse(st, p, c):
    prem = {WORDS[i] for i in bits(p)}
    conc = {WORDS[i] for i in bits(c)}
    imp = Implication(prem, conc)
    st.state((p, c))
    for cls in (Implication, NegativeImplication):
        got = cls.str2imp(repr(imp))
        st.true('class of the parsed implication', type(got) is cls)
        st.eq('premise parsed from %r' % repr(imp), got.premise, prem)
        st.eq('conclusion parsed from %r' % repr(imp), got.conclusion,
              conc - prem)
    st.true('parsed from its printed form %r' % repr(imp),
            Implication.str2imp(str(imp)) == imp)
    got = Implication.str2imp('  %s  =>%s ,' % (' ,  '.join(sorted(prem)),
                                               ','.join(sorted(conc))))
    st.eq('parsed with blanks', (got.premise, got.conclusion),
          (prem, conc - prem))


def run(case, st):
    if case[0] == 'parse':
        return parse(st, *case[1:])
    if case[0] == 'wide':
        return run_wide(st, *case[1:])
    _, kind, k, p, c = case
    names = [0, '0', ('t',), None, 2.5][:k]

    def ns(m):
        return {names[i] for i in bits(m)}
    st.state((kind, k, p, c))
    prem, conc = ns(p), ns(c)
    imp = build(kind, prem, conc)
    for asked in (repr, str, hash, lambda i: i.conclusion,
                  lambda i: i.premise, lambda i: i.get_reduced_conclusion()):
        try:
            asked(imp)
        except TypeError:       # names that do not sort
            st.true('prints', asked in (repr, str))
        st.true('premise', imp.premise == ns(p))
        st.true('conclusion', imp.conclusion == ns(c & ~p))
        st.true('given conclusion', imp.get_conclusion() - imp.premise
                == ns(c & ~p))
    r = c & ~p
    neg = kind == 'neg'

    def refuted(s):
        return bool(r & s) if neg else r & ~s != 0
    for s in range(1 << k):
        want = not (p & ~s == 0 and refuted(s))
        st.outcome((kind, p, c, s, want))
        arg = ns(s)
        st.eq('%s respects %s => %s (%s)' % (arg, prem, conc, kind),
              bool(imp.is_respected(arg)), want)
        st.true('the set asked about', arg == ns(s))
        for poss in range(1 << k):
            if s & ~poss:
                continue
            want = not (p & ~s == 0 and refuted(poss))
            st.eq('(%s, %s) respects %s => %s (%s)'
                  % (ns(s), ns(poss), prem, conc, kind),
                  bool(imp.is_respected((ns(s), ns(poss)))), want)
    # equality
    for kind2 in ('pos', 'neg', 'unit'):
        for p2 in range(1 << k):
            for c2 in range(1 << k):
                if kind2 == 'unit' and (c2 & p2
                                        or bin(c2).count('1') != 1):
                    continue
                other = build(kind2, ns(p2), ns(c2))
                same = (p == p2 and r == c2 & ~p2
                        and neg == (kind2 == 'neg'))
                what = '%s %s => %s and %s %s => %s' % (
                    kind, prem, conc, kind2, ns(p2), ns(c2))
                st.eq(what + ' equal', bool(imp == other), same)
                st.eq(what + ' differ', bool(imp != other), not same)
                if same:
                    st.eq(what + ': hashes', hash(imp), hash(other))
                st.eq(what + ': member', imp in [other], same)
                st.eq(what + ': member of a set', imp in {other}, same)
    # independence
    prem.add('x')
    conc.add('y')
    st.true('premise after the given set changed', imp.premise == ns(p))
    st.true('conclusion after the given set changed',
            imp.conclusion == ns(c & ~p))
    dup = copy.deepcopy(imp)
    st.true('class of the copy', type(dup) is type(imp))
    st.true('copy equals', bool(dup == imp) and hash(dup) == hash(imp))
    st.eq('the copy respects', [bool(dup.is_respected(ns(s)))
                                for s in range(1 << k)],
          [bool(imp.is_respected(ns(s))) for s in range(1 << k)])
    dup.get_premise().add('z')
    dup.get_conclusion().add('w')
    st.true('premise after the copy changed', imp.premise == ns(p))
    st.true('conclusion after the copy changed', imp.conclusion == ns(c & ~p))
    lst = copy.deepcopy([imp, imp])
    st.true('a list copies', lst[0] == imp and lst[1] == imp)
    if kind != 'unit':
        blank = KINDS[kind]()
        blank.get_premise().add('z')
        blank.get_conclusion().add('w')
        again = KINDS[kind]()
        st.eq('an implication made without arguments',
              (again.premise, again.conclusion), (set(), set()))
