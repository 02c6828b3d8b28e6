"""Histories of a pattern exploration."""
import itertools

import fca
from fca.algorithms import patterns as lib

from mc import spaces
from mc.ref import Ref
from mc.util import Frozen, check_relation

ID = 'C32'
BOUNDS = {
    'quick': 'all histories of two steps from all pairs of up to two positive '
             'and up to one negative objects over two attributes, of one step '
             'with up to two of both, of one step from all with up to three '
             'positive and negative objects over three attributes, of two '
             'steps from twelve and of three from two of them; in every '
             'state all steps that must be refused; every pattern of up to '
             'three kinds of steps repeated to ten steps from those twelve; '
             'with the default and '
             'another generator of patterns, attributes in two orders, two '
             'naming schemes; '
             'explorations of up to 260 attributes or 140 objects',
    'thorough': 'histories of three steps over two attributes, of two from '
                'up to two objects over three, of four from two contexts, '
                'three positive objects over three attributes',
}
STARTS = [([7], []), ([7, 3], [4]), ([5, 6], [1]), ([3, 5, 6], [0]),
          ([3, 5, 6], [4, 2]), ([7, 7], [6]), ([0], [1]), ([], [3]), ([], []),
          ([1, 2, 4], [1]), ([7, 0], [3, 5]), ([6, 6, 5, 1], [2, 4])]
MAXN = 4
KINDS = [['confirm'], ['negative'], ['positive']]


class State:
    def __init__(self, k, pos, neg, conf=()):
        self.k, self.pos, self.neg = k, tuple(pos), tuple(neg)
        self.conf = tuple(conf)

    def sets(self):
        if self.k <= 9:
            return range(1 << self.k)
        rows = self.pos + self.neg
        return sorted({a & b for a in rows[:20] for b in rows[-9:]}
                      | {1 << j for j in range(self.k)} | set(rows)
                      | {0, (1 << self.k) - 1} | set(self.conf))

    def explained(self, m):
        return any(p & m == p for p in self.conf)

    def pattern(self, p):
        return (any(p & r == p for r in self.pos)
                and not any(p & r == p for r in self.neg))

    def moves(self, small=False, cap=MAXN):
        sets = range(1 << self.k)
        for p in sets:
            errs = []
            if not any(p & r == p for r in self.pos):
                errs.append('NotAPositivePattern')
            if any(p & r == p for r in self.neg):
                errs.append('NotANegativePattern')
            yield ['confirm', p], errs, None if errs else State(
                self.k, self.pos, self.neg, self.conf + (p,))
        for m in sets:
            for p in [None] + list(sets):
                errs = []
                if p is not None and p & ~m:
                    errs.append('NotNegativeExample')
                if self.explained(m):
                    errs.append('ConfirmedPatternsConflict')
                if not errs and (len(self.neg) >= cap
                                 or p not in (None, 0, m)
                                 or small and p is not None):
                    continue
                yield ['negative', m, p], errs, None if errs else State(
                    self.k, self.pos, self.neg + (m,), self.conf)
            if len(self.pos) < cap and not (small and m not in (0, 3, 6)):
                yield ['positive', m], [], State(
                    self.k, self.pos + (m,), self.neg, self.conf)


def words(state, depth, small=False):
    if depth == 0:
        yield []
        return
    for op, errs, nxt in state.moves(small):
        if nxt is not None:
            for w in words(nxt, depth - 1, small):
                yield [op] + w


def cases(tier):
    q = tier == 'quick'
    two = [list(r) for n in range(3) for r in spaces.multisets(n, 2)]
    three = [list(r) for n in range(3) for r in spaces.multisets(n, 3)]
    for depth in (0, 1, 2) if q else (0, 1, 2, 3):
        for pos, neg in itertools.product(two, repeat=2):
            if depth == (2 if q else 3) and len(neg) == 2:
                continue
            for w in words(State(2, pos, neg), depth, q or depth == 3):
                yield [2, pos, neg, w]
    for depth in (0, 1) if q else (0, 1, 2):
        for pos, neg in itertools.product(three, repeat=2):
            if len(pos) + len(neg) > (3 if depth < 2 else 2):
                continue
            for w in words(State(3, pos, neg), depth, True):
                yield [3, pos, neg, w]
    for pos, neg in STARTS:
        for w in words(State(3, pos, neg), 2, q):
            yield [3, pos, neg, w]
    for w in spaces.patterns(KINDS, 3 if q else 5):
        for pos, neg in STARTS:
            yield ['walk', pos, neg, w]
    for k, rows in spaces.universes():
        for split in (0, len(rows) // 2, len(rows) - 2):
            yield ['large', k, rows, split]
    for pos in spaces.multisets(3, 3):
        for neg in two if q else three:
            yield [3, list(pos), neg, []]
    for pos, neg in (STARTS[1], STARTS[3]):
        for w in words(State(3, pos, neg), 3 if q else 4, True):
            if w[0][0] == 'confirm' or not q:
                yield [3, pos, neg, w]


class Names:
    def __init__(self, scheme, k):
        self.a = spaces.names(scheme, 0, k)[1]
        self.order = self.a[::-1]       # of the negative context

    def set(self, m):
        return {a for j, a in enumerate(self.a) if m >> j & 1}

    def mask(self, names):
        return sum(1 << self.a.index(x) for x in set(names))

    def context(self, rows, label, order):
        return fca.Context([[bool(r >> self.a.index(x) & 1) for x in order]
                            for r in rows],
                           ['%s%d' % (label, i) for i in range(len(rows))],
                           list(order))


def check(st, exp, nm, s, what, offered):
    for cxt, rows, label, order in ((exp.positive_cxt, s.pos, 'p', nm.a),
                                    (exp.negative_cxt, s.neg, 'n', nm.order)):
        ref = Ref(['%s%d' % (label, i) for i in range(len(rows))], order,
                  [sum(1 << order.index(a) for a in nm.set(r))
                   for r in rows])
        check_relation(st, cxt, ref, '%s, %s examples' % (what, label))
    conf = [nm.mask(p) for p in exp.confirmed_patterns]
    st.eq(what + ': confirmed patterns', sorted(conf), sorted(s.conf))
    st.true(what + ': confirmed patterns are patterns',
            all(s.pattern(p) for p in conf), conf)
    for m in s.sets():
        for kind in (set, frozenset):
            st.eq(what + ': is_explained %s' % m,
                  bool(exp.is_explained(kind(nm.set(m)))), s.explained(m))
    st.eq(what + ': unexplained examples',
          [(o, nm.mask(i)) for o, i in exp.iterate_unexplained_examples()],
          [('p%d' % i, r) for i, r in enumerate(s.pos)
           if not s.explained(r)])
    for p in s.sets():
        st.eq(what + ': examples of %s' % p,
              sorted((o, nm.mask(i)) for o, i in
                     exp.iterate_examples(nm.set(p))),
              sorted(('p%d' % i, r) for i, r in enumerate(s.pos)
                     if p & r == p))
    got = [(nm.mask(p), n) for p, n in
           exp.get_unconfirmed_patterns_with_examples()]
    st.eq(what + ': in decreasing number', [n for _, n in got],
          sorted([n for _, n in got], reverse=True))
    for p, n in got:
        st.true(what + ': offered %s is a pattern' % p, s.pattern(p))
        st.true(what + ': offered %s is not explained' % p,
                not s.explained(p))
        st.eq(what + ': newly covered by %s' % p, n,
              sum(1 for r in s.pos if p & r == p and not s.explained(r)))
    if offered is None:
        every = [nm.mask(c.intent) for c in
                 exp.iterate_patterns_with_examples()]
        for p in every:
            st.true(what + ': %s is a pattern' % p, s.pattern(p))
    else:
        every = offered(s)
    st.eq(what + ': unconfirmed', sorted(p for p, _ in got),
          sorted(p for p in every if not s.explained(p)))
    return got


def everything(s):
    return [p for p in range(1 << s.k) if s.pattern(p)]


def call(exp, nm, s, op):
    if op[0] == 'confirm':
        given = nm.set(op[1])
        if op[1] & 1:
            given = frozenset(given)
        exp.confirm_pattern(given)
        if op[1] & 1 == 0:
            given.add('changed')
    elif op[0] == 'negative':
        name = 'n%d' % len(s.neg)
        if op[2] is None:
            exp.add_negative_example(name, nm.set(op[1]))
        else:
            exp.add_negative_example(name, nm.set(op[1]),
                                     frozenset(nm.set(op[2])))
    else:
        exp.add_positive_example('p%d' % len(s.pos), nm.set(op[1]))


def large(st, k, rows, split):
    """hundreds of objects or attributes, some of them negative"""
    nm = Names('str', k)
    pos, neg = rows[:split] + rows[split + 2:], rows[split:split + 2]
    exp = lib.BasicPatternExploration(nm.context(pos, 'p', nm.a),
                                      nm.context(neg, 'n', nm.order))
    s = State(k, pos, neg)
    check(st, exp, nm, s, 'at the start', None)
    for t in range(5):
        found = [p for p in s.sets() if s.pattern(p) and not s.explained(p)]
        full = (1 << k) - 1
        if t % 2 == 0 and found:
            p = found[len(found) // 2]
            op = ['confirm', p]
            s = State(k, s.pos, s.neg, s.conf + (p,))
        elif t == 1:
            m = next(m for m in (full ^ 1, full >> 2, 1, 0) if not
                     any(p & m == p for p in s.conf))
            op = ['negative', m, None]
            s = State(k, s.pos, s.neg + (m,), s.conf)
        else:
            op = ['positive', full >> t]
            s = State(k, s.pos + (full >> t,), s.neg, s.conf)
        before = State(k, s.pos[:len(s.pos) - (op[0] == 'positive')],
                       s.neg[:len(s.neg) - (op[0] == 'negative')])
        call(exp, nm, before, op)
        check(st, exp, nm, s, 'after step %d %s' % (t, op), None)
    st.state((k, s.pos, s.neg, s.conf))


def walk(st, pos, neg, pattern):
    nm = Names('str', 3)
    exp = lib.BasicPatternExploration(nm.context(pos, 'p', nm.a),
                                      nm.context(neg, 'n', nm.order))
    s = State(3, pos, neg)
    for t in range(10):
        move = spaces.pick(s.moves(cap=9), pattern[t % len(pattern)], t)
        if move:
            call(exp, nm, s, move[0])
            s = move[2]
            check(st, exp, nm, s, 'after step %d %s' % (t, move[0]), None)
    st.state((3, s.pos, s.neg, s.conf))


def run(case, st):
    if case[0] == 'large':
        return large(st, *case[1:])
    if case[0] == 'walk':
        return walk(st, *case[1:])
    k, pos, neg, word = case
    explore(st, k, pos, neg, word, 'str', False)
    if len(word) < 2:
        explore(st, k, pos, neg, word, 'int', True)
    if not word:
        refused(st, k, pos, neg)


def explore(st, k, pos, neg, word, scheme, other):
    nm = Names(scheme, k)
    p = nm.context(pos, 'p', nm.a)
    n = nm.context(neg, 'n', nm.order)
    frozen = Frozen(p), Frozen(n)
    s = State(k, pos, neg)
    kw = {}
    if other:
        def generator(positive, negative):
            now = [sum(1 << nm.a.index(x) for x in i)
                   for i in positive.intents()]
            then = [sum(1 << nm.a.index(x) for x in i)
                    for i in negative.intents()]
            for m in everything(State(k, now, then)):
                yield frozenset(nm.set(m)), 1
        kw['pattern_generator'] = generator
    exp = lib.BasicPatternExploration(
        p, n, expert=lambda pattern: [('x', pattern), ('y', set())], **kw)
    offered = everything if other else None
    check(st, exp, nm, s, 'at the start', offered)
    st.eq('the expert is asked', list(exp.iterate_new_objects({1})),
          [('x', {1}), ('y', set())])
    for i, op in enumerate(word):
        call(exp, nm, s, op)
        s = next(nxt for o, _, nxt in s.moves() if o == op)
        got = check(st, exp, nm, s, 'after step %d %s' % (i + 1, op), offered)
        st.outcome(tuple(sorted(got)))
    st.state((k, s.pos, s.neg, s.conf))
    for op, errs, _ in s.moves():
        if errs:
            st.raises('refused: %s' % op,
                      tuple(getattr(lib, e) for e in errs), call, exp, nm,
                      s, op)
            if op[0] == 'confirm' or op[2] in (None, 1):
                check(st, exp, nm, s, 'after the refused %s' % op, offered)
    check(st, exp, nm, s, 'after all refused steps', offered)
    for f in frozen:
        f.check(st, 'the exploration')


def refused(st, k, pos, neg):
    nm = Names('str', k)
    p = nm.context(pos, 'p', nm.a)
    for order in (nm.a[:-1], nm.a + ['more'], nm.a[:-1] + ['more']):
        n = fca.Context([[False] * len(order) for _ in neg],
                        ['n%d' % i for i in range(len(neg))], order)
        st.raises('different attributes', lib.AttributeMismatch,
                  lib.BasicPatternExploration, p, n)
        st.raises('different attributes', lib.AttributeMismatch,
                  lib.BasicPatternExploration, n, p)
