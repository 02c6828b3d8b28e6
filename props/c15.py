"""Equality of contexts."""
import copy
import itertools

import numpy as np

from fca import Context

from mc import spaces
from mc.ref import Ref, bits, mask_of
from mc.util import Frozen

ID = 'C15'
BOUNDS = {
    'quick': 'every pair of contexts up to 2x2 and every pair of 3x2 and of '
             '2x3 contexts with their rows and columns permuted in every '
             'way; every pair differing in one cross up to 4x4; every pair '
             'of namings from an alphabet with equal printouts; contexts '
             'built, edited and copied in every way',
    'thorough': 'every pair of 3x3 contexts up to row multiset on one side',
}
ALPHA = [1, '1', 'a', 'b', ('a',), "('a',)", 'a, b', 'a\tX', None, 'None',
         2.5, '2.5']


def cases(tier):
    sizes = [(n, k) for n in range(3) for k in range(3)]
    for n, k in sizes:
        for a in spaces.all_rows(n, k):
            for n2, k2 in sizes:
                for b in spaces.all_rows(n2, k2):
                    yield ['pair', k, list(a), k2, list(b)]
    for n, k in ((3, 2), (2, 3)):
        for a in spaces.all_rows(n, k):
            yield ['perm', k, list(a)]
    for n, k in ((1, 2), (2, 2), (2, 1)):
        for names in itertools.permutations(range(len(ALPHA)), 2):
            yield ['names', n, k, list(names)]
    for n in range(1, 5):
        for k in range(1, 5):
            yield ['one', n, k]
    for way in spaces.WAYS:
        for rows in spaces.multisets(2, 2):
            yield ['ctx', way, 'str', 2, list(rows)]
            yield ['ctx', way, 'mixed', 2, list(rows[::-1])]
    for b, (k, rows) in enumerate(spaces.big()):
        yield ['big', b]
    if tier == 'thorough':
        for a in spaces.multisets(3, 3):
            yield ['perm', 3, list(a)]


def relation(ref):
    return (set(ref.objects), set(ref.attributes), set(ref.pairs()))


def judge(st, a, b, ra, rb):
    want = relation(ra) == relation(rb)
    st.state((ra.key(), rb.key()))
    st.outcome((ra.key(), want))
    for x, y in ((a, b), (b, a)):
        if bool(x == y) != want or bool(x != y) == want:
            st.true('equality of %s and %s' % (ra.key(), rb.key()), False,
                    (x == y, x != y))
    st.transitions += 4


def perms(ref):
    for po in itertools.permutations(range(ref.n)):
        for pa in itertools.permutations(range(ref.k)):
            yield Ref([ref.objects[i] for i in po],
                      [ref.attributes[j] for j in pa],
                      [mask_of(x for x, j in enumerate(pa)
                               if ref.rows[i] >> j & 1) for i in po])


def run(case, st):
    kind = case[0]
    if kind == 'ctx':
        def probe(c, ref):
            frozen = Frozen(c)
            for d in perms(ref):
                judge(st, c, spaces.make(d), ref, d)
            for i in range(ref.n):
                for j in range(ref.k):
                    other = Ref(ref.objects, ref.attributes,
                                [r ^ (1 << j if x == i else 0)
                                 for x, r in enumerate(ref.rows)])
                    judge(st, c, spaces.make(other), ref, other)
            st.true('equals itself', c == c)
            st.true('equals its copy', c == copy.deepcopy(c))
            st.true('equals itself transposed twice',
                    c == c.transpose().transpose())
            frozen.check(st, 'comparing')
        return spaces.run_way(case, st, probe)
    if kind == 'pair':
        ra = spaces.ref_of('str', case[1], case[2])
        rb = spaces.ref_of('str', case[3], case[4])
        a = spaces.make(ra)
        for d in perms(rb):
            judge(st, a, spaces.make(d), ra, d)
    elif kind == 'big':
        k, rows = list(spaces.big())[case[1]]
        ra = spaces.ref_of('str', k, rows)
        a = spaces.make(ra)
        flips = [(i, j) for i in {0, ra.n // 2, ra.n - 1}
                 for j in {0, k // 2, k - 1, min(k - 1, 64)}]
        others = [ra] + [Ref(ra.objects, ra.attributes,
                             [r ^ (1 << j if x == i else 0)
                              for x, r in enumerate(ra.rows)])
                         for i, j in flips]
        others += [Ref(ra.objects[:-1], ra.attributes, ra.rows[:-1]),
                   Ref(ra.objects[:-1] + ['other'], ra.attributes, ra.rows),
                   Ref(ra.objects, ra.attributes[:-1] + ['z'], ra.rows)]
        for rb in others:
            for po in (1, -1):
                for pa in (1, -1):
                    d = Ref(rb.objects[::po], rb.attributes[::pa],
                            [r if pa > 0 else
                             mask_of(k - 1 - j for j in bits(r))
                             for r in rb.rows][::po])
                    judge(st, a, spaces.make(d), ra, d)
    elif kind == 'perm':
        k, rows = case[1:]
        ra = spaces.ref_of('int', k, rows)
        ps = [(d, spaces.make(d)) for d in perms(ra)]
        for rows2 in spaces.all_rows(len(rows), k):
            rb = spaces.ref_of('int', k, list(rows2))
            b = spaces.make(rb)
            for d, c in ps:
                judge(st, c, b, d, rb)
    elif kind == 'names':
        n, k, (x, y) = case[1:]
        rows = [(1 << k) - 1, 1][:n]
        base = Ref([ALPHA[x], 'o'][:n], [ALPHA[x], 'm'][:k], rows)
        a = spaces.make(base)
        for o in (x, y):
            for m in (x, y):
                other = Ref([ALPHA[o], 'o'][:n], [ALPHA[m], 'm'][:k], rows)
                for d in perms(other):
                    judge(st, a, spaces.make(d), base, d)
        if n == 2 and k == 2:
            two = Ref([ALPHA[x], ALPHA[y]], [ALPHA[y], ALPHA[x]], rows)
            for d in perms(two):
                judge(st, spaces.make(two), spaces.make(d), two, d)
            sw = Ref([ALPHA[y], ALPHA[x]], [ALPHA[y], ALPHA[x]], rows)
            judge(st, spaces.make(two), spaces.make(sw), two, sw)
    else:
        n, k = case[1:]
        for base in (0, (1 << k) - 1, 0b0101 & ((1 << k) - 1)):
            ra = spaces.ref_of('rev', k, [base] * n)
            a = spaces.make(ra)
            for i in range(n):
                for j in range(k):
                    rows = [base] * n
                    rows[i] ^= 1 << j
                    rb = spaces.ref_of('rev', k, rows)
                    for t in (rb.table(), np.array(rb.table()),
                              [[int(x) for x in r] for r in rb.table()]):
                        b = Context(t, rb.objects, rb.attributes)
                        judge(st, a, b, ra, rb)
                    for d in (list(perms(rb))[:30]):
                        judge(st, a, spaces.make(d), ra, d)
            judge(st, a, spaces.make(ra), ra, ra)
