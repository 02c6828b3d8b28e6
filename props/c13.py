"""Construction: unique names, consistent sizes."""
import itertools
import random

import numpy as np

from fca import Context, make_random_context

from mc.ref import Ref, mask_of
from mc.util import table_of
from props import c11

ID = 'C13'
BOUNDS = {
    'quick': 'all lists of up to five names over an alphabet of seven with '
             'renamed forms and equal printouts, as objects and as '
             'attributes, together for up to two; lists of up to eight names '
             'over two letters and 300 names in six patterns; every table '
             'size against every number of '
             'names up to three; additions and renamings that repeat a name; '
             'random contexts up to 3x2 under every outcome of the draws',
    'thorough': 'lists of up to six names, together for up to three',
}
ABC = ['a', 'b', 'a_0', 'a_1', 'b_1', 0, '0']


def cases(tier):
    top = 5 if tier == 'quick' else 6
    for n in range(top + 1):
        for names in itertools.product(range(len(ABC)), repeat=n):
            yield ['names', list(names), []]
            yield ['names', [], list(names)]
    both = 2 if tier == 'quick' else 3
    for n in range(1, both + 1):
        for o in itertools.product(range(len(ABC)), repeat=n):
            for a in itertools.product(range(len(ABC)), repeat=n):
                yield ['names', list(o), list(a)]
    for n in (5, 6, 7, 8):
        for names in itertools.product((0, 2), repeat=n):
            yield ['names', list(names), [1, 1]]
            yield ['names', [3], list(names)]
    for n in range(4):
        for k in range(4):
            for n2 in range(4):
                for k2 in range(4):
                    yield ['size', n, k, n2, k2]
    for n in range(3):
        for k in range(3):
            for x in range(len(ABC)):
                yield ['again', n, k, x]
    for n in (11, 12, 33, 130, 300):
        for shape in range(6):
            yield ['many', n, shape]
    for rows in itertools.product(range(4), repeat=3):
        yield ['ragged', list(rows)]
    yield ['none']
    for n in range(4):
        for k in range(4):
            if n * k <= (6 if tier == 'quick' else 9):
                for density in (0, 0.25, 0.5, 1):
                    yield ['random', n, k, density]
    for n, k in ((1, 12), (12, 1), (4, 11), (11, 4)):
        yield ['random', n, k, 1]


def judge_names(st, what, given, got):
    st.eq(what + ': number', len(got), len(given))
    st.true(what + ' %r are distinct:' % (given,), len(set(got)) == len(got),
            got)
    repeated = {x for x in given if given.count(x) > 1}
    for x, y in zip(given, got):
        taken = any(isinstance(x, str) and x.startswith('%s_' % d)
                    for d in repeated)
        if x not in repeated and not taken:
            st.eq(what + ' %r: a name that was unique' % (given,), y, x)
        elif x in repeated:
            st.true(what + ' %r: replacement of %r' % (given, x),
                    y != x and str(y).startswith(str(x)), y)


def run_names(st, o, a):
    objs, atts = [ABC[i] for i in o], [ABC[i] for i in a]
    n, k = len(objs), len(atts)
    tables = []
    for salt in (0, 1):
        rows = [(0x5A6 >> i ^ salt * 0xFF ^ i * 3) & ((1 << k) - 1)
                for i in range(n)]
        tables.append(rows)
    tables.append([1 << i & ((1 << k) - 1) for i in range(n)])
    for rows in tables:
        t = [[bool(r >> j & 1) for j in range(k)] for r in rows]
        for table in (t, np.array(t, dtype=bool).reshape(n, k)):
            go, ga = list(objs), list(atts)
            c = Context(table, go, ga)
            st.eq('lists given', (go, ga), (objs, atts))
            judge_names(st, 'objects', objs, c.objects)
            judge_names(st, 'attributes', atts, c.attributes)
            st.outcome((c.objects, c.attributes))
            ref = Ref(c.objects, c.attributes, rows)
            c11.verify(st, c, ref, False)
            for i, x in enumerate(c.objects):
                st.eq('row of %r' % (x,), c.get_object_intent(x),
                      ref.anames(rows[i]))
                st.eq('derivation of %r' % (x,), c.oprime({x}),
                      ref.anames(rows[i]))
            for j, y in enumerate(c.attributes):
                st.eq('column of %r' % (y,), c.get_attribute_extent(y),
                      ref.onames(ref.extent(1 << j)))
                st.eq('derivation of %r' % (y,), c.aprime({y}),
                      ref.onames(ref.extent(1 << j)))


def run_many(st, n, shape):
    names = [['a'] * n,
             ['a', 'a_0', 'a_1', 'b', 'a_%d' % (n // 2)] * (n // 5),
             ['m%d' % i for i in range(n - 1)] + ['m0'],
             ['m%d' % (i // 2) for i in range(n)],
             [0, '0', 'x', None] * (n // 4) + ['y'],
             ['m%d' % i for i in range(n)]][shape]
    n = len(names)
    few = ['p', 'p', 'q']
    rows = [i % 8 for i in range(n)]
    st.state((n, shape))
    ref = Ref(list(range(n)), few, rows)
    for flip in (0, 1):
        if flip:
            c = Context(ref.transpose().table(), list(few), list(names))
            got, other = c.attributes, c.objects
        else:
            c = Context(ref.table(), list(names), list(few))
            got, other = c.objects, c.attributes
        judge_names(st, 'names', names, got)
        judge_names(st, 'other names', few, other)
        want = Ref(list(got), list(other), rows)
        c11.verify(st, c, want.transpose() if flip else want, False)
        # the same one name at a time
        c = Context([[] for _ in few], list(few), []) if flip else \
            Context([], [], list(few))
        for i, x in enumerate(names[:140]):
            row = [bool(rows[i] >> j & 1) for j in range(3)]
            (c.add_attribute if flip else c.add_object)(row, x)
            got = c.attributes if flip else c.objects
            st.true('names stay distinct', len(set(got)) == i + 1, got)
            st.true('earlier names', i == 0 or list(got[:-1]) == seen
                    or names.count(x) > 1, lambda: (seen, got))
            seen = list(got)
        want = Ref(list(got), list(c.objects if flip else c.attributes),
                   rows[:len(got)])
        c11.verify(st, c, want.transpose() if flip else want, False)
    st.outcome(tuple(got))


def run_size(st, n, k, n2, k2):
    objs = ['o%d' % i for i in range(n)]
    atts = ['m%d' % j for j in range(k)]
    st.state((n, k, n2, k2))
    for t in ([[True] * k2 for _ in range(n2)],
              np.ones((n2, k2), dtype=bool)):
        if n == n2 and (k == k2 or n == 0):
            c = Context(t, objs, atts)
            c11.verify(st, c, Ref(objs, atts, [(1 << k) - 1] * n))
            st.outcome('ok')
        else:
            st.raises('table of %dx%d for %d objects and %d attributes'
                      % (n2, k2, n, k), ValueError, Context, t, objs, atts)
            st.outcome('refused')
            # a context of the right size refuses what does not fit
    if n == n2:
        c = Context([[True] * k] * n, objs, atts)
        ref = Ref(objs, atts, [(1 << k) - 1] * n)
        if k2 != k and n:
            st.raises('a row of %d for %d attributes' % (k2, k), ValueError,
                      c.add_object, [True] * k2, 'x')
            c11.verify(st, c, ref, False)
        if k2 != n and k:
            st.raises('a column of %d for %d objects' % (k2, n), ValueError,
                      c.add_attribute, [True] * k2, 'x')
            c11.verify(st, c, ref, False)


def run_again(st, n, k, x):
    """a name in use is added once more"""
    objs, atts = ['a', 'b'][:n], ['b', 'a'][:k]
    rows = [(5 >> i) & ((1 << k) - 1) for i in range(n)]
    ref = Ref(objs, atts, rows)
    name = ABC[x]

    def fresh():
        return Context(ref.table(), list(objs), list(atts))
    c = fresh()
    c.add_object([True] * k, name)
    judge_names(st, 'objects', objs + [name], c.objects)
    c11.verify(st, c, Ref(c.objects, atts, rows + [(1 << k) - 1]))
    c = fresh()
    c.add_attribute([True] * n, name)
    judge_names(st, 'attributes', atts + [name], c.attributes)
    c11.verify(st, c, Ref(objs, c.attributes, [r | 1 << k for r in rows]))
    if n:
        c = fresh()
        c.rename_object(objs[-1], name)
        judge_names(st, 'objects', objs[:-1] + [name], c.objects)
        c11.verify(st, c, Ref(c.objects, atts, rows))
    if k:
        c = fresh()
        c.rename_attribute(atts[0], name)
        judge_names(st, 'attributes', [name] + atts[1:], c.attributes)
        c11.verify(st, c, Ref(objs, c.attributes, rows))


def run_ragged(st, lens):
    objs, atts = ['o0', 'o1', 'o2'], ['m0', 'm1', 'm2'][:lens[0]]
    t = [[True] * x for x in lens]
    st.state(lens)
    if len(set(lens)) == 1:
        c = Context(t, objs, atts)
        st.eq('table', table_of(c), t)
    else:
        st.raises('rows of lengths %s' % lens, ValueError, Context, t, objs,
                  atts)


class Draws:
    """stands in for the random generator: a given word of outcomes"""

    def __init__(self, word):
        self.word, self.used = word, 0

    def random(self):
        v = self.word[self.used % len(self.word)]
        self.used += 1
        return v


def run_random(st, n, k, density):
    """every outcome of the draws: below the density, at it, above it"""
    seen = set()
    real = random.random
    values = sorted({0.0, density / 2, density, (1 + density) / 2,
                     1 - 2.0 ** -53} - {1})
    low, high = [v for v in values if v < density], \
        [v for v in values if v >= density]
    for word in itertools.product(*[((low[-1:] or high[:1]) + high[:1])
                                    for _ in range(n * k)]) \
            if n * k < 10 else [low[:1] * (n * k)]:
        for least in (0, 1):
            draws = Draws([low[0] if least and v in low else
                           high[-1] if least and v in high else v
                           for v in word] or [0.5])
            random.random = draws.random
            try:
                c = make_random_context(n, k, density)
            finally:
                random.random = real
            st.eq('number of objects', len(c.objects), n)
            st.eq('number of attributes', len(c.attributes), k)
            st.eq('distinct names', (len(set(c.objects)),
                                     len(set(c.attributes))), (n, k))
            t = table_of(c)
            rows = [mask_of(j for j, x in enumerate(r) if x) for r in t]
            c11.verify(st, c, Ref(c.objects, c.attributes, rows), False)
            crosses = sum(map(sum, t))
            if density in (0, 1):
                st.eq('crosses at density %s' % density, crosses,
                      density * n * k)
            if draws.used:          # it is this generator that decides
                st.eq('draws', draws.used, n * k)
                st.eq('crosses', crosses, sum(v < density for v in word))
                if not least:
                    seen.add(tuple(rows))
            st.state((n, k, density, tuple(rows)))
    if seen and density not in (0, 1):
        st.eq('contexts that can come out', len(seen), 1 << n * k)


def run(case, st):
    if case[0] == 'random':
        return run_random(st, *case[1:])
    if case[0] == 'names':
        run_names(st, *case[1:])
    elif case[0] == 'many':
        run_many(st, *case[1:])
    elif case[0] == 'size':
        run_size(st, *case[1:])
    elif case[0] == 'again':
        run_again(st, *case[1:])
    elif case[0] == 'ragged':
        run_ragged(st, case[1])
    else:
        for c in (Context(), Context([], [], []), Context(None, None, None)):
            c11.verify(st, c, Ref([], [], []))
            c.add_attribute([], 'm')
            c.add_object([True], 'o')
            c11.verify(st, c, Ref(['o'], ['m'], [1]))
        c11.verify(st, Context(), Ref([], [], []))
