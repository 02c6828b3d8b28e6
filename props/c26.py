"""Many-valued contexts, scales and scaling."""
import copy
import itertools

from fca import Context, ManyValuedContext, Scale
from fca.algorithms.scaling import scale_mvcontext
from fca.scale import NominalScale, OrdinalScale

from mc import spaces
from mc.util import Frozen, check_relation
from mc.ref import Ref

ID = 'C26'
BOUNDS = {
    'quick': 'all tables up to 2x2 over eight kinds of values; all histories '
             'of up to three edits of six tables (every object, attribute, '
             'renaming, addition and deletion, refused ones included), every '
             'pattern of up to two kinds of edits repeated to ten; every '
             'way to extract; scaling of every column of up to three values '
             'by every scale of two conditions and two attributes, of all '
             'pairs of columns by two scales; nominal scales of every column '
             'of up to three out of eighteen values; ordinal scales of all '
             'ranges up to five values',
    'thorough': 'tables 3x2 and 2x3 over four kinds of values, histories of '
                'four edits, columns of four values',
}
VALUES = [0, '', None, 'x y', 1.5, True, (1, 'z'), '7']
MV_STARTS = [
    (['o1', 'o2'], ['a', 'b'], [[1, '2'], [None, 'x y']]),
    ([], ['a', 'b'], []),
    (['o1'], [], [[]]),
    ([1, ('t',)], ['b', 'a', 'c'], [[0, 0.5, ''], [True, (1, 2), 'é']]),
    (['z', 'y', 'x'], ['a'], [[3], ['3'], [3.0]]),
    ([], [], []),
]
NEW_O = ['new', 9, 'newer', 'newest', 'last', 'end', 'more', 'most', 'spare',
         'other', 'others', 'far']
NEW_A = ['new a', ('t', 2)] + NEW_O[2:]
KINDS = [['add_object'], ['add_attribute'], ['delete_object'],
         ['delete_attribute'], ['delete_attributes'], ['rename_object'],
         ['rename_attribute'], ['bad']]


# ------------------------------------------------------------ the reference

class Table:
    def __init__(self, o, a, rows):
        self.o, self.a, self.rows = list(o), list(a), [list(r) for r in rows]

    def copy(self):
        return Table(self.o, self.a, self.rows)


def ops(t, new=2):
    n, k = len(t.o), len(t.a)
    fo = [x for x in NEW_O[:new] if x not in t.o]
    fa = [x for x in NEW_A[:new] if x not in t.a]
    if fo:
        i = NEW_O.index(fo[0])
        yield ['add_object', i, 0]
        yield ['add_object', i, 3]
        yield ['bad', 'add_object']
    if fa:
        i = NEW_A.index(fa[0])
        yield ['add_attribute', i, 1]
        yield ['add_attribute', i, 4]
        yield ['bad', 'add_attribute']
    for i in range(n):
        yield ['delete_object', i]
        if fo:
            yield ['rename_object', i, NEW_O.index(fo[-1])]
    for j in range(k):
        yield ['delete_attribute', j]
        if fa:
            yield ['rename_attribute', j, NEW_A.index(fa[-1])]
    for m in (0, 3, 5, 6):
        if m < 1 << k:
            yield ['delete_attributes', m]
    for x in ('delete_object', 'delete_attribute', 'rename_object',
              'rename_attribute'):
        yield ['bad', x]


def step(t, op):
    t = t.copy()
    name = op[0]
    if name == 'add_object':
        t.rows.append([VALUES[(op[2] + j) % 8] for j in range(len(t.a))])
        t.o.append(NEW_O[op[1]])
    elif name == 'add_attribute':
        for i, r in enumerate(t.rows):
            r.append(VALUES[(op[2] + i) % 8])
        t.a.append(NEW_A[op[1]])
    elif name == 'delete_object':
        del t.o[op[1]], t.rows[op[1]]
    elif name in ('delete_attribute', 'delete_attributes'):
        gone = {op[1]} if name == 'delete_attribute' else {
            j for j in range(len(t.a)) if op[1] >> j & 1}
        for r in t.rows + [t.a]:
            r[:] = [v for j, v in enumerate(r) if j not in gone]
    elif name == 'rename_object':
        t.o[op[1]] = NEW_O[op[2]]
    elif name == 'rename_attribute':
        t.a[op[1]] = NEW_A[op[2]]
    return t


def words(t, depth):
    yield []
    if depth:
        for op in ops(t):
            for w in words(step(t, op), depth - 1):
                yield [op] + w


# numbers and texts and the conditions that can be asked about them
NUMBERS = [0, '1', 2, 1.5, '3.0', -1]
NUMBER_CONDS = ['value < 2', 'value == 1', '1 <= value <= 2', 'value != 0']
TEXTS = ['a', 'b c', None, "it's"]
TEXT_CONDS = ["value == 'a'", "value != 'a'", "value in ('a', 'b c')",
              "value == 'None'"]
NOMINAL = [0, '0', 1.0, 'a', "it's", '"', None, True, 'None', '', ' 1 ',
           'a:b', -0.0, 0.1 + 0.2, '0.3', 'é', 'a\\n', '1e3']


def read(value):
    """what a condition sees"""
    try:
        return float(value)
    except (TypeError, ValueError):
        return str(value)


def cases(tier):
    q = tier == 'quick'
    for n in range(3):
        for k in range(3):
            yield from (['table', n, k, list(v)] for v in
                        itertools.product(range(8), repeat=n * k))
    if not q:
        for n, k in ((3, 2), (2, 3)):
            yield from (['table', n, k, list(v)] for v in
                        itertools.product((1, 2, 4, 6), repeat=n * k))
    for i in range(4):
        yield ['big', i]
    for depth in (1, 2, 3) if q else (1, 2, 3, 4):
        for s, start in enumerate(MV_STARTS):
            for w in words(Table(*start), depth):
                if len(w) == depth or depth == 1:
                    yield ['hist', s, w]
    for w in spaces.patterns(KINDS, 2 if q else 3):
        for s in range(len(MV_STARTS)):
            yield ['walk', s, w]
    for lo in range(-1, 4):
        for hi in range(lo, lo + 5):
            yield ['ordinal', lo, hi]
    for n in range(4 if q else 5):
        for v in itertools.product(range(len(NOMINAL)), repeat=n):
            if n < 4 or v[0] <= v[1] <= v[2]:
                yield ['nominal', list(v)]
    for kind, vals, conds in ((0, NUMBERS, NUMBER_CONDS),
                              (1, TEXTS, TEXT_CONDS)):
        for n in range(4 if q else 5):
            for v in itertools.product(range(len(vals)), repeat=n):
                for c in itertools.product(range(4), repeat=2):
                    if n < 3 or c[0] <= c[1]:
                        yield ['scale', kind, list(v), list(c)]
    for v in itertools.product(range(4), repeat=4):
        yield ['two', list(v)]


def check(st, mv, t, what):
    st.eq(what + ': objects', list(mv.objects), t.o)
    st.eq(what + ': attributes', list(mv.attributes), t.a)
    got = [list(r) for r in mv.table]
    st.eq(what + ': values', got, t.rows)
    st.eq(what + ': types of the values', [[type(v) for v in r] for r in got],
          [[type(v) for v in r] for r in t.rows])
    st.eq(what + ': rows', [list(r) for r in mv], t.rows)
    st.eq(what + ': len', len(mv), len(t.o))
    if t.o and t.a:
        want = '\n'.join([', '.join(map(str, t.a))] +
                         ['\t'.join(map(str, [o] + r))
                          for o, r in zip(t.o, t.rows)])
        st.eq(what + ': text', repr(mv).rstrip('\n'), want.rstrip('\n'))
    for i, o in enumerate(t.o):
        for j, a in enumerate(t.a):
            st.eq(what + ': value', mv.get_value(o, a), t.rows[i][j])


def run(case, st):
    {'table': table, 'big': big, 'hist': history, 'ordinal': ordinal,
     'nominal': nominal,
     'scale': scale, 'two': two, 'walk': walk}[case[0]](case, st)


def extractions(st, mv, t):
    k = len(t.a)
    for r in range(k + 1):
        for js in itertools.permutations(range(k), r):
            if r > 2 and js[0] > js[-1]:
                continue
            sub = mv.extract_subcontext([t.a[j] for j in js])
            check(st, sub, Table(t.o, [t.a[j] for j in js],
                                 [[row[j] for j in js] for row in t.rows]),
                  'columns %s' % (js,))
            st.true('type', type(sub) is ManyValuedContext)
    for m in range(1 << len(t.o)):
        sub = mv.extract_subcontext_by_condition(lambda i: m >> i & 1)
        keep = [i for i in range(len(t.o)) if m >> i & 1]
        check(st, sub, Table([t.o[i] for i in keep], t.a,
                             [t.rows[i] for i in keep]), 'rows %s' % m)
    for j in range(k):
        for v in VALUES:
            sub = mv.extract_subcontext_by_attribute_values({t.a[j]: v})
            keep = [i for i, r in enumerate(t.rows) if r[j] == v]
            check(st, sub, Table([t.o[i] for i in keep], t.a,
                                 [t.rows[i] for i in keep]),
                  'rows with %s = %r' % (t.a[j], v))
    if k > 1 and t.rows:
        want = {t.a[0]: t.rows[0][0], t.a[-1]: t.rows[-1][-1]}
        sub = mv.extract_subcontext_by_attribute_values(want)
        keep = [i for i, r in enumerate(t.rows)
                if r[0] == t.rows[0][0] and r[-1] == t.rows[-1][-1]]
        check(st, sub, Table([t.o[i] for i in keep], t.a,
                             [t.rows[i] for i in keep]), 'rows with %r' % want)
    for fn in (lambda: mv.extract_subcontext(['unknown']),
               lambda: mv.extract_subcontext_by_attribute_values(
                   {'unknown': 1})):
        st.raises('an unknown attribute', ValueError, fn)
    check(st, mv, t, 'after extractions')


def table(case, st):
    _, n, k, vals = case
    t = Table(['o%d' % i for i in range(n)], ['a%d' % j for j in range(k)],
              [[VALUES[vals[i * k + j]] for j in range(k)]
               for i in range(n)])
    st.state((n, k, tuple(vals)))
    given = t.copy()
    mv = ManyValuedContext(given.rows, given.o, given.a)
    check(st, mv, t, 'table')
    given.o.append('x')
    given.a.append('x')
    for r in given.rows:
        r.append('x')
    check(st, mv, t, 'after the lists were changed')
    extractions(st, mv, t)
    mv2 = ManyValuedContext(tuple(tuple(r) for r in t.rows), t.o[:], t.a[:])
    check(st, mv2, t, 'made of tuples')
    for o, a, rows in ((t.o + ['x'], t.a, t.rows), (t.o, t.a + ['x'], t.rows)):
        if n or o != t.o:
            st.raises('wrong sizes', ValueError, ManyValuedContext,
                      [list(r) for r in rows], list(o), list(a))
    st.outcome((n, k, repr(t.rows)))


def big(case, st):
    """tables of hundreds of rows or columns, and their scaling"""
    n, k = ((300, 3), (3, 300), (70, 70), (257, 1))[case[1]]
    st.state(case)
    t = Table(['o%d' % i for i in range(n)], ['a%d' % j for j in range(k)],
              [[(i * 7 + j * (i % 5)) % 300 - 20 for j in range(k)]
               for i in range(n)])
    mv = ManyValuedContext([list(r) for r in t.rows], list(t.o), list(t.a))
    check(st, mv, t, 'table')
    columns = [0, k // 2, k - 1]
    for j in columns:
        sub = mv.extract_subcontext([t.a[j], t.a[0]][:1 + (j > 0)])
        js = [j, 0][:1 + (j > 0)]
        check(st, sub, Table(t.o, [t.a[x] for x in js],
                             [[r[x] for x in js] for r in t.rows]), 'columns')
        v = t.rows[n // 2][j]
        sub = mv.extract_subcontext_by_attribute_values({t.a[j]: v})
        keep = [i for i, r in enumerate(t.rows) if r[j] == v]
        check(st, sub, Table([t.o[i] for i in keep], t.a,
                             [t.rows[i] for i in keep]), 'rows by value')
        sub = mv.extract_subcontext_by_condition(lambda i: i % 3 == j % 2)
        keep = [i for i in range(n) if i % 3 == j % 2]
        check(st, sub, Table([t.o[i] for i in keep], t.a,
                             [t.rows[i] for i in keep]), 'rows by condition')
    scales, attributes, cells = [], [], []
    for j in range(k):
        src = Context([[True, False, True], [False, True, True]],
                      ['value < %d' % (j % 7), 'value >= 128'],
                      ['p', 'q', 'r'])
        scales.append(Scale(src))
        attributes += ['a%d:%s' % (j, x) for x in 'pqr']
    for r in t.rows:
        row = []
        for j, v in enumerate(r):
            row += [v < j % 7, v >= 128, v < j % 7 or v >= 128]
        cells.append(row)
    derived(st, 'scaled', mv, scales, attributes, cells)
    last = [r[-1] % 30 for r in t.rows]
    one = column(last)
    sc = NominalScale('a', one)
    values = set(last)
    st.eq('values of the nominal scale', len(sc.attributes), len(values))
    c = scale_mvcontext(one, [sc])
    st.eq('one cross in each row', [sum(map(bool, r)) for r in c.table],
          [1] * n)
    groups = [tuple(map(bool, r)) for r in c.table]
    st.eq('rows agree as the values do',
          [groups.index(g) for g in groups],
          [last.index(v) for v in last])
    for op in (['delete_object', n // 2], ['delete_attribute', k // 2],
               ['add_object', 0, 0], ['add_attribute', 0, 3],
               ['rename_object', 0, 1], ['rename_attribute', 0, 1],
               ['delete_object', 0]):
        t = apply(st, mv, t, op)
        check(st, mv, t, 'after %s' % op)


def apply(st, mv, t, op):
    name = op[0]
    nxt = step(t, op)
    if name == 'add_object':
        given = list(nxt.rows[-1])
        mv.add_object(given, NEW_O[op[1]])
        given[:] = ['changed']
    elif name == 'add_attribute':
        given = [r[-1] for r in nxt.rows]
        mv.add_attribute(given, NEW_A[op[1]])
        given[:] = ['changed']
    elif name == 'delete_object':
        mv.delete_object(t.o[op[1]])
    elif name == 'delete_attribute':
        mv.delete_attribute(t.a[op[1]])
    elif name == 'delete_attributes':
        mv.delete_attributes([x for j, x in enumerate(t.a)
                              if op[1] >> j & 1])
    elif name == 'rename_object':
        mv.rename_object(t.o[op[1]], NEW_O[op[2]])
    elif name == 'rename_attribute':
        mv.rename_attribute(t.a[op[1]], NEW_A[op[2]])
    elif name == 'bad':
        fn = {
            'add_object': lambda: mv.add_object([1] * (len(t.a) + 1), 'x'),
            'add_attribute': lambda: mv.add_attribute(
                [1] * (len(t.o) + 1), 'x'),
            'delete_object': lambda: mv.delete_object('unknown'),
            'delete_attribute': lambda: mv.delete_attribute('unknown'),
            'rename_object': lambda: mv.rename_object('unknown', 'x'),
            'rename_attribute': lambda: mv.rename_attribute('unknown', 'x'),
        }[op[1]]
        st.raises('refused: %s' % op, Exception, fn)
    return nxt


def history(case, st):
    _, s, word = case
    t = Table(*MV_STARTS[s])
    mv = ManyValuedContext([list(r) for r in t.rows], list(t.o), list(t.a))
    check(st, mv, t, 'at the start')
    extractions(st, mv, t)
    for op in word:
        before = copy.deepcopy(mv)
        st.true('type of the copy', type(before) is ManyValuedContext)
        nxt = apply(st, mv, t, op)
        check(st, mv, nxt, 'after %s' % op)
        check(st, before, t, 'the copy made before %s' % op)
        t = nxt
    st.state((tuple(t.o), tuple(t.a), repr(t.rows)))
    st.outcome((len(t.o), len(t.a), repr(t.rows)))
    extractions(st, mv, t)


def walk(case, st):
    """a short pattern of edits over and over again"""
    _, s, pattern = case
    t = Table(*MV_STARTS[s])
    mv = ManyValuedContext([list(r) for r in t.rows], list(t.o), list(t.a))
    for i in range(10):
        move = spaces.pick(((op, (), op) for op in ops(t, len(NEW_O))),
                           pattern[i % len(pattern)], i)
        if move:
            t = apply(st, mv, t, move[0])
            check(st, mv, t, 'after step %d %s' % (i, move[0]))
    st.state((tuple(t.o), tuple(t.a), repr(t.rows)))
    if len(t.o) < 5 and len(t.a) < 4:
        extractions(st, mv, t)


def column(values, name='a'):
    return ManyValuedContext([[v] for v in values],
                             ['o%d' % i for i in range(len(values))], [name])


def derived(st, what, mv, scales, attributes, crosses):
    """attributes and crosses[object][attribute] expected"""
    frozen = [Frozen(s) for s in scales]
    before = [list(r) for r in mv.table]
    c = scale_mvcontext(mv, scales)
    st.true(what + ': type', type(c) is Context)
    st.eq(what + ': objects', list(c.objects), list(mv.objects))
    st.eq(what + ': attributes', list(c.attributes), attributes)
    st.eq(what + ': crosses', [[bool(x) for x in r] for r in c.table],
          crosses)
    for f in frozen:
        f.check(st, 'scaling (scale)')
    st.eq(what + ': values of the many-valued context',
          [list(r) for r in mv.table], before)
    return c


def scale(case, st):
    _, kind, vals, conds = case
    values = [(NUMBERS, TEXTS)[kind][i] for i in vals]
    rows = [(NUMBER_CONDS, TEXT_CONDS)[kind][i] for i in conds]
    st.state((kind, tuple(vals), tuple(conds)))
    met = [[bool(eval(c, {'value': read(v)})) for c in rows] for v in values]
    names = rows if rows[0] != rows[1] else [rows[0], '(%s)' % rows[1]]
    for crosses in range(16):
        tab = [[bool(crosses >> 2 * i + j & 1) for j in range(2)]
               for i in range(2)]
        src = Context(tab, list(names), ['p', 7])
        sc = Scale(src)
        check_relation(st, sc, Ref(names, ['p', 7], [crosses & 3,
                                                     crosses >> 2]), 'scale')
        src.set_object_intent(set(), names[0])
        want = [[any(m and tab[i][j] for i, m in enumerate(ms))
                 for j in range(2)] for ms in met]
        derived(st, 'scaled', column(values), [sc], ['a:p', 'a:7'], want)
        st.outcome((tuple(map(tuple, want))))
    if conds[0] == conds[1]:
        # degenerate scales
        derived(st, 'no scale attributes', column(values),
                [Scale(Context([[], []], list(names), []))], [],
                [[] for _ in values])
        derived(st, 'no scale objects', column(values, 3),
                [Scale(Context([], [], ['p']))], ['3:p'],
                [[False] for _ in values])
        one = [[True]]
        derived(st, 'one row', column(values),
                [Scale(Context(one, [rows[0]], ['p']))], ['a:p'],
                [[m[0]] for m in met])


def two(case, st):
    _, v = case
    left = [NUMBERS[v[0]], NUMBERS[v[1]]]
    right = [TEXTS[v[2]], TEXTS[v[3]]]
    st.state(('two', tuple(v)))
    s1 = Scale(Context([[True, False], [True, True]], NUMBER_CONDS[:2],
                       ['q', 'p']))
    s2 = Scale(Context([[True], [False], [True]],
                       [TEXT_CONDS[0], TEXT_CONDS[1], TEXT_CONDS[3]], ['p']))
    met = [[eval(c, {'value': read(x)}) for c in NUMBER_CONDS[:2]]
           for x in left]
    one = [[m[0] or m[1], m[1]] for m in met]
    other = [[x in ('a', None)] for x in right]
    for names in (['b', 'a'], [1, 0], ['a', 'é:x']):
        mv = ManyValuedContext([[x, y] for x, y in zip(left, right)],
                               ['o', 'n'], list(names))
        derived(st, 'two columns', mv, [s1, s2],
                ['%s:q' % names[0], '%s:p' % names[0], '%s:p' % names[1]],
                [x + y for x, y in zip(one, other)])
        mv = ManyValuedContext([[y, x] for x, y in zip(left, right)],
                               ['o', 'n'], list(names))
        derived(st, 'the other way', mv, [s2, s1],
                ['%s:p' % names[0], '%s:q' % names[1], '%s:p' % names[1]],
                [y + x for x, y in zip(one, other)])
        mv = ManyValuedContext([[x, y] for x, y in zip(left, left[::-1])],
                               ['o', 'n'], list(names))
        derived(st, 'one scale twice', mv, [s1, s1],
                ['%s:%s' % (a, b) for a in names for b in 'qp'],
                [x + y for x, y in zip(one, one[::-1])])


def nominal(case, st):
    _, vals = case
    values = [NOMINAL[i] for i in vals]
    keys = [read(v) for v in values]
    st.state(('nominal', tuple(vals)))
    mv = ManyValuedContext([['first', v] for v in values],
                           ['o%d' % i for i in range(len(values))],
                           ['other', 'a'])
    for which in ('a', 1):
        sc = NominalScale(which, mv)
        st.true('a scale', isinstance(sc, Scale))
        c = scale_mvcontext(mv, [Scale(Context([], [], [])), sc])
        st.eq('objects', list(c.objects), list(mv.objects))
        cols = [tuple(bool(r[j]) for r in c.table)
                for j in range(len(c.attributes))]
        want = {tuple(x == key for x in keys) for key in keys}
        st.eq('columns of the values', sorted(cols), sorted(want))
        st.true('distinct names', len(set(c.attributes)) == len(cols)
                and all(str(a).startswith('a:') for a in c.attributes),
                list(c.attributes))
        st.eq('one row for each value', len(sc.objects), len(set(keys)))
        st.outcome(tuple(sorted(cols)))
    st.eq('values after scaling', [r[1] for r in mv.table], values)


def ordinal(case, st):
    _, lo, hi = case
    ints = list(range(lo, hi + 1))
    st.state((lo, hi))
    for mode, args in (('leq', ()), ('leq', ('leq',)), ('geq', ('geq',))):
        sc = OrdinalScale(lo, hi, *args)
        st.true('a scale', isinstance(sc, Scale))
        bounds = ints[:-1] if mode == 'leq' else ints[1:]
        op = '<= %s' if mode == 'leq' else '>= %s'
        for values in (ints, [str(v) for v in ints],
                       [float(v) for v in reversed(ints)]):
            want = [[float(v) <= b if mode == 'leq' else float(v) >= b
                     for b in bounds] for v in values]
            derived(st, 'ordinal', column(values), [sc],
                    ['a:' + op % b for b in bounds], want)
            st.outcome((mode, tuple(map(tuple, want))))
