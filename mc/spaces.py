"""Bounded spaces of contexts and the ways to reach them through the API.

A case is ['ctx', way, scheme, k, rows]: rows are bit masks over k attributes.
"""
import copy
import itertools

from .ref import Ref

# ------------------------------------------------------------------ names

WEIRD_O = ['', ' ', 'a, b', 'x => y', 'é', '0', 'None', "it's", 'G', 'o\t9']
WEIRD_A = ['not a', '', 'é', 'a, b', '1', ' ', 'X', 'M', '"q"', 'n\\m']


def names(scheme, n, k):
    if scheme == 'str':
        return (['o%d' % i for i in range(1, n + 1)],
                ['m%02d' % j for j in range(k)])
    if scheme == 'rev':             # the column order is not the sort order
        return (['o%02d' % (n - i) for i in range(n)],
                ['m%02d' % (k - j) for j in range(k)])
    if scheme == 'rot':
        return (['o%02d' % ((i * 2 + 1) % (n + 1 + n % 2)) for i in range(n)],
                ['m%02d' % ((j + 1) % k) for j in range(k)])
    if scheme == 'int':             # objects and attributes share names
        return list(range(n)), list(range(k))
    if scheme == 'intrev':
        return list(range(n))[::-1], list(range(k))[::-1]
    if scheme == 'shared':
        return ['x%02d' % i for i in range(n)], ['x%02d' % j for j in range(k)]
    if scheme == 'tuple':
        return ([('o', i) for i in range(n)], [(j, 'm') for j in range(k)])
    if scheme == 'weird':
        return ((WEIRD_O + ['w%d' % i for i in range(n)])[:n],
                (WEIRD_A + ['v%d' % j for j in range(k)])[:k])
    if scheme == 'mixed':           # do not sort against each other
        o = [0, 'o', ('t', 1), None, 2.5, frozenset([1])]
        a = ['m', 7, None, ('t',), -1.5, frozenset()]
        return ((o + list(range(100, 100 + n)))[:n],
                (a + list(range(100, 100 + k)))[:k])
    for kind, o, a in (
            # equal in print, different, and the other way round
            ('twins', ['1', 1, 'None', None, ('a',), "('a',)"],
             [2, '2', '(2,)', (2,), None, 'None']),
            ('like', ['a', 'A', 'aa', 'a ', 'a_1', 'a\u0300', '\u00e0'],
             ['b', 'B', ' b', 'bb', 'b_0', 'b_1', '\u00e7', 'c\u0327']),
            ('falsy', [0, '', None, (), frozenset()],
             [None, '', False, frozenset(), ()])):
        if scheme == kind:
            return ((o + ['z%02d' % i for i in range(n)])[:n],
                    (a + ['y%02d' % j for j in range(k)])[:k])
    raise KeyError(scheme)


SCHEMES = ['str', 'rev', 'rot', 'int', 'intrev', 'shared', 'tuple', 'weird',
           'mixed', 'twins', 'like', 'falsy']


def ref_of(scheme, k, rows):
    o, a = names(scheme, len(rows), k)
    return Ref(o, a, rows)


# ------------------------------------------------------------------ tables

def all_rows(n, k):
    """every n-tuple of rows, simplest first by weight order of the rows"""
    return itertools.product(range(1 << k), repeat=n)


def multisets(n, k):
    return itertools.combinations_with_replacement(range(1 << k), n)


def rowsets(n, k):
    return itertools.combinations(range(1 << k), n)


def full(n, k):
    return (1 << k) - 1


def families(size):
    """structured larger contexts: (label, k, rows)"""
    out = []

    def add(label, k, rows):
        out.append((label, k, list(rows)))
    for n in range(3, size['contra'] + 1):
        m = (1 << n) - 1
        add('contranominal', n, [m ^ 1 << i for i in range(n)])
        add('contranominal+full', n, [m ^ 1 << i for i in range(n)] + [m])
    for n in (4, 7, 12, size['chain']):
        add('chain', n, [(1 << i) - 1 for i in range(n + 1)])
        add('chain reversed', n, [(1 << i) - 1 for i in range(n, -1, -1)])
        add('nominal', n, [1 << i for i in range(n)])
        add('nominal+empty', n, [0] + [1 << i for i in range(n)])
    for k in (3, size['allrows']):
        add('all rows', k, range(1 << k))
        add('all rows twice', k, list(range(1 << k)) * 2)
    base = [0b101, 0b011, 0b110, 0b010, 0b101, 0b111]
    for w in size['pads']:
        hi = ((1 << w) - 1) ^ ((1 << w - 3) - 1)
        sh = w - 3
        add('padded left with full columns', w,
            [(r << sh) | ((1 << sh) - 1) for r in base])
        add('padded left with empty columns', w, [r << sh for r in base])
        add('padded right with full columns', w, [r | hi ^ (hi & 7) for r in
                                                 base])
        add('padded right with empty columns', w, base)
        if w <= 20:
            add('interleaved', w, [sum(((r >> (j % 3)) & 1) << j
                                       for j in range(w)) for r in base])
    for n in size['tall']:
        add('tall cyclic', 3, [(i % 8) for i in range(n)])
        add('tall full', 3, [7] * n)
        add('tall nearly full', 3, [7] * (n - 1) + [5])
        add('tall late counterexample', 4, [15] * (n - 1) + [0b0110])
    for n in size.get('huge', ()):      # counters of one byte wrap
        add('huge nearly full', 2, [3] * (n - 1) + [1])
        add('huge alternating', 2, [1, 3, 2] * (n // 3))
        add('huge wide', n, [(1 << n) - 1, (1 << n) - 2])
    seen, res = set(), []
    for label, k, rows in out:
        key = (k, tuple(rows))
        if key not in seen:
            seen.add(key)
            res.append((label, k, rows))
    return res


def big(drop='', transpose=False):
    """contexts beyond the width of machine words and bytes, with lattices and
    bases that stay manageable; drop names those too costly for somebody"""
    def row(k, js):
        return sum(1 << j % k for j in set(js))
    out = {'chain': (70, [(1 << i) - 1 for i in range(71)]),
           'long': (130, [(1 << i) - 1 for i in range(131)]),
           'contra': (7, [127 ^ 1 << i for i in range(7)]),
           'nominal': (66, [1 << i for i in range(66)]),
           'wide': (260, [(1 << 260) - 1, (1 << 260) - 2, (1 << 259) - 1]),
           'tall': (3, [i % 8 for i in range(300)]),
           'full': (2, [3] * 299 + [1]),
           'classes': (67, [row(67, range(i % 2, 67, 2)) for i in range(67)]),
           'thousand': (3, [i % 8 & (i * i >> 3) % 8 for i in range(1200)]),
           'broad': (1100, [(1 << 1100) - 1, sum(1 << 2 * j
                                                 for j in range(550)), 2]),
           'every': (6, [i * 37 % 64 for i in range(64)]),
           'sparse': (68, [row(68, (i, i + 1)) for i in range(12)])}
    for name, (k, rows) in out.items():
        if name not in drop.split():
            if transpose:
                k, rows = len(rows), [
                    sum((r >> j & 1) << i for i, r in enumerate(rows))
                    for j in range(k)]
            yield k, rows


def lists():
    """contexts whose bases are long: singletons, some pairs of them
    and one more attribute, in every place that matters"""
    n = 24
    singles = [1 << i for i in range(n)]
    pairs = [3, 3 << n // 2, 3 << n - 2, 5 << n - 3]
    for col in (0, (1 << n) - 1, (1 << n) - 2, (1 << n + 3) - 1,
                (1 << n + 5) - 2):
        rows = [0] + singles + pairs
        for place in (0, n // 2, n):
            low = (1 << place) - 1
            yield n + 1, [(r & low) | (r & ~low) << 1 | (col >> i & 1) << place
                          for i, r in enumerate(rows)]


def chain(n):
    return n, [(1 << i) - 1 for i in range(n + 1)]


def universes():
    """of larger explorations"""
    wide = dict((len(r), (k, r)) for k, r in big('broad'))
    yield 14, [(1 << i) - 1 for i in range(15)]
    yield 12, [(1 << 12) - 1 ^ 3 << i for i in range(11)]
    yield wide[3]
    yield wide[67]
    yield 66, [3 << 5 * i for i in range(5)] + [(1 << 66) - 1]
    yield 3, [i % 7 for i in range(140)]
    yield 5, [31 ^ 1 << i for i in range(5)]
    yield 8, [1 << i for i in range(8)]


SMALL = dict(contra=4, chain=9, allrows=4, pads=(8, 9), tall=(9, 17))
MEDIUM = dict(contra=5, chain=17, allrows=4, pads=(8, 9, 16, 17, 32, 33),
              tall=(9, 17, 33, 65))
LARGE = dict(contra=6, chain=20, allrows=4,
             pads=(8, 9, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66),
             tall=(9, 17, 33, 65, 70, 130))

# ------------------------------------------------------------------ ways


def make(ref):
    from fca import Context
    return Context(ref.table(), list(ref.objects), list(ref.attributes))


def _w_list(ref, probe):
    c = make(ref)
    probe(c, ref)
    return c


def _w_numpy(ref, probe):
    import numpy as np
    from fca import Context
    t = np.array(ref.table(), dtype=bool).reshape(ref.n, ref.k)
    c = Context(t, list(ref.objects), list(ref.attributes))
    probe(c, ref)
    # the table handed in stays the caller's
    t[:] = ~t
    probe(c, ref)
    return c


def _w_int(ref, probe):
    from fca import Context
    t = [tuple(int(x) for x in r) for r in ref.table()]
    c = Context(t, list(ref.objects), list(ref.attributes))
    probe(c, ref)
    return c


def _empty(ref):
    from fca import Context
    return Context([], [], list(ref.attributes))


def _w_rows(ref, probe):
    c = _empty(ref)
    probe(c, Ref([], ref.attributes, []))
    for i in range(ref.n):
        c.add_object(ref.table()[i], ref.objects[i])
        probe(c, Ref(ref.objects[:i + 1], ref.attributes, ref.rows[:i + 1]))
    return c


def _w_rows_intent(ref, probe):
    c = _empty(ref)
    for i in range(ref.n):
        c.add_object_with_intent(ref.anames(ref.rows[i]), ref.objects[i])
        probe(c, Ref(ref.objects[:i + 1], ref.attributes, ref.rows[:i + 1]))
    return c


def _sub(ref, k):
    return Ref(ref.objects, ref.attributes[:k],
               [r & ((1 << k) - 1) for r in ref.rows])


def _w_cols(ref, probe):
    from fca import Context
    c = Context([[] for _ in ref.objects], list(ref.objects), [])
    probe(c, _sub(ref, 0))
    for j in range(ref.k):
        c.add_attribute([bool(r >> j & 1) for r in ref.rows],
                        ref.attributes[j])
        probe(c, _sub(ref, j + 1))
    return c


def _w_cols_extent(ref, probe):
    from fca import Context
    c = Context([[] for _ in ref.objects], list(ref.objects), [])
    for j in range(ref.k):
        c.add_attribute_with_extent(ref.onames(ref.extent(1 << j)),
                                    ref.attributes[j])
        probe(c, _sub(ref, j + 1))
    return c


EXTRA_O, EXTRA_A, EXTRA_A2 = 'extra object', 'extra attribute', 'another one'


def _w_delete_row(ref, probe):
    c = None
    for pos in range(ref.n + 1):
        for fill in (0, ref.all_atts):
            big = Ref(ref.objects[:pos] + [EXTRA_O] + ref.objects[pos:],
                      ref.attributes,
                      ref.rows[:pos] + [fill] + ref.rows[pos:])
            c = make(big)
            probe(c, big)
            c.delete_object(EXTRA_O)
            probe(c, ref)
    return c


def _ins(mask, pos, bit):
    low = mask & ((1 << pos) - 1)
    return low | (bit << pos) | (mask >> pos) << (pos + 1)


def _w_delete_col(ref, probe):
    c = None
    for pos in range(ref.k + 1):
        for bit in (0, 1):
            big = Ref(ref.objects,
                      ref.attributes[:pos] + [EXTRA_A] + ref.attributes[pos:],
                      [_ins(r, pos, bit) for r in ref.rows])
            c = make(big)
            probe(c, big)
            c.delete_attribute(EXTRA_A)
            probe(c, ref)
    return c


def _w_delete_cols(ref, probe):
    c = None
    for pos in range(ref.k + 1):
        mid = Ref(ref.objects,
                  ref.attributes[:pos] + [EXTRA_A] + ref.attributes[pos:],
                  [_ins(r, pos, 1) for r in ref.rows])
        for p2 in range(mid.k + 1):
            big = Ref(mid.objects, mid.attributes[:p2] + [EXTRA_A2]
                      + mid.attributes[p2:],
                      [_ins(r, p2, i & 1) for i, r in enumerate(mid.rows)])
            c = make(big)
            probe(c, big)
            c.delete_attributes([EXTRA_A2, EXTRA_A])
            probe(c, ref)
    return c


def _complement(ref):
    return Ref(ref.objects, ref.attributes,
               [r ^ ref.all_atts for r in ref.rows])


def _w_set_rows(ref, probe):
    cur = _complement(ref)
    c = make(cur)
    probe(c, cur)
    for i in range(ref.n):
        c.set_object_intent(ref.anames(ref.rows[i]), ref.objects[i])
        cur = Ref(cur.objects, cur.attributes,
                  cur.rows[:i] + [ref.rows[i]] + cur.rows[i + 1:])
        probe(c, cur)
    return c


def _w_set_cols(ref, probe):
    cur = _complement(ref)
    c = make(cur)
    probe(c, cur)
    for j in range(ref.k):
        c.set_attribute_extent(ref.onames(ref.extent(1 << j)),
                               ref.attributes[j])
        b = 1 << j
        cur = Ref(cur.objects, cur.attributes,
                  [(x & ~b) | (y & b) for x, y in zip(cur.rows, ref.rows)])
        probe(c, cur)
    return c


def _w_rename(ref, probe):
    cur = Ref([('old', i) for i in range(ref.n)],
              [('old', j) for j in range(ref.k)], ref.rows)
    c = make(cur)
    for i in range(ref.n):
        c.rename_object(('old', i), ref.objects[i])
        cur.objects[i] = ref.objects[i]
    probe(c, cur.copy())
    for j in range(ref.k):
        c.rename_attribute(('old', j), ref.attributes[j])
        cur.attributes[j] = ref.attributes[j]
        probe(c, cur.copy())
    return c


def _w_deepcopy(ref, probe):
    c = make(ref)
    probe(c, ref)
    d = copy.deepcopy(c)
    probe(d, ref)
    # the original goes its own way
    if ref.n:
        c.set_object_intent(ref.anames(ref.rows[0] ^ ref.all_atts),
                            ref.objects[0])
    if ref.k:
        c.delete_attribute(ref.attributes[0])
    probe(d, ref)
    return d


def _w_derived(ref, probe):
    c = make(ref).transpose()
    probe(c, ref.transpose())
    d = c.transpose()
    probe(d, ref)
    e = d.extract_subcontext(list(ref.attributes))
    probe(e, ref)
    return e


WAYS = {
    'list': _w_list, 'numpy': _w_numpy, 'int': _w_int, 'rows': _w_rows,
    'rows_intent': _w_rows_intent, 'cols': _w_cols,
    'cols_extent': _w_cols_extent, 'delete_row': _w_delete_row,
    'delete_col': _w_delete_col, 'delete_cols': _w_delete_cols,
    'set_rows': _w_set_rows, 'set_cols': _w_set_cols, 'rename': _w_rename,
    'deepcopy': _w_deepcopy, 'derived': _w_derived,
}


def run_way(case, st, probe):
    """case = ['ctx', way, scheme, k, rows]; probe(cxt, ref) compares"""
    _, way, scheme, k, rows = case[:5]
    ref = ref_of(scheme, k, list(rows))

    def p(cxt, r):
        st.state(r.key())
        probe(cxt, r)
    WAYS[way](ref, p)


def cases(full=(), multi=(), ways=(), schemes=(), fam=None, perms=(),
          scheme_list=SCHEMES, minrow=0, mincol=0, fam_schemes=('str',),
          large=(), sets=()):
    """The standard enumeration of context cases.

    full/multi: [(n, k)] all row tuples / all row multisets in two orders
    sets: [(n, k)] all sets of n distinct rows, alternating two orders;
    ways, schemes: [(n, k)] all multisets reached in every way / named in
    every scheme."""
    for n, k in sorted(full, key=lambda x: (x[0] * x[1], x)):
        for rows in all_rows(n, k):
            yield ['ctx', 'list', 'str', k, list(rows)]
    for n, k in ways:
        for way in WAYS:
            if way == 'list':
                continue
            for rows in multisets(n, k):
                yield ['ctx', way, 'str', k, list(rows)]
                if len(set(rows)) > 1 and rows != rows[::-1]:
                    yield ['ctx', way, 'intrev', k, list(rows[::-1])]
    for n, k in schemes:
        for s in scheme_list:
            if s == 'str':
                continue
            for rows in multisets(n, k):
                yield ['ctx', 'list', s, k, list(rows)]
    for n, k in multi:
        for rows in multisets(n, k):
            yield ['ctx', 'list', 'str', k, list(rows)]
            if rows != rows[::-1]:
                yield ['ctx', 'list', 'rev', k, list(rows[::-1])]
    if fam:
        for label, k, rows in families(fam):
            for s in fam_schemes:
                yield ['ctx', 'list', s, k, rows]
    for n, k in sets:
        for i, rows in enumerate(rowsets(n, k)):
            yield ['ctx', 'list', ('str', 'rev')[i % 2], k,
                   list(rows)[::(1, -1)[i // 2 % 2]]]
    for i, (k, rows) in enumerate(large):
        yield ['ctx', 'list', ('str', 'intrev')[i % 2], k, rows]


def pick(moves, kind, t):
    """one move of a kind, another one at every step t; None if there is none"""
    todo = [m for m in moves if m[2] is not None and m[0][:len(kind)] == kind]
    return todo[(t * 7 + 3) % len(todo)] if todo else None


def patterns(kinds, length):
    """all words of at most that many kinds"""
    for r in range(1, length + 1):
        yield from ([list(x) for x in w]
                    for w in itertools.product(kinds, repeat=r))
