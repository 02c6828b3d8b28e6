"""The product of contexts is the Boolean relation product."""
import itertools

from fca import Context
from fca.context import MultiplicationException

from mc import spaces
from mc.ref import Ref, bits
from mc.util import Frozen
from props import c11

ID = 'C16'
BOUNDS = {
    'quick': 'every pair of contexts with up to 2 objects, 3 middle elements '
             'and 2 attributes and every pair of 3x2 with 2x3 row multisets; '
             'middle sets of 127 to 260 and 511 to 513, 65536 elements with '
             'one, all but one and all of them connecting; every pair of '
             'middle name lists over a small alphabet; every way of '
             'construction and editing up to 2x2, multiplied in between; '
             'contexts of up to 1100 attributes or 1200 objects',
    'thorough': 'every pair of 3x3 contexts up to order of rows',
}
MID = ['a', 'b', 1, '1', None]


def cases(tier):
    for n, m, k in itertools.product(range(3), range(4), range(3)):
        for a in spaces.multisets(n, m):
            for b in spaces.all_rows(m, k):
                yield ['mul', 'str', m, list(a), k, list(b)]
    for a in spaces.multisets(3, 2):
        for b in spaces.all_rows(2, 3):
            yield ['mul', 'int', 2, list(a), 3, list(b)]
            yield ['mul', 'mixed', 2, list(a)[::-1], 3, list(b)]
    for way in spaces.WAYS:
        for n, k in ((2, 2), (1, 2), (2, 1)):
            for rows in spaces.multisets(n, k):
                yield ['way', way, 'str', k, list(rows)[::-1]]
    for m in list(range(1, 5)) + [127, 128, 129, 255, 256, 257, 258, 260,
                                  511, 512, 513, 65536]:
        yield ['wide', m]
    for k, rows in spaces.big():
        yield ['large', k, rows]
    for n in range(1, 3):
        for x in itertools.permutations(range(len(MID)), n):
            for y in itertools.permutations(range(len(MID)), n):
                yield ['mid', list(x), list(y)]
    for x in range(4):
        for y in range(4):
            yield ['size', x, y]
    if tier == 'thorough':
        for a in spaces.multisets(3, 3):
            for b in spaces.all_rows(3, 3):
                yield ['mul', 'str', 3, list(a), 3, list(b)]


def product(ra, rb):
    rows = []
    for r in ra.rows:
        x = 0
        for j in bits(r):
            x |= rb.rows[j]
        rows.append(x)
    return Ref(ra.objects, rb.attributes, rows)


def names(scheme, n, m, k):
    o, a = spaces.names(scheme, n, m)
    _, a2 = spaces.names(scheme, m, k)
    return o, a, a2


def edited(c, ref, st):
    """a context as it is now, as both factors"""
    frozen = Frozen(c)
    for other in ((1, 2), (3, 0), (2, 3)):
        rows = [other[j % 2] for j in range(ref.k)]
        rb = Ref(ref.attributes, ['p', 'q'], rows)
        c11.verify(st, c * spaces.make(rb), product(ref, rb), False)
        every = (1 << ref.n) - 1
        ra = Ref(['x', 'y'], ref.objects, [every & r for r in other])
        c11.verify(st, spaces.make(ra) * c, product(ra, ref), False)
    turned = c.transpose()
    c11.verify(st, c * turned, product(ref, ref.transpose()), False)
    c11.verify(st, turned * c, product(ref.transpose(), ref), False)
    frozen.check(st, 'multiplying')


def run(case, st):
    kind = case[0]
    if kind == 'way':
        spaces.run_way(case, st, lambda c, r: edited(c, r, st))
        return
    if kind == 'mul':
        _, scheme, m, a, k, b = case
        o, mid, at = names(scheme, len(a), m, k)
        ra, rb = Ref(o, mid, a), Ref(mid, at, b)
        left, right = spaces.make(ra), spaces.make(rb)
        fl, fr = Frozen(left), Frozen(right)
        want = product(ra, rb)
        st.outcome(want.key())
        for _ in (1, 2):
            p = left * right
            st.true('class of the product', type(p) is Context)
            c11.verify(st, p, want, False)
        fl.check(st, 'multiplying (left)')
        fr.check(st, 'multiplying (right)')
    elif kind == 'large':
        _, k, rows = case
        ra = spaces.ref_of('str', k, rows)
        same = Ref(ra.attributes, ra.attributes, [1 << j for j in range(k)])
        for left, right in ((ra, same), (ra, ra.transpose()),
                            (ra.transpose(), ra)):
            fl, fr = spaces.make(left), spaces.make(right)
            want = product(left, right)
            p = fl * fr
            st.outcome(want.key())
            st.eq('objects', list(p.objects), want.objects)
            st.eq('attributes', list(p.attributes), want.attributes)
            st.true('product of larger contexts',
                    [[bool(v) for v in r] for r in p.table] == want.table())
    elif kind == 'wide':
        m = case[1]
        mid = list(range(m))
        every = (1 << m) - 1
        for a in (0, 1, 1 << m - 1, every, every ^ 1, every ^ 1 << m - 1):
            left = Ref(['x', 'y'], mid, [a, every])
            for b in ([1] * m, [2] * (m - 1) + [1], [3] + [0] * (m - 1),
                      [0] * m):
                right = Ref(mid, ['p', 'q'], b)
                p = spaces.make(left) * spaces.make(right)
                want = product(left, right)
                st.state((m, a & 3, a >> m - 1, b[0], b[-1]))
                st.outcome(want.key())
                st.eq('objects', p.objects, want.objects)
                st.eq('attributes', p.attributes, want.attributes)
                st.eq('product over %d middle elements' % m,
                      [[bool(v) for v in r] for r in p.table], want.table())
    elif kind == 'mid':
        x, y = ([MID[i] for i in z] for z in case[1:])
        left = Context([[True] * len(x)] * 2, ['o', 'p'], x)
        right = Context([[True]] * len(y), y, ['m'])
        st.state((x, y))
        if x == y:
            st.eq('product', [[bool(v) for v in r]
                              for r in (left * right).table], [[True]] * 2)
        else:
            fl, fr = Frozen(left), Frozen(right)
            st.raises('product over %r and %r' % (x, y),
                      MultiplicationException, lambda: left * right)
            fl.check(st, 'the refused product (left)')
            fr.check(st, 'the refused product (right)')
    else:
        x, y = case[1:]
        mid = list('abcd')
        left = Context([[True] * x], ['o'], mid[:x])
        right = Context([[True]] * y, mid[:y], ['m'])
        st.state((x, y))
        if x != y:
            st.raises('product over %d and %d middle elements' % (x, y),
                      MultiplicationException, lambda: left * right)
        else:
            st.eq('product', [[bool(v) for v in r]
                              for r in (left * right).table], [[x > 0]])
