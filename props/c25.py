"""Partial contexts: construction, completion, implications."""
import contextlib
import copy
import io
import itertools

from fca import Implication
from fca.compare_context import subseteq_table
from fca.partial_context import PartialContext

from mc import spaces
from mc.ref import Ref, bits, imp_closure, mask_of, respects
from mc.util import check_relation, imps_of, show_imps

ID = 'C25'
BOUNDS = {
    'quick': 'all pairs of tables up to 2x3 and 3x2 and of wrong sizes; all '
             'partial objects over up to three attributes with every list of '
             'up to two implications, over four with every single one, all '
             'pairs of objects with every single implication and every two '
             'with one attribute concluded over three attributes and every '
             'two over two, three objects over two; the implications of all '
             'partial contexts up to 3x3, with every confirmed unrefuted '
             'implication',
    'thorough': 'tables 3x3, three implications over two attributes, pairs '
                'of objects with every two implications over three attributes '
                'and every single one over four, implications of 4x2 and 2x4',
}


def partial_rows(k):
    return [(x, q) for q in range(1 << k) for x in range(1 << k)
            if x & ~q == 0]


def implications(k):
    return [(p, c) for p in range(1 << k) for c in range(1 << k)]


def objects(n, k):
    return itertools.combinations_with_replacement(partial_rows(k), n)


def cases(tier):
    q = tier == 'quick'
    yield ['sizes']
    for n, k in [(0, 0), (0, 2), (1, 0), (1, 1), (1, 2), (1, 3), (2, 1),
                 (2, 2), (3, 1), (3, 2), (2, 3)] + ([] if q else [(3, 3)]):
        for rows in spaces.all_rows(n, k):
            yield ['pairs', k, list(rows)]
    for b in range(len(BIG)):
        for i in range(4):
            yield ['big', b, i]
    for k in range(4):
        for n in range(4):
            if n * k <= 9:
                for rows in objects(n, k):
                    yield ['imps', 'str', k, list(rows)]
    if not q:
        for rows in objects(4, 2):
            yield ['imps', 'str', 2, list(rows)]
    for rows in objects(2, 2):
        for scheme in ('mixed', 'rev', 'twins'):
            yield ['imps', scheme, 2, list(rows)]
    for n in range(3):
        for rows in objects(n, 3):
            yield ['complete', 'str', 3, list(rows), 1]
    for n in range(4):
        for rows in objects(n, 2):
            yield ['complete', 'str', 2, list(rows), 2 if n < 3 or not q
                   else 1]
            if n < 2 or not q and n < 3:
                yield ['complete', 'mixed', 2, list(rows), 3]
    for rows in objects(1, 3):
        yield ['complete', 'rev', 3, list(rows), 2]
    for rows in objects(1, 4):
        yield ['complete', 'str', 4, list(rows), 1]
    for rows in objects(2, 3):
        yield ['complete', 'rev', 3, list(rows), -2]
    if not q:
        for rows in objects(2, 3):
            yield ['complete', 'str', 3, list(rows), 2]
        for rows in objects(2, 4):
            yield ['complete', 'str', 4, list(rows), 1]
        for rows in objects(2, 4):
            yield ['imps', 'str', 4, list(rows)]


BIG = list(spaces.big('long nominal broad'))


def table(rows, k):
    return [[bool(r >> j & 1) for j in range(k)] for r in rows]


def make(scheme, k, rows):
    ref = spaces.ref_of(scheme, k, [0] * len(rows))
    o, a = list(ref.objects), list(ref.attributes)
    return ref, PartialContext(table([x for x, q in rows], k),
                               table([q for x, q in rows], k), o, a)


def check(st, pc, ref, rows, what):
    st.eq(what + ': objects', list(pc.objects), ref.objects)
    st.eq(what + ': attributes', list(pc.attributes), ref.attributes)
    for side, name in ((0, 'certain'), (1, 'possible')):
        check_relation(st, (pc.x_context, pc.q_context)[side],
                       Ref(ref.objects, ref.attributes,
                           [r[side] for r in rows]), what + ', ' + name)
    if rows:
        st.eq(what + ': text', repr(pc).split('\n')[-len(rows):],
              [''.join('X' if x >> j & 1 else '?' if q >> j & 1 else '.'
                       for j in range(ref.k)) for x, q in rows])
    st.eq(what + ': intents', [(set(x), set(q)) for x, q in pc.intents()],
          [(ref.anames(x), ref.anames(q)) for x, q in rows])


def views(st, pc, ref, rows, what, implied=True):
    """everything that is computed from a partial context"""
    t = pc.transpose()
    turned = [ref.transpose()] + [
        Ref(ref.objects, ref.attributes, z).transpose().rows
        for z in ([x for x, q in rows], [q for x, q in rows])]
    check(st, t, turned[0], list(zip(*turned[1:])), what + ', transposed')
    check(st, copy.deepcopy(pc), ref, rows, what + ', copied')
    for p in range(1 << ref.k):
        st.eq('%s: possible closure of %s' % (what, p),
              set(pc.xq_aclosure(ref.anames(p))), ref.anames(xq(rows, ref.k,
                                                                p)))
    if implied:
        judge(st, ref, rows, [], pc.get_attribute_implications(), what)


def xq(rows, k, p):
    r = (1 << k) - 1
    for x, q in rows:
        if p & x == p:
            r &= q
    return r


def run(case, st):
    {'sizes': sizes, 'pairs': pairs, 'imps': imps, 'big': big,
     'complete': complete}[case[0]](case, st)


def big(case, st):
    """tables beyond the width of machine words"""
    _, b, i = case
    k, xs = BIG[b]
    m = (1 << k) - 1
    qs = [x | (x << 1 & m, m, x, x >> 1)[i] for x in xs]
    rows = list(zip(xs, qs))
    ref, pc = make('str', k, rows)
    st.state((k, tuple(rows)))
    check(st, pc, ref, rows, 'partial context')
    for bad in ((0, 0), (len(xs) - 1, k - 1), (len(xs) // 2, k // 2)):
        x2 = [x | (1 << bad[1] if r == bad[0] else 0)
              for r, x in enumerate(xs)]
        q2 = [q & ~(1 << bad[1]) if r == bad[0] else q
              for r, q in enumerate(qs)]
        st.raises('a certain cross that is not possible', ValueError,
                  PartialContext, table(x2, k), table(q2, k),
                  ref.objects, ref.attributes)
    t = pc.transpose()
    check(st, t, ref.transpose(),
          list(zip(*[Ref(ref.objects, ref.attributes, z).transpose().rows
                     for z in (xs, qs)])), 'transposed')
    for p in {0, 1, 1 << k - 1, m, m ^ 1, m ^ 1 << k // 2, xs[-1], qs[0]}:
        st.eq('possible closure of %s' % p,
              set(pc.xq_aclosure(ref.anames(p))),
              ref.anames(xq(rows, k, p)))
    if i == 2:
        full = Ref(ref.objects, ref.attributes, xs)
        got = imps_of(ref, pc.get_attribute_implications())
        st.eq('without questions: the canonical basis', sorted(got),
              sorted(full.pseudo_intents()))
        st.outcome(tuple(got))
    for conf in ([(1, 1 << k - 1)],
                 [(1 << j, 2 << j) for j in range(k - 1)],
                 [(1 << j, 2 << j) for j in range(k - 1)][::-1],
                 [(0, 1)], [(3, m)],
                 [(1 << k - 1, 1 << j) for j in range(k - 1)]):
        ref, pc = make('rev', k, rows)
        want = []
        for x, q in rows:
            nx = imp_closure(x, conf)
            if nx & ~q:
                want = None
                break
            want.append((nx, mask_of(
                a for a in bits(q)
                if not imp_closure(nx | 1 << a, conf) & ~q)))
        given = [Implication(ref.anames(p), ref.anames(c)) for p, c in conf]
        with contextlib.redirect_stdout(io.StringIO()):
            if want is None:
                st.raises('completing by %s' % (conf,), ValueError,
                          pc.complete, given)
                check(st, pc, ref, rows, 'after the completion failed')
            else:
                pc.complete(given)
                check(st, pc, ref, want, 'completed by %s' % (conf,))
    new = (xs[0], qs[0] | 1 << k - 1)
    rows = list(zip(
        *[[mask_of(j for j, v in enumerate(r) if v) for r in c.table]
          for c in (pc.x_context, pc.q_context)]))
    pc.add_object_with_intent((ref.anames(new[0]), ref.anames(new[1])), 'new')
    check(st, pc, Ref(ref.objects + ['new'], ref.attributes,
                      [0] * (ref.n + 1)), rows + [new],
          'after an object was added')


def sizes(case, st):
    shapes = [(0, 0), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)]
    for (n, k), (n2, k2) in itertools.product(shapes, repeat=2):
        if (n, k) == (n2, k2):
            continue
        for v, w in itertools.product((False, True), repeat=2):
            left = [[v] * k for _ in range(n)]
            right = [[w] * k2 for _ in range(n2)]
            st.raises('tables of sizes %s and %s' % ((n, k), (n2, k2)),
                      ValueError, subseteq_table, left, right)


def pairs(case, st):
    _, k, xs = case
    n = len(xs)
    ref = spaces.ref_of('str', k, xs)
    st.state(('x', k, tuple(xs)))
    for qs in spaces.all_rows(n, k):
        fine = all(x & ~q == 0 for x, q in zip(xs, qs))
        left, right = table(xs, k), table(qs, k)
        st.eq('containment of tables', bool(subseteq_table(left, right)),
              fine)
        o, a = list(ref.objects), list(ref.attributes)
        if not fine:
            st.raises('a certain cross that is not possible', ValueError,
                      PartialContext, left, right, o, a)
            continue
        pc = PartialContext(left, right, o, a)
        rows = list(zip(xs, qs))
        check(st, pc, ref, rows, 'partial context')
        # the lists handed in stay the caller's
        o.append('x')
        a.append('x')
        for r in left + right:
            r[:] = [not v for v in r]
        check(st, pc, ref, rows, 'after the lists were changed')
        t = pc.transpose()
        tref = ref.transpose()
        trows = list(zip(ref.transpose().rows,
                         Ref(ref.objects, ref.attributes,
                             qs).transpose().rows))
        check(st, t, tref, trows, 'transposed')
        d = copy.deepcopy(pc)
        check(st, d, ref, rows, 'copy')
        for p in range(1 << k):
            given = ref.anames(p)
            st.eq('possible closure of %s' % p, set(pc.xq_aclosure(given)),
                  ref.anames(xq(rows, k, p)))
        # adding partial objects
        given = {(0, 0), (0, ref.all_atts), (ref.all_atts, ref.all_atts),
                 (ref.all_atts, 0), (1, 2), (1, ref.all_atts), (2, 3),
                 (4, 6), (5, 7), (1, 1)}
        if n < 3:
            given |= set(itertools.product(range(1 << k), repeat=2))
        for x, q in sorted(given):
            if (x | q) & ~ref.all_atts:
                continue
            e = copy.deepcopy(pc)
            if x & ~q:
                st.raises('adding an inconsistent object', ValueError,
                          e.add_object_with_intent,
                          (ref.anames(x), ref.anames(q)), 'new')
                check(st, e, ref, rows, 'after the refused object')
            else:
                e.add_object_with_intent((ref.anames(x), ref.anames(q)),
                                         'new')
                check(st, e, Ref(ref.objects + ['new'], ref.attributes,
                                 [0] * (n + 1)), rows + [(x, q)],
                      'after an object was added')
        check(st, pc, ref, rows, 'after copies were edited')
        st.outcome((tuple(rows)))


def judge(st, ref, rows, conf, got, what):
    k = ref.k
    got = imps_of(ref, got)
    for i, (p, c) in enumerate(got):
        st.true(what + ': unrefuted', c & ~xq(rows, k, p) == 0,
                lambda: show_imps(ref, [(p, c)]))
        st.true(what + ': irredundant',
                c & ~imp_closure(p, conf + got[:i] + got[i + 1:]),
                lambda: '%s in %s' % (show_imps(ref, [(p, c)]),
                                      show_imps(ref, got)))
    undecided = any(xq(rows, k, p) & ~p for p in range(1 << k)
                    if respects(p, conf))
    st.eq(what + ': something is open', bool(got), undecided)
    return got


CONDS = [
    ('at most one attribute', lambda m: bin(m).count('1') <= 1,
     lambda s: len(s) <= 1),
    ('no premise', lambda m: False, lambda s: False),
]


def imps(case, st):
    _, scheme, k, rows = case
    rows = [tuple(r) for r in rows]
    ref, pc = make(scheme, k, rows)
    st.state(ref.key() + tuple(rows))
    got = judge(st, ref, rows, [], pc.get_attribute_implications(),
                'implications')
    st.outcome(tuple(got))
    if all(x == q for x, q in rows):
        full = Ref(ref.objects, ref.attributes, [x for x, q in rows])
        st.eq('without questions: the canonical basis', sorted(got),
              sorted(full.pseudo_intents()))
    for what, cond, fn in CONDS:
        some = imps_of(ref, pc.get_attribute_implications(cond=fn))
        for p, c in some:
            st.true('with condition %s' % what,
                    cond(p) and c & ~xq(rows, k, p) == 0, (p, c))
    for p in range(1 << k):
        c = xq(rows, k, p)
        for con in {c, c & ~p}:
            given = [Implication(ref.anames(p), ref.anames(con))]
            judge(st, ref, rows, [(p, con)],
                  pc.get_attribute_implications(confirmed=given),
                  'with %s confirmed' % ((p, con),))
            st.eq('the confirmed list', len(given), 1)
    check(st, pc, ref, rows, 'after queries')


def lists(k, depth):
    imps = implications(k)
    if depth == -2:
        some = [(p, c) for p, c in imps if p & c == 0 and c
                and bin(c).count('1') == 1]
        yield from itertools.product(some, repeat=2)
        return
    for d in range(depth + 1):
        if d < 2:
            yield from itertools.product(imps, repeat=d)
        else:
            yield from itertools.product(
                [(p, c) for p, c in imps if c & ~p], repeat=d)


def complete(case, st):
    _, scheme, k, rows, depth = case
    rows = [tuple(r) for r in rows]
    for conf in lists(k, depth):
        ref, pc = make(scheme, k, rows)
        once = len(conf) < 2
        if once:
            views(st, pc, ref, rows, 'at first')
        want = []
        for x, q in rows:
            sets = [s for s in range(1 << k) if x & ~s == 0 and s & ~q == 0
                    and respects(s, conf)]
            if not sets:
                want = None
                break
            nx, nq = sets[0], 0
            for s in sets:
                nx &= s
                nq |= s
            # nothing admissible is lost, nothing is gained
            assert sets == [s for s in range(1 << k) if nx & ~s == 0
                            and s & ~nq == 0 and respects(s, conf)]
            want.append((nx, nq))
        st.state((k, tuple(rows), conf))
        given = [Implication(ref.anames(p), ref.anames(c)) for p, c in conf]
        with contextlib.redirect_stdout(io.StringIO()):
            if want is None:
                st.raises('completing by %s' % (conf,), ValueError,
                          pc.complete, given)
                check(st, pc, ref, rows, 'after the completion failed')
                continue
            pc.complete(given)
            check(st, pc, ref, want, 'completed by %s' % (conf,))
            if once:
                views(st, pc, ref, want, 'completed')
            pc.complete(given)
            check(st, pc, ref, want, 'completed again')
        if once:
            grown = Ref(ref.objects + ['new'], ref.attributes,
                        [0] * (ref.n + 1))
            more = want + [(0, ref.all_atts & 1)]
            pc.add_object_with_intent((set(), ref.anames(more[-1][1])),
                                      'new')
            views(st, pc, grown, more, 'grown')
        st.outcome((tuple(want)))
        st.eq('the implications', imps_of(ref, given),
              [(p, p | c) for p, c in conf])
