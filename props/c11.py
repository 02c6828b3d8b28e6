"""Edits change exactly what they name: histories of edits of a context."""
import copy
import itertools

from fca import compute_dg_basis_simple
from fca.algorithms import closure_operators as co

from mc import spaces
from mc.ref import Ref, bits, mask_of
from mc.util import check_relation, imps_of, masks_of_concepts
from props import c01

ID = 'C11'
BOUNDS = {
    'quick': 'all histories of up to two edits (every object, attribute, '
             'name and representative row and column, refused ones included) '
             'from twelve starting contexts, with all queries, with no query, '
             'or with interrupted and failing queries in between; all of '
             'three edits from four starting contexts with a smaller choice '
             'of rows; every pattern of one or two kinds of edits repeated up '
             'to nine edits from three starts; every way of construction up '
             'to 3x3; '
             'edits of contexts of up to 260 attributes or 1200 objects',
    'thorough': 'all histories of three edits from twelve starting contexts, '
                'of four with the smaller choice from two, patterns of '
                'three kinds',
}
STARTS = [
    ('str', 0, []), ('str', 2, []), ('str', 0, [0, 0]), ('str', 1, [1]),
    ('str', 2, [1, 2]), ('int', 2, [3, 1, 0]), ('rev', 3, [5, 3]),
    ('mixed', 3, [5, 2, 7]), ('shared', 2, [2, 3]),
    ('twins', 3, [2, 5, 6]), ('like', 2, [1, 3]), ('falsy', 2, [2, 1]),
]
NEW_O, NEW_A, BAD = ['new', ('t', 1)], ['new', 'm00x'], 'unknown'
NEW_O += ['later %d' % i for i in range(12)]
NEW_A += ['later %d' % i for i in range(12)]


def ops(ref, rich):
    """the edits tried in a state, as JSON-able lists of positions"""
    n, k = ref.n, ref.k
    fo = [x for x in NEW_O[:2] if x not in ref.objects]
    fa = [x for x in NEW_A[:2] if x not in ref.attributes]
    rows = sorted({0, ref.all_atts, 1 & ref.all_atts} if not rich
                  else {0, ref.all_atts, 1 & ref.all_atts,
                        (1 << k >> 1), ref.all_atts & 5})
    cols = sorted({0, ref.all_objs, 1 & ref.all_objs} if not rich
                  else {0, ref.all_objs, 1 & ref.all_objs,
                        (1 << n >> 1), ref.all_objs & 5})
    if fo and n < 5:
        i = NEW_O.index(fo[0])
        for r in rows:
            yield ['add_object', r, i]
        yield ['add_object_with_intent', rows[-1], i]
        yield ['add_object_with_intent', rows[1 % len(rows)], i]
    if fa and k < 5:
        i = NEW_A.index(fa[0])
        for c in cols:
            yield ['add_attribute', c, i]
        yield ['add_attribute_with_extent', cols[-1], i]
        yield ['add_attribute_with_extent', cols[1 % len(cols)], i]
    for i in range(n):
        yield ['delete_object', i]
        for r in (rows if rich else (0, ref.all_atts ^ ref.rows[i])):
            yield ['set_object_intent', r, i]
        if fo:
            yield ['rename_object', i, NEW_O.index(fo[-1])]
    for j in range(k):
        yield ['delete_attribute', j]
        for c in (cols if rich else (0, ref.all_objs
                                     ^ ref.extent(1 << j))):
            yield ['set_attribute_extent', c, j]
        if fa:
            yield ['rename_attribute', j, NEW_A.index(fa[-1])]
    if n:
        yield ['rename_object', n - 1, -1]
    if k:
        yield ['rename_attribute', k - 1, -1]
    for m in range(1 << min(k, 3)):
        if bin(m).count('1') != 1:
            yield ['delete_attributes', m, 0]
    if k:
        yield ['delete_attributes', ref.all_atts & 7, 1]
    yield ['remove_empty_objects']
    if rich:
        for x in ('delete_object', 'delete_attribute', 'delete_attributes',
                  'delete_attributes2', 'rename_object', 'rename_attribute',
                  'set_object_intent', 'set_object_intent2',
                  'set_attribute_extent', 'set_attribute_extent2',
                  'add_object', 'add_attribute'):
            yield ['bad', x]


def step(ref, op):
    """the reference state after an edit"""
    ref = ref.copy()
    o, a, rows, k = ref.objects, ref.attributes, ref.rows, ref.k
    name = op[0]
    if name in ('add_object', 'add_object_with_intent'):
        o.append(NEW_O[op[2]])
        rows.append(op[1])
    elif name in ('add_attribute', 'add_attribute_with_extent'):
        a.append(NEW_A[op[2]])
        rows = [r | (op[1] >> i & 1) << k for i, r in enumerate(rows)]
    elif name == 'delete_object':
        del o[op[1]], rows[op[1]]
    elif name in ('delete_attribute', 'delete_attributes'):
        gone = [op[1]] if name == 'delete_attribute' else bits(op[1])
        keep = [j for j in range(k) if j not in gone]
        rows = [mask_of(i for i, j in enumerate(keep) if r >> j & 1)
                for r in rows]
        a = [a[j] for j in keep]
    elif name == 'rename_object':
        if op[2] >= 0:
            o[op[1]] = NEW_O[op[2]]
    elif name == 'rename_attribute':
        if op[2] >= 0:
            a[op[1]] = NEW_A[op[2]]
    elif name == 'set_object_intent':
        rows[op[2]] = op[1]
    elif name == 'set_attribute_extent':
        b = 1 << op[2]
        rows = [r & ~b | (b if op[1] >> i & 1 else 0)
                for i, r in enumerate(rows)]
    elif name == 'remove_empty_objects':
        o = [x for x, r in zip(o, rows) if r]
        rows = [r for r in rows if r]
    return Ref(o, a, rows)


def apply(st, c, ref, op):
    name = op[0]
    if name == 'add_object':
        c.add_object([bool(op[1] >> j & 1) for j in range(ref.k)],
                     NEW_O[op[2]])
    elif name == 'add_object_with_intent':
        c.add_object_with_intent(ref.anames(op[1]), NEW_O[op[2]])
    elif name == 'add_attribute':
        c.add_attribute([bool(op[1] >> i & 1) for i in range(ref.n)],
                        NEW_A[op[2]])
    elif name == 'add_attribute_with_extent':
        c.add_attribute_with_extent(ref.onames(op[1]), NEW_A[op[2]])
    elif name == 'delete_object':
        c.delete_object(ref.objects[op[1]])
    elif name == 'delete_attribute':
        c.delete_attribute(ref.attributes[op[1]])
    elif name == 'delete_attributes':
        names = [ref.attributes[j] for j in bits(op[1])]
        if op[2]:
            names = names[::-1] + names[:1]
        c.delete_attributes(names)
    elif name == 'rename_object':
        c.rename_object(ref.objects[op[1]],
                        NEW_O[op[2]] if op[2] >= 0 else ref.objects[op[1]])
    elif name == 'rename_attribute':
        c.rename_attribute(ref.attributes[op[1]],
                           NEW_A[op[2]] if op[2] >= 0
                           else ref.attributes[op[1]])
    elif name == 'set_object_intent':
        c.set_object_intent(ref.anames(op[1]), ref.objects[op[2]])
    elif name == 'set_attribute_extent':
        c.set_attribute_extent(ref.onames(op[1]), ref.attributes[op[2]])
    elif name == 'remove_empty_objects':
        st.true('remove_empty_objects returns the context',
                c.remove_empty_objects() is c)
    elif name == 'bad':
        bad(st, c, ref, op[1])


def bad(st, c, ref, what):
    o = ref.objects[0] if ref.n else BAD
    a = ref.attributes[0] if ref.k else BAD
    call = {
        'delete_object': lambda: c.delete_object(BAD),
        'delete_attribute': lambda: c.delete_attribute(BAD),
        'delete_attributes': lambda: c.delete_attributes([a, BAD]),
        'delete_attributes2': lambda: c.delete_attributes([BAD]),
        'rename_object': lambda: c.rename_object(BAD, 'x'),
        'rename_attribute': lambda: c.rename_attribute(BAD, 'x'),
        'set_object_intent': lambda: c.set_object_intent({BAD}, o),
        'set_object_intent2': lambda: c.set_object_intent(set(), BAD),
        'set_attribute_extent': lambda: c.set_attribute_extent({BAD}, a),
        'set_attribute_extent2': lambda: c.set_attribute_extent(set(), BAD),
        'add_object': lambda: c.add_object([True] * (ref.k + 1), 'x'),
        'add_attribute': lambda: c.add_attribute([True] * (ref.n + 1), 'x'),
    }[what]
    st.raises('refused: ' + what, Exception, call)


def words(ref, depth, rich):
    yield []
    if depth:
        for op in ops(ref, rich):
            nxt = step(ref, op)
            for w in words(nxt, depth - 1, rich):
                yield [op] + w


def cases(tier):
    q = tier == 'quick'
    for s, (scheme, k, rows) in enumerate(STARTS):
        ref = spaces.ref_of(scheme, k, rows)
        for w in words(ref, 1, True):
            for mode in range(3):
                yield ['hist', s, mode, w]
    for c in spaces.cases(ways=[(1, 1), (2, 2), (3, 2), (2, 3)] +
                          ([] if q else [(3, 3)]), schemes=[(2, 2)]):
        yield c
    for s, (scheme, k, rows) in enumerate(STARTS):
        ref = spaces.ref_of(scheme, k, rows)
        for w in words(ref, 2 if q else 3, True):
            if len(w) > 1:
                for mode in range(3) if len(w) == 2 else (1,):
                    yield ['hist', s, mode, w]
    for s in (2, 4, 8) if q else (4, 8):
        scheme, k, rows = STARTS[s]
        ref = spaces.ref_of(scheme, k, rows)
        for w in words(ref, 3 if q else 4, False):
            if len(w) > 2:
                yield ['hist', s, 1 + len(w) % 2, w]
    for b, (k, rows) in enumerate(spaces.big('long nominal broad')):
        for i in range(len(WALK)):
            yield ['big', b, i % 3, [i], 2 if len(rows) * k < 4000 else 1]
        yield ['big', b, 1, list(range(len(WALK))), len(WALK)]
        yield ['big', b, 2, list(range(len(WALK))), len(WALK)]
    for r in (1, 2) if q else (1, 2, 3):
        for pattern in itertools.product(range(len(WALK)), repeat=r):
            for s in (1, 4, 6) if r < 3 else (4,):
                for mode in range(3) if r < 3 else (0, 1):
                    yield ['walk', s, mode, list(pattern), 9]


WALK = ['add_object', 'add_object_with_intent', 'add_attribute',
        'add_attribute_with_extent', 'delete_first_object',
        'delete_last_object', 'delete_first_attribute',
        'delete_last_attribute', 'delete_two_attributes', 'rename_object',
        'rename_attribute', 'set_object_intent', 'set_attribute_extent',
        'remove_empty_objects']


def walk_op(ref, kind, t):
    """the edit a kind stands for at step t, None if there is none"""
    n, k = ref.n, ref.k
    row = (t * 5 + 3) & ref.all_atts
    col = (t * 3 + 5) & ref.all_objs
    few = 1 | 1 << max(k, 1) - 1
    if t % 2 == 0:          # many at a time
        row = ref.all_atts ^ row if k > 40 else row
        col = ref.all_objs ^ col if n > 40 else col
        few = ref.all_atts // 3 if k > 40 else few
    o = [i for i, x in enumerate(NEW_O) if x not in ref.objects][0]
    a = [i for i, x in enumerate(NEW_A) if x not in ref.attributes][0]
    if kind.startswith('add_object'):
        return [kind, row, o] if n < 10 or n > 40 else None
    if kind.startswith('add_attribute'):
        return [kind, col, a] if k < 7 or k > 40 else None
    if kind == 'remove_empty_objects':
        return [kind]
    if 'object' in kind and not n or 'attribute' in kind and not k:
        return None
    return {
        'delete_first_object': ['delete_object', 0],
        'delete_last_object': ['delete_object', n - 1],
        'delete_first_attribute': ['delete_attribute', 0],
        'delete_last_attribute': ['delete_attribute', k - 1],
        'delete_two_attributes': ['delete_attributes', few, 0],
        'rename_object': ['rename_object', t % max(n, 1), o],
        'rename_attribute': ['rename_attribute', t % max(k, 1), a],
        'set_object_intent': ['set_object_intent', row, t % max(n, 1)],
        'set_attribute_extent': ['set_attribute_extent', col,
                                 t % max(k, 1)],
    }[kind]


def walk(st, s, mode, pattern, length):
    """a short pattern of edits over and over again"""
    scheme, k, rows = STARTS[s]
    many_steps(st, spaces.ref_of(scheme, k, rows), mode, pattern, length)


def many_steps(st, ref, mode, pattern, length):
    c = spaces.make(ref)
    seen = [ref]
    for t in range(length):
        op = walk_op(ref, WALK[pattern[t % len(pattern)]], t)
        if op is None:
            continue
        if mode == 1:
            verify(st, c, ref, False)
        elif mode == 2:
            disturb(st, c)
        apply(st, c, ref, op)
        ref = step(ref, op)
        seen.append(ref)
    verify(st, c, ref)
    forgotten(st, c, ref, seen)


class Stop(Exception):
    pass


def stop(x):
    raise Stop()


def disturb(st, c):
    """queries that are given up half way"""
    for it in (c.attribute_implications_iter(), c.iterate_concepts(),
               c.examples()):
        next(it, None)
    for fn in (lambda: c.get_attribute_implications(cond=stop),
               lambda: c.get_attribute_implications(
                   basis=compute_dg_basis_simple, cond=stop),
               lambda: c.get_object_implications(
                   basis=lambda *a, **k: stop(0)),
               lambda: c.get_attribute_canonical_basis(stop)):
        try:
            fn()
        except Stop:
            pass
    c.concept_lattice, c.object_attribute_pairs


def verify(st, c, ref, whole=True):
    st.state(ref.key())
    check_relation(st, c, ref)
    st.eq('rows', [[bool(x) for x in r] for r in c], ref.table())
    st.eq('intents', list(c.intents()), [ref.anames(r) for r in ref.rows])
    st.eq('pairs', list(c.object_attribute_pairs), ref.pairs())
    c01.probe(c, ref, st) if whole else None
    st.eq('concepts', sorted(masks_of_concepts(ref, c.concepts)),
          sorted(ref.concepts()))
    if not whole and ref.k > 40:
        return
    want = sorted(ref.pseudo_intents())
    st.outcome(tuple(want))
    st.eq('basis', sorted(imps_of(ref, c.attribute_implications)), want)
    if not whole:
        return
    st.eq('canonical basis',
          sorted(imps_of(ref, c.get_attribute_canonical_basis())), want)
    t = ref.transpose()
    if ref.n < 100:
        st.eq('object implications',
              sorted(imps_of(t, c.object_implications)),
              sorted(t.pseudo_intents()))
    st.eq('lattice', len(c.concept_lattice), len(ref.concepts()))
    d = copy.deepcopy(c)
    st.true('equals its copy', c == d)
    text(st, c, ref)


def text(st, c, ref):
    """the printed table"""
    names = [str(x) for x in ref.objects + ref.attributes]
    if any(x in n for n in names for x in '\t\n'):
        return
    lines = repr(c).rstrip('\n').split('\n')
    st.eq('printed attributes', lines[0],
          ', '.join(str(a) for a in ref.attributes))
    st.eq('printed rows', lines[1:],
          ['%s\t%s' % (o, ''.join('X' if r >> j & 1 else '.'
                                  for j in range(ref.k)))
           for o, r in zip(ref.objects, ref.rows)])


def forgotten(st, c, ref, seen):
    """names that were deleted or replaced are unknown, the others found"""
    for o in {x for r in seen for x in r.objects} | {BAD}:
        calls = [lambda: c.get_object_intent(o)]
        if ref.k:
            # without attributes nothing needs to be looked up
            calls += [lambda: c.oprime([o]), lambda: c.oclosure({o}),
                      lambda: co.oprime({o}, c)]
            calls.append(lambda: c.get_value(o, ref.attributes[0]))
        for i, fn in enumerate(calls):
            if o not in ref.objects:
                st.raises('object %r is not there (%d)' % (o, i), Exception,
                          fn)
        if o in ref.objects:
            row = ref.rows[ref.objects.index(o)]
            st.eq('intent of %r' % (o,), c.get_object_intent(o),
                  ref.anames(row))
            st.eq('values of %r' % (o,),
                  [bool(c.get_value(o, a)) for a in ref.attributes],
                  [bool(row >> j & 1) for j in range(ref.k)])
    for a in {x for r in seen for x in r.attributes} | {BAD}:
        calls = [lambda: c.get_attribute_extent(a),
                 lambda: c.extract_subcontext([a])]
        if ref.n:
            calls += [lambda: c.aprime([a]), lambda: c.aclosure({a}),
                      lambda: co.aprime({a}, c)]
            calls.append(lambda: c.get_value(ref.objects[0], a))
        for i, fn in enumerate(calls):
            if a not in ref.attributes:
                st.raises('attribute %r is not there (%d)' % (a, i),
                          Exception, fn)
        if a in ref.attributes:
            st.eq('extent of %r' % (a,), c.get_attribute_extent(a),
                  ref.onames(ref.extent(1 << ref.attributes.index(a))))


def run(case, st):
    if case[0] == 'ctx':
        return spaces.run_way(case, st, lambda c, r: verify(st, c, r))
    if case[0] == 'walk':
        return walk(st, *case[1:])
    if case[0] == 'big':
        k, rows = list(spaces.big('long nominal broad'))[case[1]]
        return many_steps(st, spaces.ref_of('str', k, rows), *case[2:])
    _, s, mode, word = case
    scheme, k, rows = STARTS[s]
    ref = spaces.ref_of(scheme, k, rows)
    c = spaces.make(ref)
    seen = [ref]
    for op in word:
        if mode == 1:
            verify(st, c, ref, len(word) < 3)
        elif mode == 2:
            disturb(st, c)
        apply(st, c, ref, op)
        ref = step(ref, op)
        seen.append(ref)
    verify(st, c, ref, len(word) < 3)
    forgotten(st, c, ref, seen)
