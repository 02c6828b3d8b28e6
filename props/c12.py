"""Contexts are isolated from what they are derived from and asked for."""
import copy
import os
import shutil
import tempfile

import numpy as np

import fca
from fca import Context, ConceptLattice, ManyValuedContext
from fca.algorithms import exploration, factors, implication_covers, patterns
from fca.algorithms.closure_operators import lin_closure

from mc import spaces
from mc.ref import Ref, bits, mask_of
from mc.util import Frozen, table_of
from props import c11

ID = 'C12'
CHUNK = 1
BOUNDS = {
    'quick': 'all contexts up to 2x2 and 12 contexts up to 3x3, 14 ways to '
             'derive a context, every edit of either side, chains of two '
             'derivations; every way to derive and every kind of edit of the '
             'newest, the one before or the first in turns, three times; '
             'edits of contexts of up to 260 attributes or 1200 objects and of '
             'what is derived from them; every query and analysis with its '
             'answer overwritten by the caller; construction from every kind '
             'of '
             'table with the given lists changed afterwards; many-valued '
             'contexts likewise',
    'thorough': 'all contexts up to 3x2, 2x3 and distinct-row contexts 3x3',
}
PICK = [(3, [1, 2, 4]), (3, [3, 5, 6]), (3, [7, 3, 1]), (3, [0, 7, 0]),
        (3, [5, 5, 2]), (3, [6, 1, 3]), (1, [0, 1, 0]), (3, [2]),
        (2, [3, 0, 1]), (3, [4, 6]), (3, [0, 0, 0]), (3, [7, 7, 7])]


def contexts(tier):
    for n in range(3):
        for k in range(3):
            for rows in spaces.all_rows(n, k):
                yield 'str', k, list(rows)
    for i, (k, rows) in enumerate(PICK):
        yield 'str', k, rows
        yield ('mixed', 'twins', 'falsy')[i % 3], k, rows
    if tier == 'thorough':
        for n, k in ((3, 2), (2, 3)):
            for rows in spaces.all_rows(n, k):
                yield 'intrev', k, list(rows)
        for rows in spaces.rowsets(3, 3):
            yield 'str', 3, list(rows)


def cases(tier):
    for s, k, rows in contexts(tier):
        yield ['given', s, k, rows]
        yield ['query', s, k, rows]
    for s, k, rows in contexts(tier):
        for d in DERIVE:
            yield ['derive', s, k, rows, [d]]
    for k, rows in PICK[:4 if tier == 'quick' else 12]:
        for d in DERIVE:
            for e in DERIVE:
                yield ['derive', 'str', k, rows, [d, e]]
    for k, rows in PICK:
        yield ['mv', k, rows]
    for d in DERIVE:
        for b in range(len(LARGE)):
            for side in (0, 1):
                yield ['large', b, d, side]
    for d in DERIVE:
        for e in range(len(c11.WALK)):
            for target in range(3):
                for s in (0, 1, 3) if tier == 'quick' else range(len(PICK)):
                    yield ['family', s, d, e, target]


LARGE = list(spaces.big('chain long contra nominal'))
DERIVE = {
    'deepcopy': lambda c: copy.deepcopy(c),
    'copy of the parts': lambda c: Context(c.table, c.objects, c.attributes),
    'transpose': lambda c: c.transpose(),
    'extract_subcontext': lambda c: c.extract_subcontext(list(c.attributes)),
    'extract given attributes': lambda c: c.extract_subcontext(c.attributes),
    'filtered and': lambda c: c.extract_subcontext_filtered_by_attributes([]),
    'filtered or': lambda c: c.extract_subcontext_filtered_by_attributes(
        list(c.attributes), mode='or'),
    'complementary': lambda c: c.complementary(),
    'compound': lambda c: c.compound(),
    'clarify_objects': lambda c: c.clarify_objects(),
    'reduce_objects': lambda c: c.reduce_objects(),
    'reduce_attributes': lambda c: c.reduce_attributes(),
    'product with identity on the right': lambda c: c * identity(c.attributes),
    'product with identity on the left': lambda c: identity(c.objects) * c,
}


def identity(names):
    return Context([[i == j for j in range(len(names))]
                    for i in range(len(names))], names, names)


def snap(c):
    return Ref(list(c.objects), list(c.attributes),
               [mask_of(j for j, x in enumerate(r) if x)
                for r in table_of(c)])


def scale_of(st, ref):
    """a scale made from a context does not follow its edits"""
    for op in edit_list(ref):
        c = spaces.make(ref)
        s = fca.Scale(c)
        st.eq('scale', snap(s).key(), ref.key())
        c11.apply(st, c, ref, op)
        st.eq('scale made before %s' % op, snap(s).key(), ref.key())


def edit_list(ref):
    return [op for op in c11.ops(ref, False)
            if op[0] != 'remove_empty_objects' or 0 in ref.rows]


def run_derive(case, st):
    _, s, k, rows, chain = case
    ref = spaces.ref_of(s, k, rows)

    def build():
        c = spaces.make(ref)
        out = [c]
        for name in chain:
            c = DERIVE[name](c)
            out.append(c)
        return out
    refs = [snap(c) for c in build()]
    c11.verify(st, build()[0], ref)
    for i in range(len(chain) + 1):
        for op in edit_list(refs[i]):
            for asked in (0, 1) if len(chain) == 1 else (0,):
                cs = build()
                if asked:
                    for c in cs:
                        c.attribute_implications, c.object_implications
                        c.get_attribute_canonical_basis()
                        c.concepts
                c11.apply(st, cs[i], refs[i], op)
                for j, c in enumerate(cs):
                    want = refs[j] if j != i else c11.step(refs[i], op)
                    try:
                        c11.verify(st, c, want, asked and j != i)
                    except AssertionError as e:
                        raise type(e)('after %s of %s of %s: number %d: %s'
                                      % (op, i, chain, j, e))


def run_large(case, st):
    """every kind of edit one after the other to one of two contexts"""
    _, b, d, side = case
    k, rows = LARGE[b]
    pair = [spaces.make(spaces.ref_of('str', k, rows))]
    pair.append(DERIVE[d](pair[0]))
    refs = [snap(c) for c in pair]
    for t, kind in enumerate(c11.WALK):
        op = c11.walk_op(refs[side], kind, t)
        if op is not None:
            c11.apply(st, pair[side], refs[side], op)
            refs[side] = c11.step(refs[side], op)
        for c, ref in zip(pair, refs):
            st.eq('%s, after %s of side %d' % (d, kind, side),
                  snap(c).key(), ref.key())
    for c, ref in zip(pair, refs):
        c11.verify(st, c, ref, False)


def run_family(case, st):
    """derivations and edits in turns; everybody keeps his own state"""
    _, s, d, kind, target = case
    ref = spaces.ref_of('str', *PICK[s])
    family = [(spaces.make(ref), ref)]
    for t in range(6):
        if t % 2 == 0:
            c, ref = family[-1]
            want = snap(DERIVE[d](spaces.make(ref)))
            got = DERIVE[d](c)
            st.eq('%s, in step %d' % (d, t), snap(got).key(), want.key())
            if want.n > 6 or want.k > 6:
                continue
            family.append((got, want))
        else:
            i = (len(family) - 1, max(len(family) - 2, 0), 0)[target]
            c, ref = family[i]
            if set(c11.NEW_O + c11.NEW_A) <= set(ref.objects +
                                                 ref.attributes):
                continue
            op = c11.walk_op(ref, c11.WALK[kind], t)
            if op is None:
                continue
            c11.apply(st, c, ref, op)
            family[i] = c, c11.step(ref, op)
        for i, (c, ref) in enumerate(family):
            try:
                c11.verify(st, c, ref, t == 5)
            except AssertionError as e:
                raise type(e)('step %d: number %d: %s' % (t, i, e))


def run_given(case, st):
    """the lists and tables handed to the constructor stay the caller's, in
    both directions"""
    _, s, k, rows = case
    ref = spaces.ref_of(s, k, rows)

    def tables():
        t = ref.table()
        yield t
        yield [tuple(r) for r in t]
        yield np.array(t, dtype=bool).reshape(ref.n, ref.k)
        yield np.array(t, dtype=int).reshape(ref.n, ref.k)
        yield [np.array(r, dtype=bool) for r in t]
    scale_of(st, ref)
    kinds = len(list(tables()))
    for i in range(kinds):
        for op in [None] + edit_list(ref):
            t = list(tables())[i]
            o, a = list(ref.objects), list(ref.attributes)
            c = Context(t, o, a)
            if op is None:
                # the caller changes what he gave
                o.append('later')
                a.insert(0, 'later')
                for r in t:
                    for j in range(len(r)):
                        if not isinstance(r, tuple):
                            r[j] = not r[j]
                c11.verify(st, c, ref)
                continue
            c11.apply(st, c, ref, op)
            st.eq('objects given', o, ref.objects)
            st.eq('attributes given', a, ref.attributes)
            st.eq('table given', [[bool(x) for x in r] for r in t],
                  ref.table())
            c11.verify(st, c, c11.step(ref, op), False)


def queries(ref, tmp):
    """(name, function): every public query; the answer is overwritten"""
    e = list(ref.objects)
    a = list(ref.attributes)

    def write(name, fn, what='context'):
        def go(c):
            x = c if what == 'context' else ConceptLattice(c)
            fn(x, os.path.join(tmp, name))
        return go

    def explore(c):
        x = exploration.BasicExploration(c)
        while x.attribute_implications:
            x.confirm_attribute_implication(0)
        x.add_object(set(x.context.attributes), 'z1')
        x.add_attribute(set(x.context.objects), 'z2')
        x.context.delete_object('z1')
        for o in list(x.context.objects):
            x.context.set_object_intent(set(), o)
        return x.attribute_implications

    def patterns_(c):
        neg = Context([], [], list(c.attributes))
        x = patterns.BasicPatternExploration(c, neg)
        list(x.get_unconfirmed_patterns_with_examples())
        x.add_positive_example('z1', set())
        x.add_negative_example('z2', set())
        y = patterns.BasicPatternExploration(neg, c)
        list(y.get_unconfirmed_patterns_with_examples())
        y.add_negative_example('z2', set())
        return list(patterns.iterate_positive_concepts(c, neg))

    def indices(c):
        lat = ConceptLattice(c)
        if c.objects and c.attributes:
            for f, nm in ((fca.compute_istability, 'a'),
                          (fca.compute_estability, 'b'),
                          (fca.compute_separation_index, 'c'),
                          (fca.compute_probability, 'd')):
                fca.compute_index(lat, f, nm)
        return [x.extent for x in lat] + [x.intent for x in lat]
    yield 'concepts', lambda c: c.concepts
    yield 'extents', lambda c: [x.extent for x in c.concepts]
    yield 'intents of concepts', lambda c: [x.intent for x in c.concepts]
    yield 'stream', lambda c: list(c.iterate_concepts())
    yield 'norris', lambda c: list(fca.norris(c))
    yield 'lattice', lambda c: [x.extent for x in c.concept_lattice]
    yield 'indices', indices
    yield 'attribute implications', lambda c: c.attribute_implications
    yield 'premises', lambda c: [
        i.get_premise() for i in c.attribute_implications]
    yield 'conclusions', lambda c: [
        i.get_conclusion() for i in c.attribute_implications]
    yield 'canonical basis', lambda c: c.get_attribute_canonical_basis()
    yield 'canonical premises', lambda c: [
        i.get_premise() for i in c.get_attribute_canonical_basis()]
    yield 'canonical conclusions', lambda c: [
        i.get_conclusion() for i in c.get_attribute_canonical_basis()]
    yield 'canonical basis, linear closure', lambda c: \
        fca.algorithms.compute_canonical_basis(c, close=lin_closure)
    yield 'streamed implications', lambda c: [
        i.get_conclusion() for i in c.attribute_implications_iter()]
    yield 'object implications', lambda c: [
        i.get_premise() for i in c.object_implications]
    yield 'cover', lambda c: [
        i.get_conclusion()
        for i in implication_covers.compute_implication_cover(c)]
    yield 'intents', lambda c: list(c.intents())
    yield 'examples', lambda c: list(c.examples())
    yield 'pairs', lambda c: c.object_attribute_pairs
    yield 'object intents', lambda c: [c.get_object_intent(x) for x in e]
    yield 'attribute extents', lambda c: [c.get_attribute_extent(x)
                                          for x in a]
    yield 'rows', lambda c: [c.get_object_intent_by_index(i)
                             for i in range(len(e))]
    yield 'columns', lambda c: [c.get_attribute_extent_by_index(j)
                                for j in range(len(a))]
    for m in range(1 << len(e)):
        x = [e[i] for i in bits(m)]
        yield 'oprime', lambda c, x=x: [c.oprime(x), c.oclosure(x)]
        yield 'oprime_inds', lambda c, m=m: [
            c.oprime_inds(bits(m)), c.oclosure_inds(bits(m)),
            c.associative_oprime_inds(bits(m))]
    for m in range(1 << len(a)):
        x = [a[i] for i in bits(m)]
        yield 'aprime', lambda c, x=x: [c.aprime(x), c.aclosure(x)]
        yield 'aprime_inds', lambda c, m=m: [
            c.aprime_inds(bits(m)), c.aclosure_inds(bits(m)),
            c.associative_aprime_inds(bits(m))]
        yield 'associative', lambda c, x=x: [c.associative_aclosure(x)[0],
                                             c.associative_aprime(x)]
    yield 'factors', lambda c: [y for x in factors.algorithm2(c)
                                for y in (x[0].extent, x[0].intent)]
    yield 'weighted factors', lambda c: [
        y for x in factors.algorithm2_weighted(c)
        for y in (x[0].extent, x[0].intent)]
    yield 'conditioned factors', lambda c: [
        y for x in factors.algorithm2_w_condition(c, min_atts_and_objs=1)
        for y in (x[0].extent, x[0].intent)]
    yield 'factor contexts', lambda c: list(factors.make_factor_cxts(
        [x[0] for x in factors.algorithm2(c)]))
    yield 'exploration', explore
    yield 'patterns', patterns_
    yield 'printing', repr
    yield 'comparing', lambda c: c == copy.deepcopy(c)
    if all(isinstance(x, str) for x in e + a):
        yield 'write_cxt', write('a.cxt', fca.write_cxt)
        yield 'write_dot', write('a.dot', fca.write_dot, 'lattice')
        yield 'write_xml', write('a.xml',
                                 lambda x, p: fca.write_xml(p, x), 'lattice')


def scribble(x, depth=0):
    """overwrite an answer as its owner may"""
    if isinstance(x, (list, tuple)) and depth < 3:
        for y in x:
            scribble(y, depth + 1)
    if isinstance(x, list):
        x.append('scribble')
        del x[:1]
    elif isinstance(x, set):
        x.add('scribble')
        x.discard(next(iter(x)))
        x.clear()
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, np.ndarray):
        x[...] = 0
    elif isinstance(x, fca.Implication):
        x.get_premise().clear()
        x.get_conclusion().clear()
    elif isinstance(x, Context):
        for a in list(x.attributes):
            x.delete_attribute(a)


def run_query(case, st):
    _, s, k, rows = case
    ref = spaces.ref_of(s, k, rows)
    tmp = tempfile.mkdtemp(prefix='c12-')
    try:
        for name, fn in queries(ref, tmp):
            c = spaces.make(ref)
            frozen = Frozen(c)
            first = fn(c)
            frozen.check(st, name)
            try:
                scribble(first)
            except (AttributeError, TypeError):
                pass                        # not writable
            frozen.check(st, 'overwriting the answer of ' + name)
            c11.verify(st, c, ref, False)
            fn(c)
            # a context of which this was asked still follows its edits
            if ref.n and ref.k:
                new = ref.rows[0] ^ ref.all_atts
                c.set_object_intent(ref.anames(new), ref.objects[0])
                c11.verify(st, c, Ref(ref.objects, ref.attributes,
                                      [new] + ref.rows[1:]), False)
        c = spaces.make(ref)
        frozen = Frozen(c)
        for name, fn in queries(ref, tmp):
            fn(c)
        frozen.check(st, 'all queries')
        c11.verify(st, c, ref)
    finally:
        shutil.rmtree(tmp)


# ---- many-valued contexts

def mv_state(m):
    return (list(m.objects), list(m.attributes), [list(r) for r in m.table])


MV = {
    'deepcopy': lambda m: copy.deepcopy(m),
    'extract': lambda m: m.extract_subcontext(list(m.attributes)),
    'extract, own list': lambda m: m.extract_subcontext(m.attributes),
    'condition': lambda m: m.extract_subcontext_by_condition(lambda i: True),
    'values': lambda m: m.extract_subcontext_by_attribute_values({}),
    'parts': lambda m: ManyValuedContext(m.table, m.objects, m.attributes),
}
MV_EDIT = [
    lambda m: m.add_attribute([9] * len(m.objects), 'new'),
    lambda m: m.add_object([9] * len(m.attributes), 'new'),
    lambda m: m.delete_object(m.objects[0]),
    lambda m: m.delete_attribute(m.attributes[-1]),
    lambda m: m.rename_object(m.objects[0], 'new'),
    lambda m: m.rename_attribute(m.attributes[0], 'new'),
    lambda m: m.delete_attributes(m.attributes[:1]),
]


def run_mv(case, st):
    _, k, rows = case
    objs = ['o%d' % i for i in range(len(rows))]
    atts = ['m%d' % j for j in range(k)]
    table = [[r >> j & 3 for j in range(k)] for r in rows]
    given = copy.deepcopy((objs, atts, table))

    def build():
        return ManyValuedContext(table, objs, atts)
    for edit in MV_EDIT:
        m = build()
        edit(m)
        st.eq('lists given to a many-valued context', (objs, atts, table),
              given)
        for name, derive in MV.items():
            for side in (0, 1):
                pair = [build()]
                pair.append(derive(pair[0]))
                want = mv_state(pair[1 - side])
                edit(pair[side])
                st.eq('%s, the other side' % name, mv_state(pair[1 - side]),
                      want)
                st.true('%s, the edit took place' % name,
                        mv_state(pair[side]) != want)
    m = build()
    scales = [fca.scale.NominalScale(j, m) for j in range(k)]
    b = fca.scale_mvcontext(m, scales)
    scale_states = [(list(s.objects), list(s.attributes), table_of(s))
                    for s in scales]
    want = mv_state(m)
    for op in c11.ops(snap(b), False):
        c = fca.scale_mvcontext(m, scales)
        c11.apply(st, c, snap(c), op)
        st.eq('scaled context', mv_state(m), want)
        st.eq('scales', [(list(s.objects), list(s.attributes), table_of(s))
                         for s in scales], scale_states)
    bs = snap(b)
    for edit in MV_EDIT:
        m2 = build()
        d = fca.scale_mvcontext(m2, scales)
        edit(m2)
        st.eq('context scaled earlier', snap(d).key(), bs.key())


def run(case, st):
    {'derive': run_derive, 'large': run_large, 'family': run_family,
     'given': run_given,
     'query': run_query, 'mv': run_mv}[case[0]](case, st)
