"""Derived contexts hold the relation they are named after."""
import itertools

from fca import Context

from mc import spaces
from mc.ref import Ref, bits, mask_of
from mc.util import Frozen
from props import c11

ID = 'C14'
BOUNDS = {
    'quick': 'all contexts up to 3x3 and 4x2, row multisets 4x3 and 3x4, '
             'every way of construction up to 3x3, namings up to 3x3, '
             'structured contexts; every sequence of distinct attributes for '
             'extraction and every set of attributes for filtering up to '
             'four attributes; '
             'contexts of up to 1100 attributes or 1200 objects',
    'thorough': 'all contexts up to 4x3 and 3x4, multisets 5x4',
}


def cases(tier):
    if tier == 'quick':
        full = [(n, k) for n in range(4) for k in range(4)] + [(4, 2)]
        return spaces.cases(full=full, ways=[(2, 2), (3, 2), (2, 3)],
                            schemes=[(0, 2), (2, 2), (2, 3), (3, 3)],
                            multi=[(4, 3), (3, 4)], fam=spaces.SMALL,
                            large=spaces.big(),
                            fam_schemes=('str', 'intrev'))
    full = [(n, k) for n in range(5) for k in range(5) if n * k <= 12]
    return spaces.cases(full=full, ways=[(2, 2), (3, 3)],
                        schemes=[(0, 2), (2, 2), (2, 3), (3, 3)],
                        multi=[(4, 4), (5, 4)], fam=spaces.LARGE,
                        large=spaces.big(),
                        fam_schemes=('str', 'intrev', 'mixed'))


def same(st, what, c, ref, deep=False):
    st.eq(what + ': class', type(c), Context)
    try:
        if deep:
            c11.verify(st, c, ref)
        else:
            st.eq('objects', list(c.objects), ref.objects)
            st.eq('attributes', list(c.attributes), ref.attributes)
            st.eq('table', [[bool(x) for x in r] for r in c.table],
                  ref.table())
            st.state(ref.key())
    except AssertionError as e:
        raise type(e)('%s: %s' % (what, e))
    st.outcome(ref.key())


def select(ref, cols):
    return Ref(ref.objects, [ref.attributes[j] for j in cols],
               [mask_of(i for i, j in enumerate(cols) if r >> j & 1)
                for r in ref.rows])


def keep(ref, test):
    ids = [i for i in range(ref.n) if test(ref.rows[i])]
    return Ref([ref.objects[i] for i in ids], ref.attributes,
               [ref.rows[i] for i in ids])


def probe(cxt, ref, st):
    frozen = Frozen(cxt)
    deep = ref.n * ref.k <= 6
    t = cxt.transpose()
    same(st, 'transposed', t, ref.transpose(), deep)
    same(st, 'transposed twice', t.transpose(), ref, deep)
    texts = [str(a) for a in ref.attributes]
    nots = ['not ' + a for a in texts]
    comp = Ref(ref.objects, nots, [r ^ ref.all_atts for r in ref.rows])
    if len(set(nots)) == len(nots):
        c = cxt.complementary()
        same(st, 'complementary', c, comp, deep)
        same(st, 'complementary twice', c.complementary(),
             Ref(ref.objects, ['not ' + a for a in nots], ref.rows), deep)
        if not set(nots) & set(ref.attributes):
            both = Ref(ref.objects, ref.attributes + nots,
                       [r | (r ^ ref.all_atts) << ref.k for r in ref.rows])
            same(st, 'compound', cxt.compound(), both, deep)
            d = cxt.compound()
            same(st, 'part of the compound',
                 d.extract_subcontext(list(ref.attributes)), ref)
            same(st, 'other part of the compound',
                 d.extract_subcontext(nots), comp)
    k = min(ref.k, 4)
    for r in range(k + 1):
        for cols in itertools.permutations(range(k), r):
            same(st, 'extracted %s' % (cols,),
                 cxt.extract_subcontext([ref.attributes[j] for j in cols]),
                 select(ref, cols), deep and r < 2)
    if ref.k > 4:
        for cols in (range(ref.k), range(0, ref.k, 2),
                     range(ref.k - 1, -1, -1), range(ref.k - 1, -1, -3)):
            cols = list(cols)
            same(st, 'extracted %s' % (cols,),
                 cxt.extract_subcontext([ref.attributes[j] for j in cols]),
                 select(ref, cols))
    masks = range(1 << k) if ref.k <= 4 else [
        0, 1, ref.all_atts, 1 << ref.k - 1, 3 << ref.k - 2, 1 | 1 << ref.k - 1]
    for m in masks:
        names = [ref.attributes[j] for j in bits(m)]
        same(st, 'objects with all of %r' % (names,),
             cxt.extract_subcontext_filtered_by_attributes(names),
             keep(ref, lambda x: x & m == m))
        same(st, 'objects with all of %r, mode given' % (names,),
             cxt.extract_subcontext_filtered_by_attributes(
                 names[::-1], mode='and'), keep(ref, lambda x: x & m == m))
        same(st, 'objects with one of %r' % (names,),
             cxt.extract_subcontext_filtered_by_attributes(names, mode='or'),
             keep(ref, lambda x: x & m))
    for bad in ([('unknown',)], list(ref.attributes) + [('unknown',)]):
        st.raises('extracting an unknown attribute', ValueError,
                  cxt.extract_subcontext, bad)
        for mode in ('and', 'or'):
            st.raises('filtering by an unknown attribute', ValueError,
                      cxt.extract_subcontext_filtered_by_attributes, bad,
                      mode)
    frozen.check(st, 'deriving contexts')
    d = Context(ref.table(), list(ref.objects), list(ref.attributes))
    e = d.remove_empty_objects()
    st.true('remove_empty_objects returns the context', e is d)
    same(st, 'without empty objects', d, keep(ref, lambda x: x), deep)
    d.remove_empty_objects()
    same(st, 'without empty objects, again', d, keep(ref, lambda x: x))


def run(case, st):
    spaces.run_way(case, st, lambda c, r: probe(c, r, st))
