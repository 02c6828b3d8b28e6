"""Clarification and reduction."""
from mc import spaces
from mc.ref import Ref, mask_of
from mc.util import Frozen, masks_of_concepts

ID = 'C17'
BOUNDS = {
    'quick': 'all contexts up to 4x3, 3x4 and 5x3, all sets of up to five '
             'distinct rows over four attributes in two orders, of six over '
             'four and of four over five attributes, namings up '
             'to 3x3, every way of construction up to 3x3, structured '
             'contexts up to 66 columns and 130 rows, square paddings of '
             'them with 60 to 70 rows and columns; '
             'contexts of up to 1100 attributes or 1200 objects',
    'thorough': 'all contexts up to 4x4, sets of seven rows over four and of '
                'four rows over five attributes',
}


def cases(tier):
    q = tier == 'quick'
    full = [(n, k) for n in range(5) for k in range(5) if n * k <= 12]
    yield from spaces.cases(full=full + [(5, 3)] + ([] if q else [(4, 4)]),
                            ways=[(2, 2), (3, 3)],
                            schemes=[(0, 2), (2, 2), (3, 3)],
                            fam=spaces.LARGE,
                            large=spaces.big(), fam_schemes=('str', 'intrev'))
    for n in range(6 if q else 8):
        for rows in spaces.rowsets(n, 4):
            yield ['ctx', 'list', 'str', 4, list(rows)]
            yield ['ctx', 'list', 'str', 4, list(rows)[::-1]]
    for rows in spaces.rowsets(3, 5):
        yield ['ctx', 'list', 'rev', 5, list(rows)]
    if q:
        for n, k in ((4, 5), (6, 4)):
            for i, rows in enumerate(spaces.rowsets(n, k)):
                yield ['ctx', 'list', 'str', k,
                       list(rows)[::(1, -1)[i % 2]]]
    for w in (60, 61, 62, 63, 64, 65, 66, 70):
        m = (1 << w) - 1
        top = 1 << w - 1
        # rows differing in the high or low positions only
        for rows in ([1, top, top | 1], [m, m ^ 1, m ^ top, m ^ 1 ^ top],
                     [top, 0, 1, top, m], [m ^ top, m],
                     [3 << w - 2, top, 1 << w - 2, 5]):
            yield ['ctx', 'list', 'str', w, rows]
            t = Ref(list(range(len(rows))), list(range(w)), rows).transpose()
            yield ['ctx', 'list', 'str', len(rows), t.rows]
        yield ['ctx', 'list', 'int', w, [m ^ 1 << i for i in range(w)]]
        yield ['ctx', 'list', 'int', w, [1 << i for i in range(w)] + [0]]
    if not q:
        for rows in spaces.rowsets(4, 5):
            yield ['ctx', 'list', 'str', 5, list(rows)]


def irreducible(rows, full):
    out = set()
    for r in set(rows):
        meet = full
        seen = False
        for s in rows:
            if s != r and s & r == r:
                meet &= s
                seen = True
        if not seen or meet != r:
            out.add(r)
    return out


def judge(st, what, c, ref, order, want_rows):
    """the context c consists of objects of ref, one for every wanted row"""
    st.eq(what + ': attributes', list(c.attributes), ref.attributes)
    st.true(what + ': objects of the context',
            all(o in ref.objects for o in c.objects), c.objects)
    ids = [ref.objects.index(o) for o in c.objects]
    rows = [mask_of(j for j, x in enumerate(r) if x) for r in c.table]
    st.eq(what + ': rows of the kept objects', rows,
          [ref.rows[i] for i in ids])
    st.eq(what + ': kept rows', sorted(rows), sorted(want_rows))
    if order:
        st.eq(what + ': order of the kept objects', ids, sorted(ids))
    return Ref([ref.objects[i] for i in ids], ref.attributes, rows)


def probe(cxt, ref, st):
    frozen = Frozen(cxt)
    intents = ref.intents() if ref.k <= 10 else None
    r = judge(st, 'clarified', cxt.clarify_objects(), ref, False,
              set(ref.rows))
    st.outcome(tuple(sorted(r.rows)))
    want = irreducible(ref.rows, ref.all_atts)
    c = cxt.reduce_objects()
    r = judge(st, 'objects reduced', c, ref, True, want)
    judge(st, 'objects reduced twice', c.reduce_objects(), r, True, want)
    if intents is not None:
        st.eq('intents of the reduced context', r.intents(), intents)
        st.eq('concepts of the reduced context',
              sorted(b for _, b in masks_of_concepts(r, c.concepts)),
              sorted(intents))
    t = ref.transpose()
    cols = irreducible(t.rows, t.all_atts)
    d = cxt.reduce_attributes()
    td = d.transpose()
    s = judge(st, 'attributes reduced', td, t, True, cols)
    judge(st, 'attributes reduced twice', d.reduce_attributes().transpose(),
          s, True, cols)
    st.eq('objects after reducing attributes', list(d.objects), ref.objects)
    if intents is not None:
        st.eq('number of concepts after reducing attributes',
              len(d.concepts), len(intents))
    both = cxt.reduce_attributes().reduce_objects()
    tt = s.transpose()
    u = judge(st, 'both reduced', both, tt, True,
              irreducible(tt.rows, tt.all_atts))
    if intents is not None:
        st.eq('number of concepts after reducing both', len(both.concepts),
              len(intents))
    frozen.check(st, 'reducing')


def run(case, st):
    spaces.run_way(case, st, lambda c, r: probe(c, r, st))
