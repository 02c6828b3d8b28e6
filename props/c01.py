"""Derivation and closure operators."""
from fca.algorithms import closure_operators as co

from mc import spaces
from mc.ref import bits, popcount
from mc.util import Frozen, sample_masks

ID = 'C01'
BOUNDS = {
    'quick': 'all contexts up to 4x3 and 3x4, every subset of objects and '
             'attributes; every way of construction up to 3x3; 9 naming '
             'schemes up to 3x3; structured contexts up to 514 columns '
             'or rows with singleton, pair, interval and co-singleton '
             'arguments; '
             'contexts of up to 1100 attributes or 1200 objects',
    'thorough': 'all contexts up to 4x4 and 5x3 and 3x5, ways up to 4x3',
}
FAM = dict(spaces.LARGE, huge=(258, 514))


def cases(tier):
    q = tier == 'quick'
    if q:
        full = [(n, k) for n in range(5) for k in range(5) if n * k <= 12]
        return spaces.cases(full=full, ways=[(1, 1), (2, 2), (3, 2), (2, 3),
                                             (3, 3)],
                            schemes=[(0, 2), (2, 2), (3, 3)],
                            fam=FAM,
                            large=spaces.big(), fam_schemes=('str', 'intrev'))
    full = [(n, k) for n in range(6) for k in range(6) if n * k <= 16]
    return spaces.cases(full=full, ways=[(1, 1), (2, 2), (3, 3), (4, 3),
                                         (3, 4)],
                        schemes=[(0, 2), (2, 2), (3, 3), (4, 3), (3, 4)],
                        multi=[(5, 4), (6, 3)],
                        fam=FAM,
                        large=spaces.big(), fam_schemes=spaces.SCHEMES)


def probe(cxt, ref, st):
    frozen = Frozen(cxt)
    sort = None
    try:
        sorted(ref.attributes), sorted(ref.objects)
        sort = True
    except TypeError:
        sort = False
    for om in sample_masks(ref.n):
        inds = bits(om)
        arg = ref.onames(om)
        lst = [ref.objects[i] for i in reversed(inds)]
        prime = ref.intent(om)
        closed = ref.extent(prime)
        st.outcome(('o', ref.k, prime))
        st.eq('attributes of objects %r' % (lst,), cxt.oprime(arg),
              ref.anames(prime))
        st.eq('argument of the derivation', arg, set(lst))
        st.eq('attributes of object list %r' % (lst,), cxt.oprime(lst),
              ref.anames(prime))
        st.eq('attributes of the objects, by index',
              {int(i) for i in cxt.oprime_inds(inds)}, set(bits(prime)))
        st.eq('attributes of the objects, by a set of indices',
              {int(i) for i in cxt.oprime_inds(set(inds))}, set(bits(prime)))
        st.eq('closure of objects %r' % (lst,), cxt.oclosure(arg),
              ref.onames(closed))
        st.eq('closure of the objects, by index',
              {int(i) for i in cxt.oclosure_inds(inds)}, set(bits(closed)))
        st.eq('attributes of objects (function)', co.oprime(arg, cxt),
              ref.anames(prime))
        if sort:
            st.eq('closure of objects (function)', co.oclosure(arg, cxt),
                  sorted(ref.onames(closed)))
        counts = {j: sum(ref.rows[i] >> j & 1 for i in inds)
                  for j in range(ref.k)}
        got = {int(j): int(c) for j, c in
               cxt.associative_oprime_inds(inds).items()}
        st.eq('counts of attributes among objects %r' % (lst,),
              nonzero(got), nonzero(counts))
    for am in sample_masks(ref.k):
        inds = bits(am)
        arg = ref.anames(am)
        lst = [ref.attributes[j] for j in reversed(inds)]
        prime = ref.extent(am)
        closed = ref.intent(prime)
        st.outcome(('a', ref.n, prime))
        st.eq('objects having attributes %r' % (lst,), cxt.aprime(arg),
              ref.onames(prime))
        st.eq('argument of the derivation', arg, set(lst))
        st.eq('objects having attribute list %r' % (lst,), cxt.aprime(lst),
              ref.onames(prime))
        st.eq('objects having the attributes, by index',
              {int(i) for i in cxt.aprime_inds(inds)}, set(bits(prime)))
        st.eq('objects having the attributes, by a set of indices',
              {int(i) for i in cxt.aprime_inds(set(inds))}, set(bits(prime)))
        st.eq('closure of attributes %r' % (lst,), cxt.aclosure(arg),
              ref.anames(closed))
        st.eq('closure of the attributes, by index',
              {int(i) for i in cxt.aclosure_inds(inds)}, set(bits(closed)))
        st.eq('objects having attributes (function)', co.aprime(arg, cxt),
              ref.onames(prime))
        if sort:
            st.eq('closure of attributes (function)', co.aclosure(arg, cxt),
                  sorted(ref.anames(closed)))
        dic, size = cxt.associative_aclosure(arg)
        st.eq('support of %r' % (lst,), int(size), popcount(prime))
        want = {ref.attributes[j]: sum(ref.rows[i] >> j & 1
                                       for i in bits(prime))
                for j in range(ref.k)}
        st.eq('counts in the support of %r' % (lst,),
              nonzero(dic), nonzero(want))
        want = {ref.objects[i]: popcount(ref.rows[i] & am)
                for i in range(ref.n)}
        st.eq('counts per object of %r' % (lst,),
              nonzero(cxt.associative_aprime(arg)), nonzero(want))
        st.eq('counts per object, by index',
              nonzero({int(i): int(c) for i, c in
                       cxt.associative_aprime_inds(set(inds)).items()}),
              nonzero({i: popcount(ref.rows[i] & am)
                       for i in range(ref.n)}))
    for i, o in enumerate(ref.objects):
        st.eq('intent of %r' % (o,), cxt.get_object_intent(o),
              ref.anames(ref.rows[i]))
        st.eq('intent of row %d' % i, cxt.get_object_intent_by_index(i),
              ref.anames(ref.rows[i]))
    for j, a in enumerate(ref.attributes):
        st.eq('extent of %r' % (a,), cxt.get_attribute_extent(a),
              ref.onames(ref.extent(1 << j)))
        st.eq('extent of column %d' % j,
              cxt.get_attribute_extent_by_index(j),
              ref.onames(ref.extent(1 << j)))
    st.eq('intents', list(cxt.intents()), [ref.anames(r) for r in ref.rows])
    st.eq('examples', list(cxt.examples()), [ref.anames(r) for r in ref.rows])
    st.eq('pairs', list(cxt.object_attribute_pairs), ref.pairs())
    if ref.n * ref.k <= 200:
        for i, o in enumerate(ref.objects):
            for j, a in enumerate(ref.attributes):
                st.eq('value of %r, %r' % (o, a), bool(cxt.get_value(o, a)),
                      bool(ref.rows[i] >> j & 1))
    frozen.check(st, 'deriving')


def nonzero(d):
    return {k: int(v) for k, v in dict(d).items() if v}


def run(case, st):
    spaces.run_way(case, st, lambda c, r: probe(c, r, st))
