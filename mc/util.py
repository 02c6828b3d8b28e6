"""Helpers shared by the property modules (comparison of library values with
the reference model; the library is only used through its public API)."""
import itertools



def subsets(k):
    return range(1 << k)


def table_of(cxt):
    return [[bool(x) for x in row] for row in cxt.table]


def check_relation(st, cxt, ref, what='context'):
    """objects, attributes and the incidence relation"""
    st.eq(what + ': objects', list(cxt.objects), ref.objects)
    st.eq(what + ': attributes', list(cxt.attributes), ref.attributes)
    st.eq(what + ': table', table_of(cxt), ref.table())
    st.eq(what + ': len', len(cxt), ref.n)


def masks_of_concepts(ref, concepts):
    """[(extent mask, intent mask)]; names that do not exist give None"""
    out = []
    for c in concepts:
        try:
            out.append((ref.omask(c.extent), ref.amask(c.intent)))
        except ValueError:
            out.append((None, None))
    return out


def imps_of(ref, imps):
    """[(premise mask, premise|conclusion mask)] of library implications"""
    out = []
    for i in imps:
        p = ref.amask(i.premise)
        out.append((p, p | ref.amask(i.conclusion)))
    return out


def show_imps(ref, imps):
    return ['%s => %s' % (sorted(map(repr, ref.anames(p))),
                          sorted(map(repr, ref.anames(c & ~p))))
            for p, c in imps]


def sample_masks(n, limit=6):
    """all masks of n bits while that is small, else a fixed structured set"""
    if n <= limit:
        return list(range(1 << n))
    out = {0, (1 << n) - 1}
    if n > 140:
        some = [0, 1, n // 2, n - 2, n - 1]
        for i in some:
            out |= {1 << i, ((1 << n) - 1) ^ 1 << i, (1 << i) - 1}
        return sorted(out)
    for i in range(n):
        out.add(1 << i)
        out.add(((1 << n) - 1) ^ (1 << i))
    for i in range(n - 1):
        out.add(3 << i)
        out.add((1 << i) - 1)
    return sorted(out)


def lib_closed_sets(close, attributes):
    return {frozenset(close(set(s)))
            for r in range(len(attributes) + 1)
            for s in itertools.combinations(attributes, r)}


class Frozen:
    """Remembers the visible state of a context, to show a query left it
    alone."""

    def __init__(self, cxt):
        self.cxt = cxt
        self.snap = self.take()

    def take(self):
        return (list(self.cxt.objects), list(self.cxt.attributes),
                [list(r) for r in self.cxt.table])

    def check(self, st, what):
        st.eq('%s changed the context' % what, self.take(), self.snap)
