"""Reference model of formal concept analysis, written without looking at the
library: attribute sets are int bit masks, everything is brute force or follows
the textbook definition.  Nothing here imports fca."""
from fractions import Fraction
from math import comb


def bits(mask):
    i, out = 0, []
    while mask:
        if mask & 1:
            out.append(i)
        mask >>= 1
        i += 1
    return out


def mask_of(indices):
    m = 0
    for i in indices:
        m |= 1 << i
    return m


def popcount(m):
    return bin(m).count('1')


class Ref:
    """A binary relation: rows[i] is the bit mask of attributes of object i."""

    def __init__(self, objects, attributes, rows):
        self.objects = list(objects)
        self.attributes = list(attributes)
        self.rows = list(rows)
        self.n = len(self.objects)
        self.k = len(self.attributes)
        self.all_objs = (1 << self.n) - 1
        self.all_atts = (1 << self.k) - 1

    # ---- conversions
    def table(self):
        return [[bool(r >> j & 1) for j in range(self.k)] for r in self.rows]

    def anames(self, mask):
        return {self.attributes[j] for j in bits(mask)}

    def onames(self, mask):
        return {self.objects[i] for i in bits(mask)}

    def amask(self, names):
        return mask_of(self.attributes.index(a) for a in names)

    def omask(self, names):
        return mask_of(self.objects.index(o) for o in names)

    def pairs(self):
        return [(self.objects[i], self.attributes[j])
                for i in range(self.n) for j in range(self.k)
                if self.rows[i] >> j & 1]

    def key(self):
        return (tuple(self.objects), tuple(self.attributes), tuple(self.rows))

    def copy(self):
        return Ref(self.objects, self.attributes, self.rows)

    # ---- derivation
    def intent(self, omask):
        """attributes shared by every object of omask"""
        r = self.all_atts
        for i in range(self.n):
            if omask >> i & 1:
                r &= self.rows[i]
        return r

    def extent(self, amask):
        """objects having every attribute of amask"""
        r = 0
        for i in range(self.n):
            if self.rows[i] & amask == amask:
                r |= 1 << i
        return r

    def aclose(self, amask):
        return self.intent(self.extent(amask))

    def oclose(self, omask):
        return self.extent(self.intent(omask))

    # ---- concepts
    def intents(self):
        """all closed attribute sets = all intersections of rows (with M)"""
        res = {self.all_atts}
        for r in self.rows:
            res |= {r & x for x in res}
        return res

    def concepts(self):
        return {(self.extent(b), b) for b in self.intents()}

    # ---- implications
    def pseudo_intents(self):
        """[(P, P'')] by definition, over all 2^k attribute sets"""
        if self.k > 9:
            return sorted(self.pseudo_intents_nc(),
                          key=lambda pc: (popcount(pc[0]), pc[0]))
        sets = sorted(range(1 << self.k), key=popcount)
        out = []
        for p in sets:
            c = self.aclose(p)
            if c == p:
                continue
            if all(not (q != p and q & p == q) or qc & p == qc
                   for q, qc in out):
                out.append((p, c))
        return out

    def telling(self):
        """sets of attributes: all of them if there are few"""
        if self.k <= 9:
            return range(1 << self.k)
        return sorted({p for p, _ in self.pseudo_intents_nc()}
                      | {1 << j for j in range(self.k)}
                      | {self.all_atts ^ 1 << j for j in range(self.k)}
                      | {0, self.all_atts})

    def pseudo_intents_nc(self):
        """the same, by next-closure over masks: usable for many attributes"""
        out = []
        k = self.k

        def lclose(s):
            ch = True
            while ch:
                ch = False
                for q, qc in out:
                    if q != s and q & s == q and qc & s != qc:
                        s |= qc
                        ch = True
            return s
        a = 0
        while True:
            c = self.aclose(a)
            if c != a:
                out.append((a, c))
            if a == self.all_atts:
                return out
            for j in range(k - 1, -1, -1):
                if a >> j & 1:
                    continue
                low = a & ((1 << j) - 1)
                b = lclose(low | 1 << j)
                if b & ((1 << j) - 1) == low:
                    a = b
                    break
            else:
                return out

    def transpose(self):
        cols = [mask_of(i for i in range(self.n) if self.rows[i] >> j & 1)
                for j in range(self.k)]
        return Ref(self.attributes, self.objects, cols)


def imp_closure(s, imps):
    """least superset of s respecting every (premise, conclusion) mask pair"""
    while True:
        t = s
        for p, c in imps:
            if p & t == p:
                t |= c
        if t == s:
            return s
        s = t


def respects(s, imps):
    return all(p & s != p or c & s == c for p, c in imps)


def covering(sets):
    """cover relation of a family of distinct masks under inclusion:
    {x: set of maximal members strictly below x}"""
    sets = list(sets)
    out = {}
    for x in sets:
        below = [y for y in sets if y != x and y & x == y]
        out[x] = {y for y in below
                  if not any(z != y and y & z == y for z in below)}
    return out


# ---- concept indices, exact
def istability(ref, ext, itt):
    objs = bits(ext)
    n = 0
    for m in range(1 << len(objs)):
        o = mask_of(objs[i] for i in bits(m))
        if ref.intent(o) == itt:
            n += 1
    return Fraction(n, 1 << len(objs))


def estability(ref, ext, itt):
    atts = bits(itt)
    n = 0
    for m in range(1 << len(atts)):
        a = mask_of(atts[i] for i in bits(m))
        if ref.extent(a) == ext:
            n += 1
    return Fraction(n, 1 << len(atts))


def separation(ref, ext, itt):
    sq = popcount(ext) * popcount(itt)
    if sq == 0:
        return Fraction(1)
    tot = sum(popcount(ref.rows[i]) for i in bits(ext))
    tot += sum(popcount(ref.extent(1 << j)) for j in bits(itt))
    return Fraction(sq, tot - sq)


def probability(ref, itt):
    """Probability that the attribute set is closed in a context with n
    independent objects, attribute m occurring with its observed frequency."""
    n = ref.n
    p = [Fraction(popcount(ref.extent(1 << j)), n) for j in range(ref.k)]
    pb = Fraction(1)
    for j in bits(itt):
        pb *= p[j]
    tot = Fraction(0)
    for k in range(n + 1):
        t = Fraction(comb(n, k)) * pb ** k * (1 - pb) ** (n - k)
        for j in range(ref.k):
            if not itt >> j & 1:
                t *= 1 - p[j] ** k
        tot += t
    return tot
