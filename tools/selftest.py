"""Cross-checks of the reference model: two independent characterisations of
everything it computes, over all contexts up to 3x3."""
import itertools
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.ref import (Ref, covering, imp_closure, respects)


def main():
    total = 0
    for n in range(4):
        for k in range(4):
            for rows in itertools.product(range(1 << k), repeat=n):
                r = Ref(list(range(n)), list(range(k)), rows)
                total += 1
                closed = {b for b in range(1 << k) if r.aclose(b) == b}
                assert closed == r.intents(), rows
                pi = r.pseudo_intents()
                assert sorted(pi) == sorted(r.pseudo_intents_nc()), rows
                # the basis has exactly the intents as its models
                assert {b for b in range(1 << k)
                        if respects(b, pi)} == closed, rows
                assert all(imp_closure(b, pi) == r.aclose(b)
                           for b in range(1 << k)), rows
                # Galois connection and transposition
                t = r.transpose()
                for a in range(1 << k):
                    assert r.extent(a) == t.intent(a)
                    for o in range(1 << n):
                        assert ((o & ~r.extent(a) == 0)
                                == (a & ~r.intent(o) == 0))
                cov = covering(closed)
                for x in closed:
                    for y in cov[x]:
                        assert y & x == y and y != x
                        assert not any(z not in (x, y) and y & z == y
                                       and z & x == z for z in closed)
    print('reference model: %d contexts cross-checked' % total)


main()
