"""Histories of an exploration session."""
from fca import Implication
from fca.algorithms.exploration2 import exploration as lib

from mc import spaces
from mc.ref import Ref, imp_closure, respects
from mc.util import check_relation, imps_of, show_imps
from props import c06
from props.c23 import relative

ID = 'C24'
BOUNDS = {
    'quick': 'all histories of three steps (every accepted candidate, every '
             'counterexample to every candidate, every new object) from '
             'fourteen starting contexts up to 4x3, of five steps from all '
             'contexts with up to two objects over two attributes; in every '
             'state all steps that must be refused and changes of everything '
             'handed out; every pattern of up to four kinds of steps repeated '
             'to ten steps; whole sessions with every set of up to four '
             'objects over three attributes; '
             'sessions of up to 260 attributes or 140 objects',
    'thorough': 'four steps from these, six from the small ones; whole '
                'sessions with every set of objects over three attributes and '
                'of up to four over four',
}
STARTS = [
    ('str', 0, []), ('str', 1, []), ('str', 3, []), ('mixed', 2, [1]),
    ('str', 2, [3, 0]), ('rev', 3, [5]), ('shared', 3, [1, 2]),
    ('int', 3, [3, 6]), ('str', 3, [1, 2, 4]), ('str', 3, [7, 7]),
    ('intrev', 3, [3, 5, 6, 0]), ('tuple', 3, [0, 1, 3, 7]),
    ('twins', 2, [2, 1]), ('falsy', 2, [3]),
]
NEW = ['new', 'newer', 'newest', 'last', 'end', 'more', 'most', 'spare',
       'other', 'others', 'far', 'farther']
MAXN = 6
KINDS = [['accept'], ['add'], ['reject']]


class State:
    def __init__(self, ref, base=()):
        self.ref, self.base = ref, tuple(base)

    def moves(self, small=False, cap=MAXN):
        ref, base = self.ref, self.base
        opened = relative(ref, base)
        i = next(i for i, x in enumerate(NEW) if x not in ref.objects)

        def grown(m):
            return State(Ref(ref.objects + [NEW[i]], ref.attributes,
                             ref.rows + [m]), base)
        for p, c in opened:
            yield ['accept', p, c], [], State(ref, base + ((p, c),))
        for m in range(1 << ref.k):
            bad = [] if respects(m, base) else ['IllegalContextModification']
            if bad or ref.n < cap and not (small and m not in (0, 2, 5)):
                yield ['add', m, i], bad, None if bad else grown(m)
            for p, c in opened:
                if respects(m, [(p, c)]):
                    yield ['reject', p, c, m, i], ['FalseCounterexample'], None
                elif bad or ref.n < cap and not small:
                    yield (['reject', p, c, m, i], bad,
                           None if bad else grown(m))


def words(state, depth, small=False):
    if depth == 0:
        yield []
        return
    for op, errs, nxt in state.moves(small):
        if nxt is not None:
            for w in words(nxt, depth - 1, small):
                yield [op] + w


def refs():
    for n in range(3):
        for rows in spaces.multisets(n, 2):
            yield ['str', 2, list(rows)]


def cases(tier):
    q = tier == 'quick'
    for depth in range(4 if q else 5):
        for s in STARTS:
            for w in words(State(spaces.ref_of(*s)), depth, depth == 3 and
                           s[1] == 3 and len(s[2]) > 2):
                yield ['hist'] + list(s) + [w]
    for w in spaces.patterns(KINDS, 4 if q else 6):
        for s in STARTS:
            yield ['walk'] + list(s) + [w]
    for k in range(4):
        for size in range((1 << k) + 1):
            if not q or size < 5:
                for rows in spaces.rowsets(size, k):
                    yield ['whole', k, list(rows)]
    for k, rows in spaces.universes():
        if k not in (66, 67):
            yield ['large', k, rows]
    for s in refs():
        for w in words(State(spaces.ref_of(*s)), 5 if q else 6, True):
            yield ['hist'] + s + [w]
    if not q:
        for size in range(5):
            for rows in spaces.rowsets(size, 4):
                yield ['whole', 4, list(rows)]


def imp(ref, p, c):
    return Implication(ref.anames(p), ref.anames(c))


def call(session, s, op):
    ref = s.ref
    if op[0] == 'accept':
        session.accept_implication(imp(ref, op[1], op[2]))
    elif op[0] == 'add':
        session.get_context().add_object(NEW[op[2]], ref.anames(op[1]))
    else:
        session.reject_implication(imp(ref, op[1], op[2]), NEW[op[4]],
                                   ref.anames(op[3]))


def verify(st, session, cxt, s, what):
    ref = s.ref
    check_relation(st, cxt, ref, what)
    c = session.get_context()
    st.true(what + ': one context', session.context is c)
    st.eq(what + ': objects', list(c.objects), ref.objects)
    st.eq(what + ': attributes', list(c.attributes), ref.attributes)
    for i, o in enumerate(ref.objects):
        st.eq(what + ': intent', set(c.get_intent(o)),
              ref.anames(ref.rows[i]))
    for j, a in enumerate(ref.attributes):
        st.eq(what + ': extent', set(c.get_extent(a)),
              ref.onames(ref.extent(1 << j)))
    accepted = imps_of(ref, session.get_accepted_implications())
    st.transitions += 1
    if sorted(accepted) != sorted(s.base):
        st.eq(what + ': accepted', show_imps(ref, sorted(accepted)),
              show_imps(ref, sorted(s.base)))
    st.true(what + ': accepted implications hold',
            all(respects(r, accepted) for r in ref.rows))
    return c06.judge(st, ref, accepted, session.get_candidates(), what)


def spoil(session):
    """changes everything handed out"""
    c = session.get_context()
    for o in list(c.objects):
        c.get_intent(o).clear()
        c.get_intent(o).add('spoiled')
    for a in list(c.attributes):
        c.get_extent(a).clear()
    c.objects.append('spoiled')
    del c.objects[:1]
    c.attributes.append('spoiled')
    del c.attributes[:1]
    session.get_accepted_implications().append(Implication({'x'}, {'y'}))
    del session.get_accepted_implications()[:]
    given = session.get_candidates()
    for i in given:
        i.premise.clear()
    del given[:]


def run(case, st):
    if case[0] in ('whole', 'large'):
        return whole(case, st)
    _, scheme, k, rows, word = case
    s = State(spaces.ref_of(scheme, k, rows))
    cxt = spaces.make(s.ref)
    exploration = lib.Exploration(lib.ExplorationContext(cxt))
    if len(word) % 2:               # another context is taken instead
        exploration = lib.Exploration(lib.ExplorationContext(spaces.make(
            spaces.ref_of('str', 2, [1, 2]))))
        exploration.create_session()
        exploration.set_context(lib.ExplorationContext(cxt))
    session = exploration.create_session()
    verify(st, session, cxt, s, 'at the start')
    if case[0] == 'walk':
        for t in range(10):
            move = spaces.pick(s.moves(cap=10), word[t % len(word)], t)
            if move:
                call(session, s, move[0])
                s = move[2]
                verify(st, session, cxt, s, 'after step %d %s' % (t, move[0]))
        return st.state((s.ref.key(), s.base))
    for i, op in enumerate(word):
        call(session, s, op)
        s = next(nxt for o, _, nxt in s.moves() if o == op)
        got = verify(st, session, cxt, s, 'after step %d %s' % (i + 1, op))
        spoil(session)
        verify(st, session, cxt, s, 'after answers were changed')
        st.outcome(tuple(got))
    st.state((s.ref.key(), s.base))
    for op, errs, _ in s.moves():
        if errs:
            st.raises('refused: %s' % op,
                      tuple(getattr(lib, e) for e in errs), call, session,
                      s, op)
            verify(st, session, cxt, s, 'after the refused %s' % op)


def whole(case, st):
    _, k, rows = case
    universe = spaces.ref_of('str', k, rows)
    for first in (True, False):
        for small in (True, False):
            if case[0] == 'large' and first != small:
                continue
            cxt = spaces.make(Ref([], universe.attributes, []))
            session = lib.Exploration(
                lib.ExplorationContext(cxt)).create_session()
            order = list(range(universe.n))[::1 if small else -1]
            steps = 0
            while True:
                cand = session.get_candidates()
                if not cand:
                    break
                steps += 1
                st.true('the exploration ends', steps < 1000 + len(rows))
                asked = cand[0 if first else -1]
                p, c = imps_of(universe, [asked])[0]
                bad = [i for i in order
                       if not respects(universe.rows[i], [(p, c)])]
                if not bad:
                    session.accept_implication(asked)
                else:
                    session.reject_implication(
                        asked, universe.objects[bad[0]],
                        universe.anames(universe.rows[bad[0]]))
                now = Ref(cxt.objects, cxt.attributes,
                          [universe.amask(i) for i in cxt.intents()])
                acc = imps_of(now, session.get_accepted_implications())
                st.state((now.key(), tuple(acc)))
                c06.judge(st, now, acc, session.get_candidates(),
                          'while exploring')
            got = imps_of(universe, session.get_accepted_implications())
            st.outcome(tuple(sorted(got)))
            for p, c in sorted(got):
                st.raises('a premise alone', lib.IllegalContextModification,
                          session.get_context().add_object, 'another',
                          universe.anames(p))
                st.raises('a premise alone', lib.IllegalContextModification,
                          session.reject_implication,
                          imp(universe, p, c), 'another', universe.anames(p))
            check_relation(st, cxt, now, 'after refusals') if got else None
            for s in universe.telling():
                st.eq('accepted in the end, closure of %s' % s,
                      imp_closure(s, got), universe.aclose(s))
