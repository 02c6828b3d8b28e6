"""Histories of the interactive exploration of a context."""
from fca.algorithms import exploration as lib
from fca.algorithms.exploration import BasicExploration

from mc import spaces
from mc.ref import Ref, imp_closure, respects
from mc.util import Frozen, check_relation, imps_of, show_imps

ID = 'C22'
BOUNDS = {
    'quick': 'all histories of two steps (every confirmation, every '
             'counterexample to every open implication, every new and edited '
             'row and column) from thirteen starting contexts up to 3x3, of '
             'three from four up to 2x2; in every state all steps that must '
             'be refused; every pattern of up to two kinds of steps repeated '
             'to ten steps from all the contexts; '
             'explorations of up to 260 attributes or 140 objects',
    'thorough': 'histories of three steps from thirteen starting contexts, of '
                'four from three, with fewer new rows and columns; patterns '
                'of three kinds of steps',
}
STARTS = [
    ('str', 0, []), ('str', 1, [0]), ('str', 2, []), ('str', 0, [0, 0]),
    ('int', 2, [1, 2]), ('str', 2, [1, 3]), ('mixed', 2, [2, 2]),
    ('str', 2, [3, 0]), ('rev', 3, [5, 3]), ('shared', 3, [1, 6, 4]),
    ('str', 3, [3, 5, 6]), ('twins', 2, [2, 1]), ('falsy', 2, [3, 1]),
]
NEW = ['new', 'newer', 'newest', 'last', 'end', 'more', 'most', 'spare',
       'other', 'others', 'far']
MAXN = 5
KINDS = [[name, side] for name in ('confirm', 'counter', 'add', 'edit')
         for side in (0, 1)]


class State:
    """the reference: a context and the confirmed implications as pairs of
    masks; new objects and attributes get the highest numbers, so masks stay
    meaningful"""

    def __init__(self, ref, ca=(), co=()):
        self.ref, self.ca, self.co = ref, tuple(ca), tuple(co)
        self.t = ref.transpose()
        self.known = None

    @property
    def bases(self):
        if self.known is None:
            self.known = (sorted(self.ref.pseudo_intents()),
                          sorted(self.t.pseudo_intents()))
        return self.known

    def open(self, side):
        conf = (self.ca, self.co)[side]
        return [x for x in self.bases[side] if x not in conf]

    def name(self, names):
        return next(i for i, x in enumerate(NEW) if x not in names)

    def moves(self, small=False, cap=MAXN):
        """(operation, name of the expected error(s), next state)"""
        ref = self.ref
        n, k = ref.n, ref.k
        for side in (0, 1):
            width = (k, n)[side]
            conf = (self.ca, self.co)[side]
            grow = (n, k)[side] < cap
            names = (ref.objects, ref.attributes)[side]
            for p, c in self.open(side):
                yield ['confirm', side, p], (), self.confirm(side, p, c)
                for m in range(1 << width):
                    if small and m not in (p, p | 1, p | 2):
                        continue
                    errs = []
                    if p & m != p:
                        errs.append('NotCounterExamplePremise')
                    if c & m == c:
                        errs.append('NotCounterExampleConclusion')
                    if not respects(m, conf):
                        errs.append('BasisConflict')
                    if not errs and not grow:
                        continue
                    yield (['counter', side, p, m, self.name(names)], errs,
                           None if errs else self.add(side, m))
            for m in range(1 << width):
                bad = not respects(m, conf)
                if not bad and (not grow or small and m not in (0, 1, 6)):
                    continue
                yield (['add', side, m, self.name(names)],
                       ['BasisConflict'] if bad else [],
                       None if bad else self.add(side, m))
            for i in range((n, k)[side]):
                for m in range(1 << width):
                    nxt = self.edit(side, i, m)
                    bad = not nxt.sound()
                    if not bad and small and m not in (1, 5):
                        continue
                    yield (['edit', side, i, m],
                           ['BasisConflict'] if bad else [],
                           None if bad else nxt)

    def confirm(self, side, p, c):
        s = State(self.ref, self.ca, self.co)
        if side:
            s.co += ((p, c),)
        else:
            s.ca += ((p, c),)
        return s

    def add(self, side, m):
        r = self.ref.copy() if side == 0 else self.t.copy()
        names = (self.ref.objects, self.ref.attributes)[side]
        r = Ref(r.objects + [NEW[self.name(names)]], r.attributes,
                r.rows + [m])
        return State(r if side == 0 else r.transpose(), self.ca, self.co)

    def edit(self, side, i, m):
        r = self.ref.copy() if side == 0 else self.t.copy()
        r.rows[i] = m
        return State(r if side == 0 else r.transpose(), self.ca, self.co)

    def sound(self):
        return (all(respects(r, self.ca) for r in self.ref.rows)
                and all(respects(r, self.co) for r in self.t.rows))


def start(s):
    scheme, k, rows = STARTS[s]
    return spaces.ref_of(scheme, k, rows)


def words(state, depth, small):
    yield []
    if depth:
        for op, errs, nxt in state.moves(small):
            if nxt is not None:
                for w in words(nxt, depth - 1, small):
                    yield [op] + w


def cases(tier):
    q = tier == 'quick'
    for depth in (1, 2) if q else (1, 2, 3):
        for s in range(len(STARTS)):
            for w in words(State(start(s)), depth, depth == 3):
                if len(w) == depth or depth == 1:
                    yield [s, w]
    for s in (1, 3, 4, 5) if q else (1, 4, 5):
        d = 3 if q else 4
        for w in words(State(start(s)), d, True):
            if len(w) == d:
                yield [s, w]
    for k, rows in [*spaces.universes(), spaces.chain(22)]:
        for first in (True, False):
            for side in (0, 1):
                yield ['large', k, rows, first, side]
    for s in range(len(STARTS)):
        for w in spaces.patterns(KINDS, 2 if q else 3):
            yield ['walk', s, w]


def large(case, st):
    """an exploration of a larger universe with truthful answers"""
    _, k, rows, first, side = case
    universe = spaces.ref_of('str', k, rows)
    some = [0, len(rows) // 2] if len(rows) > 1 else []
    ref = Ref([universe.objects[i] for i in some], universe.attributes,
              [universe.rows[i] for i in some])
    cxt = spaces.make(ref.transpose() if side else ref)
    frozen = Frozen(cxt)
    exp = BasicExploration(cxt)
    for step in range(400):
        opened = (exp.attribute_implications, exp.object_implications)[side]
        conf = (exp.confirmed_attribute_implications,
                exp.confirmed_object_implications)[side]
        done = imps_of(universe, conf)
        judge(st, universe, 'open implications', opened,
              sorted(set(ref.pseudo_intents()) - set(done)))
        if not opened:
            break
        i = 0 if first else len(opened) - 1
        (p, c), = imps_of(universe, [opened[i]])
        bad = [x for x in range(universe.n)
               if not respects(universe.rows[x], [(p, c)])]
        if bad:
            x = bad[0 if first else -1]
            (exp.counter_example_for_attr_implication,
             exp.counter_example_for_obj_implication)[side](
                universe.objects[x], universe.anames(universe.rows[x]), i)
            ref = Ref(ref.objects + [universe.objects[x]], ref.attributes,
                      ref.rows + [universe.rows[x]])
        else:
            (exp.confirm_attribute_implication,
             exp.confirm_object_implication)[side](i)
        check_relation(st, exp.context, ref.transpose() if side else ref,
                       'step %d' % step)
        st.state((ref.key(), len(conf)))
    st.true('the exploration ends', not opened)
    if universe.n < 30:             # what is true stays admissible
        for x in range(universe.n):
            if universe.objects[x] not in ref.objects:
                (exp.add_object, exp.add_attribute)[side](
                    universe.anames(universe.rows[x]), universe.objects[x])
                ref = Ref(ref.objects + [universe.objects[x]],
                          ref.attributes, ref.rows + [universe.rows[x]])
    for p, c in sorted(done):
        st.raises('a premise alone', lib.BasisConflict,
                  (exp.add_object, exp.add_attribute)[side],
                  universe.anames(p), 'another')
        if universe.n:
            st.raises('an edit to a premise alone', lib.BasisConflict,
                      (exp.edit_object, exp.edit_attribute)[side],
                      universe.anames(p), ref.objects[-1])
    for i, o in enumerate(ref.objects):
        for j, a in enumerate(ref.attributes):
            row = ref.rows[i] ^ 1 << j
            if not respects(row, done):
                st.raises('a flipped cell', lib.BasisConflict,
                          (exp.edit_object, exp.edit_attribute)[side],
                          ref.anames(row), o)
                st.raises('a flipped cell', lib.BasisConflict,
                          (exp.edit_attribute, exp.edit_object)[side],
                          ref.onames(ref.extent(1 << j) ^ 1 << i), a)
    check_relation(st, exp.context, ref.transpose() if side else ref,
                   'after refusals')
    st.eq('still confirmed', sorted(imps_of(universe, (
        exp.confirmed_attribute_implications,
        exp.confirmed_object_implications)[side])), sorted(done))
    for s in universe.telling():
        st.eq('confirmed in the end, closure of %s' % s,
              imp_closure(s, done), universe.aclose(s))
    frozen.check(st, 'the exploration')


def verify(st, exp, s, what):
    ref = s.ref
    check_relation(st, exp.context, ref, what)
    for side, r in ((0, ref), (1, s.t)):
        opened = (exp.attribute_implications, exp.object_implications)[side]
        conf = (exp.confirmed_attribute_implications,
                exp.confirmed_object_implications)[side]
        kind = ('attribute', 'object')[side]
        judge(st, r, '%s: open %s implications' % (what, kind), opened,
              s.open(side))
        judge(st, r, '%s: confirmed %s implications' % (what, kind), conf,
              sorted((s.ca, s.co)[side]))
        got = imps_of(r, conf)
        st.true('%s: confirmed %s implications hold' % (what, kind),
                all(respects(row, got) for row in r.rows))
        both = got + imps_of(r, opened)
        st.true('%s: %s implications entail what holds' % (what, kind),
                all(imp_closure(p, both) == c for p, c in s.bases[side]))


def judge(st, ref, what, imps, want):
    got = sorted(imps_of(ref, imps))
    st.transitions += 1
    if got != want:
        st.eq(what, show_imps(ref, got), show_imps(ref, want))


def index(imps, r, p):
    return [r.amask(i.premise) for i in imps].index(p)


def call(exp, s, op):
    ref, side = s.ref, op[1]
    r = (ref, s.t)[side]
    opened = (exp.attribute_implications, exp.object_implications)[side]
    if op[0] == 'confirm':
        i = index(opened, r, op[2])
        (exp.confirm_attribute_implication,
         exp.confirm_object_implication)[side](i)
    elif op[0] == 'counter':
        i = index(opened, r, op[2])
        (exp.counter_example_for_attr_implication,
         exp.counter_example_for_obj_implication)[side](
            NEW[op[4]], r.anames(op[3]), i)
    elif op[0] == 'add':
        (exp.add_object, exp.add_attribute)[side](r.anames(op[2]), NEW[op[3]])
    elif op[0] == 'edit':
        given = r.anames(op[3])
        (exp.edit_object, exp.edit_attribute)[side](given, r.objects[op[2]])


def walk(st, number, pattern):
    ref = start(number)
    exp = BasicExploration(spaces.make(ref))
    s = State(ref)
    for t in range(10):
        move = spaces.pick(s.moves(cap=7), pattern[t % len(pattern)], t)
        if move:
            call(exp, s, move[0])
            s = move[2]
            verify(st, exp, s, 'after step %d %s' % (t, move[0]))
    st.state((s.ref.key(), s.ca, s.co))


def run(case, st):
    if case[0] == 'large':
        return large(case, st)
    if case[0] == 'walk':
        return walk(st, *case[1:])
    number, word = case
    ref = start(number)
    initial = spaces.make(ref)
    frozen = Frozen(initial)
    exp = BasicExploration(initial)
    s = State(ref)
    verify(st, exp, s, 'at the start')
    for i, op in enumerate(word):
        call(exp, s, op)
        op = list(op)
        s = next(nxt for o, _, nxt in s.moves() if o == op)
        verify(st, exp, s, 'after step %d %s' % (i + 1, op))
    st.state((s.ref.key(), s.ca, s.co))
    st.outcome((s.bases, s.ca, s.co))
    for op, errs, _ in s.moves():
        if errs:
            st.raises('refused: %s' % op,
                      tuple(getattr(lib, e) for e in errs), call, exp, s, op)
            verify(st, exp, s, 'after the refused %s' % op)
    for what, fn in (
            ('editing an unknown object',
             lambda: exp.edit_object(set(), 'unknown')),
            ('editing an unknown attribute',
             lambda: exp.edit_attribute(set(), 'unknown')),
            ('confirming nothing',
             lambda: exp.confirm_attribute_implication(99))):
        st.raises(what, Exception, fn)
        verify(st, exp, s, 'after ' + what)
    frozen.check(st, 'the exploration')
    if all(type(x) is str for x in s.ref.objects + s.ref.attributes):
        said = repr(exp)
        for part in ([exp.context] + list(exp.attribute_implications) +
                     list(exp.confirmed_attribute_implications) +
                     list(exp.object_implications) +
                     list(exp.confirmed_object_implications)):
            st.true('the text shows', str(part) in said, lambda: str(part))
