"""Histories of the exploration database, and whole explorations with an
expert who tells the truth."""
import contextlib
import io
import itertools

from fca import Implication
from fca.partial_context import PartialContext
from fca.algorithms.exploration_ import exploration as lib

from mc import spaces
from mc.ref import Ref, bits, imp_closure, mask_of, respects
from mc.util import check_relation, imps_of, show_imps
from props import c06

ID = 'C23'
BOUNDS = {
    'quick': 'all histories of two steps (every confirmation and withdrawal, '
             'every new, edited, renamed and deleted example and attribute, '
             'every counterexample) from twelve starting points up to 3x3, of '
             'three with a smaller choice from five; in every state all steps '
             'that must be refused; whole explorations of every set of up to '
             'four objects over up to three attributes from every part of it, '
             'in four ways; partial examples: histories of three steps over '
             'two and of two over three attributes; every pattern of up to '
             'two kinds of steps repeated to ten steps from all starting '
             'points and, with partial examples, over one to three '
             'attributes; '
             'explorations of up to 260 attributes or 140 objects',
    'thorough': 'histories of three steps from all starting points, of four '
                'from three; every universe over three attributes; partial '
                'examples one step longer; patterns of three kinds of steps',
}
# scheme, attributes, rows, number of confirmed pseudo-intents
STARTS = [
    ('str', 1, [0], 0), ('str', 2, [], 1), ('str', 0, [0], 0),
    ('str', 2, [1, 3], 1), ('mixed', 2, [1, 2], 0), ('str', 2, [2, 2], 2),
    ('rev', 3, [5, 3], 1), ('int', 3, [1, 2, 4], 0), ('shared', 3, [3, 6], 9),
    ('str', 3, [7, 0, 1], 1), ('twins', 2, [2, 1], 0), ('falsy', 2, [3, 1], 1),
]
NEW = ['new', 'newer', 'newest', 'last', 'very last', 'end', 'more', 'most',
       'spare', 'other', 'others', 'far', 'farther']
MAXN = 5
KINDS = [[x] for x in ('confirm', 'unconfirm', 'add', 'reject', 'reject2',
                       'delete', 'edit', 'addattr', 'editattr', 'delattr',
                       'touch')]
PKINDS = [[x] for x in ('confirm', 'confirm both', 'add', 'reject',
                        'complete')]


def relative(ref, base):
    """premises closed under the base that need an implication"""
    out = []
    for p in sorted(range(1 << ref.k), key=lambda m: (bin(m).count('1'), m)):
        c = ref.aclose(p)
        if c != p and respects(p, base) and all(
                q & p != q or q == p or qc & p == qc for q, qc in out):
            out.append((p, c))
    return out


class State:
    """a context and the confirmed implications as pairs of masks"""

    def __init__(self, ref, base=()):
        self.ref, self.base = ref, tuple(base)

    def fresh(self, names):
        return next(i for i, x in enumerate(NEW) if x not in names)

    def moves(self, small=False, cap=MAXN):
        """(operation, names of possible errors, next state)"""
        ref, base = self.ref, self.base
        n, k = ref.n, ref.k
        o, a = ref.objects, ref.attributes
        fo, fa = self.fresh(o), self.fresh(a)
        ILL, NUO, NUA = ('IllegalContextModification', 'NotUniqueObjectName',
                         'NotUniqueAttributeName')
        opened = relative(ref, base)
        conf = list(opened)
        if not small:
            conf += [(p, c & ~p) for p, c in opened if p]
            conf += [(1 << j, ref.aclose(1 << j)) for j in range(k)]
        for p, c in dict.fromkeys(conf):
            yield ['confirm', p, c], [], State(ref, base + ((p, c),))
        for i in range(len(base)):
            if base[i] not in base[:i]:
                yield ['unconfirm', i], [], State(ref, base[:i]
                                                  + base[i + 1:])
        intents = range(1 << k)
        for m in intents:
            bad = [] if respects(m, base) else [ILL]
            if bad or n < cap and not (small and m not in (0, 1, 5)):
                yield (['add', m, fo], bad, None if bad else
                       State(Ref(o + [NEW[fo]], a, ref.rows + [m]), base))
            if n and m in (0, 1, 3):
                yield ['readd', m, n - 1], bad + [NUO], None
            for p, c in opened:
                bad = [] if respects(m, base) else [ILL]
                if respects(m, [(p, c)]):
                    yield ['reject', p, c, m, fo], ['NotCounterexample'], None
                elif bad or n < cap and not small:
                    yield (['reject', p, c, m, fo], bad, None if bad else
                           State(Ref(o + [NEW[fo]], a, ref.rows + [m]),
                                 base))
        if opened and n + 1 < cap and not small:
            p, c = opened[0]
            for m in intents:
                if respects(m, base) and not respects(m, [(p, c)]):
                    both = [m, ref.all_atts]
                    yield (['reject2', p, c, both, fo], [], State(
                        Ref(o + [NEW[fo], 'second'], a, ref.rows + both)
                        if 'second' not in o else ref, base)
                        if 'second' not in o else None)
        for i in range(n):
            yield (['delete', i], [],
                   State(Ref(o[:i] + o[i + 1:], a,
                             ref.rows[:i] + ref.rows[i + 1:]), base))
            for m in intents:
                bad = [] if respects(m, base) else [ILL]
                rows = ref.rows[:i] + [m] + ref.rows[i + 1:]
                if bad or not (small and m not in (1, 6)):
                    yield (['edit', i, -1, m], bad,
                           None if bad else State(Ref(o, a, rows), base))
                if bad or m in (ref.rows[i], ref.all_atts):
                    new = o[:i] + [NEW[fo]] + o[i + 1:]
                    yield (['edit', i, fo, m], bad,
                           None if bad else State(Ref(new, a, rows), base))
                if n > 1:
                    yield ['clash', i, (i + 1) % n, m], bad + [NUO], None
        for m in range(1 << n):
            if k < cap and not (small and m not in (0, 1, 5)):
                yield (['addattr', m, fa], [],
                       State(Ref(o, a + [NEW[fa]],
                                 [r | (m >> i & 1) << k
                                  for i, r in enumerate(ref.rows)]), base))
            if k and m < 2:
                yield ['readdattr', m, k - 1], [NUA], None
            for j in range(k):
                b = 1 << j
                rows = [r & ~b | (b if m >> i & 1 else 0)
                        for i, r in enumerate(ref.rows)]
                bad = [] if all(respects(r, base) for r in rows) else [ILL]
                if bad or not (small and m not in (1, 6)):
                    yield (['editattr', j, -1, m], bad,
                           None if bad else State(Ref(o, a, rows), base))
                if bad or m in (ref.extent(b), ref.all_objs):
                    new = a[:j] + [NEW[fa]] + a[j + 1:]
                    yield (['editattr', j, fa, m], bad,
                           None if bad else State(Ref(o, new, rows), base))
                if k > 1:
                    yield ['clashattr', j, (j + 1) % k, m], bad + [NUA], None
        for j in range(k):
            used = any((p | c) >> j & 1 for p, c in base)
            yield ['delattr', j], [ILL] if used else [], None if used \
                else self.without(j)
        yield ['touch'], [], State(ref, base)

    def without(self, j):
        keep = [x for x in range(self.ref.k) if x != j]

        def cut(m):
            return mask_of(i for i, x in enumerate(keep) if m >> x & 1)
        ref = self.ref
        return State(Ref(ref.objects, [ref.attributes[x] for x in keep],
                         [cut(r) for r in ref.rows]),
                     [(cut(p), cut(c)) for p, c in self.base])


def start(number):
    scheme, k, rows, some = STARTS[number]
    ref = spaces.ref_of(scheme, k, rows)
    return State(ref, ref.pseudo_intents()[:some])


def words(state, depth, small):
    yield []
    if depth:
        for op, errs, nxt in state.moves(small):
            if nxt is not None:
                for w in words(nxt, depth - 1, small):
                    yield [op] + w


def cases(tier):
    q = tier == 'quick'
    for depth in (1, 2) if q else (1, 2, 3):
        for s in range(len(STARTS)):
            for w in words(start(s), depth, depth == 3):
                if len(w) == depth or depth == 1:
                    yield ['hist', s, w]
    for k in range(4):
        for size in range((1 << k) + 1):
            if q and size > 4:
                continue
            for rows in spaces.rowsets(size, k):
                for some in range(1 << size):
                    if size <= 3 or some in (0, 1, 6, 15):
                        yield ['whole', k, list(rows), some]
    for k, rows in spaces.universes():
        n = len(rows)
        parts = (0, (1 << n) - 1, (1 << n) - 8 & (1 << n) - 1, 5)
        for some in () if k == 66 else parts[1:2] if k == 67 else parts:
            yield ['large', k, rows, some]
    for k, rows in [*spaces.universes(), spaces.chain(24)]:
        yield ['loaded', k, rows]
    for k, depth in ((1, 3), (2, 2), (3, 1), (2, 3), (3, 2)) + (
            () if q else ((2, 4), (3, 3))):
        for w in pwords(PState(k), depth):
            if len(w) == depth:
                yield ['partial', k, w]
    for w in spaces.patterns(KINDS, 2 if q else 3):
        for s in range(len(STARTS)):
            yield ['walk', s, w]
    for w in spaces.patterns(PKINDS, 3 if q else 5):
        for k in (1, 2, 3):
            yield ['pwalk', k, w]
    for s in (0, 1, 3, 4, 5) if q else (0, 3, 4):
        d = 3 if q else 4
        for w in words(start(s), d, True):
            if len(w) == d:
                yield ['hist', s, w]


# ---------------------------------------------------------------- histories

class Expert:
    def __init__(self, answer):
        self.answer = answer

    def provide_counterexample(self, imp):
        return self.answer


def imp(ref, p, c):
    return Implication(ref.anames(p), ref.anames(c))


def call(db, s, op):
    ref, name = s.ref, op[0]
    o, a = ref.objects, ref.attributes
    if name == 'confirm':
        (lib.AttributeExploration(db, None) if ref.n % 2 else
         db).confirm_implication(imp(ref, op[1], op[2]))
    elif name == 'unconfirm':
        (lib.AttributeExploration(db, None) if ref.n % 2 else
         db).unconfirm_implication(imp(ref, *s.base[op[1]]))
    elif name == 'add':
        db.add_example(NEW[op[2]], ref.anames(op[1]))
    elif name == 'readd':
        db.add_example(o[op[2]], ref.anames(op[1]))
    elif name == 'reject':
        expl = lib.AttributeExploration(
            db, Expert((NEW[op[4]], ref.anames(op[3]))))
        expl.reject_implication(imp(ref, op[1], op[2]))
    elif name == 'reject2':
        expl = lib.AttributeExploration(
            db, Expert(([NEW[op[4]], 'second'],
                        [ref.anames(m) for m in op[3]])))
        expl.reject_implication(imp(ref, op[1], op[2]))
    elif name == 'delete':
        db.delete_example(o[op[1]])
    elif name == 'edit':
        old = o[op[1]]
        db.edit_example(old if op[2] < 0 else NEW[op[2]], old,
                        ref.anames(op[3]))
    elif name == 'clash':
        db.edit_example(o[op[2]], o[op[1]], ref.anames(op[3]))
    elif name == 'addattr':
        db.add_attribute(NEW[op[2]], ref.onames(op[1]))
    elif name == 'readdattr':
        db.add_attribute(a[op[2]], ref.onames(op[1]))
    elif name == 'editattr':
        old = a[op[1]]
        db.edit_attribute(old if op[2] < 0 else NEW[op[2]], old,
                          ref.onames(op[3]))
    elif name == 'clashattr':
        db.edit_attribute(a[op[2]], a[op[1]], ref.onames(op[3]))
    elif name == 'delattr':
        db.delete_attribute(a[op[1]])
    elif name == 'touch':
        db.touch()


def verify(st, db, cxt, s, what):
    ref = s.ref
    check_relation(st, cxt, ref, what)
    st.eq(what + ': objects of the database', list(db.objects), ref.objects)
    st.eq(what + ': attributes of the database', list(db.attributes),
          ref.attributes)
    base = imps_of(ref, db.base)
    want = sorted((p, p | c) for p, c in s.base)
    st.transitions += 1
    if sorted(base) != want:
        st.eq(what + ': base', show_imps(ref, sorted(base)),
              show_imps(ref, want))
    st.true(what + ': every example respects the base',
            all(respects(r, base) for r in ref.rows))
    got = c06.judge(st, ref, base, db.open_implications, what)
    # what the caller does with the lists is his own business
    del db.base[:], db.open_implications[:]
    st.eq(what + ': lists handed out', (len(db.base),
                                        len(db.open_implications)),
          (len(base), len(got)))
    return got


def run(case, st):
    {'hist': history, 'loaded': loaded, 'whole': whole, 'large': whole,
     'partial': partial, 'walk': walk,
     'pwalk': pwalk}[case[0]](case, st)


def walk(case, st):
    """a short pattern of steps over and over again"""
    _, number, pattern = case
    s = start(number)
    cxt = spaces.make(s.ref)
    db = lib.ExplorationDB(cxt, [imp(s.ref, p, c) for p, c in s.base])
    for t in range(10):
        move = spaces.pick(s.moves(cap=6), pattern[t % len(pattern)], t)
        if move:
            call(db, s, move[0])
            s = move[2]
            verify(st, db, cxt, s, 'after step %d %s' % (t, move[0]))
    st.state((s.ref.key(), s.base))


def pwalk(case, st):
    _, k, pattern = case
    with contextlib.redirect_stdout(io.StringIO()):
        s = PState(k)
        cxt = PartialContext([], [], [], ['m%02d' % j for j in range(k)])
        db = lib.ExplorationDB(cxt, [])
        for t in range(10):
            move = spaces.pick(s.moves(), pattern[t % len(pattern)], t)
            if move:
                pcall(db, s, move[0])
                s = move[2]
                pverify(st, db, cxt, s, 'after step %d %s' % (t, move[0]))
        st.state(('partial', k, s.rows, s.base))


def history(case, st):
    _, number, word = case
    s = start(number)
    cxt = spaces.make(s.ref)
    db = lib.ExplorationDB(cxt, [imp(s.ref, p, c) for p, c in s.base])
    verify(st, db, cxt, s, 'at the start')
    for i, op in enumerate(word):
        call(db, s, op)
        s = next(nxt for o, _, nxt in s.moves() if o == op)
        got = verify(st, db, cxt, s, 'after step %d %s' % (i + 1, op))
        st.outcome(tuple(got))
    st.state((s.ref.key(), s.base))
    for op, errs, _ in s.moves():
        if errs:
            st.raises('refused: %s' % op,
                      tuple(getattr(lib, e) for e in errs), call, db, s, op)
            verify(st, db, cxt, s, 'after the refused %s' % op)
    o = s.ref.objects[0] if s.ref.n else 'unknown'
    for what, fn in (
            ('deleting an unknown example',
             lambda: db.delete_example('unknown')),
            ('editing an unknown example',
             lambda: db.edit_example('unknown', 'unknown', set())),
            ('renaming an unknown example',
             lambda: db.edit_example('other', 'unknown', set())),
            ('deleting an unknown attribute',
             lambda: db.delete_attribute('unknown')),
            ('editing an unknown attribute',
             lambda: db.edit_attribute('other', 'unknown', set())),
            ('withdrawing what was not confirmed',
             lambda: db.unconfirm_implication(
                 Implication({'unknown'}, {'other'})))):
        st.raises(what, Exception, fn)
        verify(st, db, cxt, s, 'after ' + what)


# -------------------------------------------------------- whole explorations

def whole(case, st):
    _, k, rows, some = case
    universe = spaces.ref_of('str', k, rows)
    for first in (True, False):
        for small in (True, False):
            for confirmed in (False, True):
                if case[0] == 'large' and (first, confirmed) != (
                        small, not small):
                    continue
                explore(st, universe, bits(some), first, small, confirmed)


def explore(st, universe, some, first, small, confirmed):
    ref = Ref([universe.objects[i] for i in some], universe.attributes,
              [universe.rows[i] for i in some])
    base = []
    if confirmed:
        base = universe.pseudo_intents()[-1:]
        if not base:
            return
    cxt = spaces.make(ref)
    db = lib.ExplorationDB(cxt, [imp(ref, p, c) for p, c in base])

    class Truthful:
        def provide_counterexample(self, what):
            for i in (range(universe.n) if small
                      else range(universe.n - 1, -1, -1)):
                intent = universe.anames(universe.rows[i])
                if what.premise <= intent and not what.conclusion <= intent:
                    return universe.objects[i], intent
    expl = lib.AttributeExploration(db, Truthful())
    steps = 0
    while expl.get_open_implications():
        steps += 1
        st.true('the exploration ends', steps < 1000 + universe.n)
        asked = expl.get_open_implications()[0 if first else -1]
        p, c = imps_of(universe, [asked])[0]
        if universe.aclose(p) & c == c:
            expl.confirm_implication(asked)
        else:
            expl.reject_implication(asked)
        now = Ref(cxt.objects, cxt.attributes,
                  [universe.amask(i) for i in cxt.intents()])
        st.state((now.key(), tuple(imps_of(now, db.base))))
        c06.judge(st, now, imps_of(now, db.base), expl.get_open_implications(),
                  'while exploring')
    got = imps_of(universe, db.base)
    st.outcome(tuple(sorted(got)))
    for s in universe.telling():
        st.eq('what is confirmed in the end, closure of %s' % s,
              imp_closure(s, got), universe.aclose(s))
    for i, (p, c) in enumerate(got[len(base):]):
        i += len(base)
        st.true('every confirmed implication was needed at its time',
                c & ~imp_closure(p, got[:i]))
    ref = Ref(cxt.objects, cxt.attributes,
              [universe.amask(i) for i in cxt.intents()])
    refusals(st, db, cxt, ref, got)


def loaded(case, st):
    """a database opened with all its knowledge"""
    _, k, rows = case
    ref = spaces.ref_of('str', k, rows)
    cxt = spaces.make(ref)
    base = ref.pseudo_intents()
    db = lib.ExplorationDB(cxt, [imp(ref, p, c) for p, c in base])
    st.eq('open', len(db.open_implications), 0)
    refusals(st, db, cxt, ref, base)
    st.state((ref.key(), tuple(base)))


def refusals(st, db, cxt, ref, got):
    ILL = lib.IllegalContextModification
    for p, c in got:
        st.raises('a premise alone', ILL, db.add_example, 'another',
                  ref.anames(p))
        for j in bits(p | c):
            st.raises('an attribute in use', ILL, db.delete_attribute,
                      ref.attributes[j])
        for o in ref.objects[:1] + ref.objects[-1:]:
            st.raises('an edit to a premise alone', ILL, db.edit_example,
                      'another', o, ref.anames(p))
    for i in range(ref.n):
        for j, a in enumerate(ref.attributes):
            row = ref.rows[i] ^ 1 << j
            if not respects(row, got):
                st.raises('a flipped cell', ILL, db.edit_attribute, a, a,
                          ref.onames(ref.extent(1 << j) ^ 1 << i))
    check_relation(st, cxt, ref, 'after refusals')
    st.eq('base after refusals', imps_of(ref, db.base), got)


# ----------------------------------------------------------- partial examples

class PState:
    def __init__(self, k, rows=(), base=()):
        self.k, self.rows, self.base = k, tuple(rows), tuple(base)

    def xq(self, p):
        r = (1 << self.k) - 1
        for x, q in self.rows:
            if p & x == p:
                r &= q
        return r

    def completed(self, base):
        """None if some object has no completion"""
        rows = []
        for x, q in self.rows:
            nx = imp_closure(x, base)
            if nx & ~q:
                return None
            nq = nx
            for j in bits(q & ~nx):
                if imp_closure(nx | 1 << j, base) & ~q == 0:
                    nq |= 1 << j
            rows.append((nx, nq))
        return PState(self.k, rows, base)

    def moves(self):
        unrefuted = [(p, self.xq(p)) for p in range(1 << self.k)]
        unrefuted = [(p, c) for p, c in unrefuted
                     if c & ~imp_closure(p, self.base)]
        for p, c in unrefuted:
            nxt = self.completed(self.base + ((p, c),))
            yield ['confirm', p, c], [] if nxt else ['ValueError'], nxt
        for two in itertools.permutations(unrefuted[:1] + unrefuted[-2:], 2):
            nxt = self.completed(self.base + two)
            yield (['confirm both', [list(x) for x in two]],
                   [] if nxt else ['ValueError'], nxt)
        for q in range(1 << self.k):
            for x in range(1 << self.k):
                if x & ~q:
                    if x in (1, 3) and q in (0, 2):
                        yield ['add', x, q], ['Exception'], None
                    continue
                ok = imp_closure(x, self.base) & ~q == 0
                nxt = PState(self.k, self.rows + ((x, q),), self.base)
                yield (['add', x, q],
                       [] if ok else ['IllegalContextModification'],
                       nxt if ok else None)
                for p, c in unrefuted[:2]:
                    if p & x == p and c & ~q:
                        yield (['reject', p, c, x, q],
                               [] if ok else ['IllegalContextModification'],
                               nxt.completed(self.base) if ok else None)
                    elif x in (0, p) or ok:
                        yield (['reject', p, c, x, q],
                               ['NotCounterexample'], None)
        for x, q in ((0, 0), (0, 1)):
            if self.rows:
                yield ['readd', x, q], ['Exception'], None
        yield ['complete'], [], self.completed(self.base)


def pwords(state, depth):
    yield []
    if depth:
        for op, errs, nxt in state.moves():
            if nxt is not None and len(nxt.rows) < 5:
                for w in pwords(nxt, depth - 1):
                    yield [op] + w


def pcall(db, s, op):
    names = ['m%02d' % j for j in range(s.k)]

    def a(m):
        return {names[j] for j in bits(m)}
    name = 'p%d' % len(s.rows)
    if op[0] == 'confirm':
        lib.AttributeExploration(db, None).confirm_implication(
            Implication(a(op[1]), a(op[2])))
    elif op[0] == 'confirm both':
        lib.AttributeExploration(db, None).confirm_implications(
            [Implication(a(p), a(c)) for p, c in op[1]])
    elif op[0] == 'add':
        db.add_example(name, (a(op[1]), a(op[2])))
    elif op[0] == 'readd':
        db.add_example('p0', (a(op[1]), a(op[2])))
    elif op[0] == 'complete':
        db.complete()
    else:
        lib.AttributeExploration(db, Expert(
            ([name], [(a(op[3]), a(op[4]))]))).reject_implication(
                Implication(a(op[1]), a(op[2])))


def pverify(st, db, cxt, s, what):
    objects = ['p%d' % i for i in range(len(s.rows))]
    names = ['m%02d' % j for j in range(s.k)]
    st.eq(what + ': objects', list(db.objects), objects)
    ref = Ref(objects, names, [x for x, q in s.rows])
    check_relation(st, cxt.x_context, ref, what + ', certain')
    check_relation(st, cxt.q_context, Ref(objects, names,
                                          [q for x, q in s.rows]),
                   what + ', possible')
    base = imps_of(ref, db.base)
    st.eq(what + ': base', sorted(base),
          sorted((p, p | c) for p, c in s.base))
    got = imps_of(ref, db.open_implications)
    for i, (p, c) in enumerate(got):
        st.true(what + ': open implication %s is unrefuted' % ((p, c),),
                c & ~s.xq(p) == 0)
        st.true(what + ': open implication %s is irredundant' % ((p, c),),
                c & ~imp_closure(p, base + got[:i] + got[i + 1:]))
    undecided = any(s.xq(p) & ~p for p in range(1 << s.k)
                    if respects(p, base))
    st.eq(what + ': something is open', bool(got), undecided)


ERRORS = {'ValueError': ValueError, 'Exception': Exception}


def partial(case, st):
    _, k, word = case
    with contextlib.redirect_stdout(io.StringIO()):
        s = PState(k)
        cxt = PartialContext([], [], [], ['m%02d' % j for j in range(k)])
        db = lib.ExplorationDB(cxt, [])
        pverify(st, db, cxt, s, 'at the start')
        for i, op in enumerate(word):
            pcall(db, s, op)
            s = next(nxt for o, _, nxt in s.moves() if o == op)
            pverify(st, db, cxt, s, 'after step %d %s' % (i + 1, op))
        st.state(('partial', k, s.rows, s.base))
        st.outcome((s.rows, s.base))
        for op, errs, _ in s.moves():
            if errs:
                st.raises('refused: %s' % op, tuple(
                    ERRORS.get(e) or getattr(lib, e) for e in errs),
                    pcall, db, s, op)
                pverify(st, db, cxt, s, 'after the refused %s' % op)
