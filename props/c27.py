"""Writing and reading cxt files."""
import itertools
import os
import tempfile

import fca

from mc import spaces
from mc.ref import Ref
from mc.util import Frozen, check_relation

ID = 'C27'
BOUNDS = {
    'quick': 'all contexts up to 4x3 and 3x4, multisets of rows up to 6x3 and '
             '4x4, every way of construction up to 3x2, structured contexts '
             'up to 33 columns, in every combination of the two writers and '
             'readers; every pair out of 58 names as objects, as attributes '
             'and mixed; every proper prefix of the files of all contexts up '
             'to 2x3 and 3x2, every line missing, every row too short or too '
             'long; '
             'contexts of up to 1100 attributes or 1200 objects',
    'thorough': 'all contexts up to 4x4, structured contexts up to 66 '
                'columns, '
                'prefixes up to 3x3, triples of names',
}
# texts that are not literals
TEXTS = ['', 'a', 'a b', 'a  b', 'X', '.', 'X.X', 'B', '0a', 'a\tb', '#', '# 1',
         'x => y', 'a, b', '-', '--', '1 2', '1+2', '2*3', 'a"b', "it's",
         'b"', '"', "'", 'len("ab")', '[1]', '{1}', '{1: 2}', '[', '(', '((',
         '\\', '\\n', 'lambda: 0', 'fca', 'open', '__name__', 'path',
         'not a', 'a=b', 'a\0b', '%s', '{}', 'f"{1}"', '1 if 1 else 2',
         'x' * 300, '1,2,a', 'print(1)']
EXECUTABLE = ['open(%r, "w")', '__import__("os").mkdir(%r)',
              '[open(%r, "w")]', '(lambda: open(%r, "w"))()']
# not texts, come back as they are
OTHER = [0, 7, -3, 10 ** 25, 2.5, -1e-7, (1, 2), ('a', 1), ('a b', ('c', ())),
         ()]
# kept by the Unicode variants as the texts they are
LITERALS = ['7', '-1', '2.5', 'None', 'True', '"q"', "'q'", '()', '(1, 2)',
            '1_0', '1e5', "b'x'", '0x1f']
UNICODE = ['é', 'ß', '中文', 'Ω => µ', 'a\u2028b', '🙂', 'e\u0301', '٣', '\xa0a\xb7',
           ]
UNICODE = [x for x in UNICODE if x == x.strip()]
PLAIN = TEXTS + OTHER


def cases(tier):
    q = tier == 'quick'
    for c in spaces.cases(
            full=[(n, k) for n in range(5) for k in range(5)
                  if n * k <= (12 if q else 16)],
            multi=[(6, 3), (4, 4)], ways=[(2, 2), (3, 2)], fam=spaces.MEDIUM
            if q else spaces.LARGE, fam_schemes=('str', 'int', 'tuple'),
            large=spaces.big()):
        yield c
    for s in ('int', 'intrev', 'tuple', 'shared', 'rot'):
        for n, k in ((1, 2), (2, 2), (3, 3)):
            for rows in spaces.multisets(n, k):
                yield ['ctx', 'list', s, k, list(rows)]
    size = len(PLAIN)
    for i in range(size):
        yield ['names', 'plain', [i]]
    for i, j in itertools.permutations(range(size), 2):
        yield ['names', 'plain', [i, j]]
    uni = len(TEXTS + LITERALS + UNICODE)
    for i, j in itertools.permutations(range(uni), 2):
        yield ['names', 'unicode', [i, j]]
    if not q:
        for w in itertools.combinations(range(size), 3):
            yield ['names', 'plain', list(w)]
    for i in range(len(EXECUTABLE)):
        yield ['execute', i]
    for n in range(1, 4):
        for k in range(1, 4):
            if n * k <= (6 if q else 9):
                for rows in spaces.all_rows(n, k):
                    yield ['broken', k, list(rows)]
    yield ['broken', 2, [1, 2, 3, 0] * 3]
    yield ['broken', 12, [4095, 17]]


READERS = [('read_cxt', fca.read_cxt), ('uread_cxt', fca.uread_cxt)]
WRITERS = [('write_cxt', fca.write_cxt), ('uwrite_cxt', fca.uwrite_cxt)]


def content(ref):
    rows = [''.join('X' if r >> j & 1 else '.' for j in range(ref.k))
            for r in ref.rows]
    lines = (['B', '', str(ref.n), str(ref.k), '']
             + [str(x) for x in ref.objects + ref.attributes] + rows)
    return ''.join(line + '\n' for line in lines)


def text_names(ref):
    return all(isinstance(x, str) for x in ref.objects + ref.attributes)


def plain(ref):
    return not any(isinstance(x, str) and (x in LITERALS or not x.isascii())
                   for x in ref.objects + ref.attributes)


def load(path):
    with open(path, 'rb') as f:
        return f.read()


def round_trip(st, cxt, ref, folder):
    frozen = Frozen(cxt)
    path = os.path.join(folder, 'file.cxt')
    asis = plain(ref)
    as_text = Ref([str(x) for x in ref.objects],
                  [str(x) for x in ref.attributes], ref.rows)
    for wname, write in WRITERS:
        if wname == 'write_cxt' and not asis:
            continue
        if asis:                # something longer is overwritten
            with open(path, 'w') as f:
                f.write('B\n' * 2000)
        write(cxt, path)
        frozen.check(st, wname)
        data = load(path)
        st.eq('the file', data.decode('utf-8'), content(ref))
        for rname, read in READERS:
            if rname == 'read_cxt' and not asis:
                continue
            want = ref if rname == 'read_cxt' else as_text
            back = read(path)
            what = '%s after %s' % (rname, wname)
            check_relation(st, back, want, what)
            st.eq(what + ': types of names',
                  [type(x) for x in list(back.objects)
                   + list(back.attributes)],
                  [type(x) for x in want.objects + want.attributes])
            st.true(what + ': a context', type(back) is fca.Context)
            if data != load(path):
                st.eq(what + ': the file after reading', load(path), data)
    st.outcome(hash(content(ref)) & 0xffffff)


def run(case, st):
    with tempfile.TemporaryDirectory() as folder:
        if case[0] == 'ctx':
            seen = []

            def probe(c, r):
                seen.append(r)
                round_trip(st, c, r, folder)
            spaces.run_way(case, st, probe)
        else:
            {'names': named, 'execute': execute,
             'broken': broken}[case[0]](case, st, folder)


def named(case, st, folder):
    _, kind, which = case
    pool = PLAIN if kind == 'plain' else TEXTS + LITERALS + UNICODE
    names = [pool[i] for i in which]
    st.state((kind, tuple(which)))
    n = len(names)
    for o, a, rows in ((names, ['a', 'b'], [1, 2, 3][:n]),
                       (['o', 'p'], names, [1, (1 << n) - 1]),
                       (names, names[::-1], [2, 1, 0][:n]),
                       (names[:1], names[-1:], [1])):
        rows = [r & ((1 << len(a)) - 1) for r in rows]
        ref = Ref(o, a, rows)
        round_trip(st, spaces.make(ref), ref, folder)


def execute(case, st, folder):
    mark = os.path.join(folder, 'executed')
    name = EXECUTABLE[case[1]] % mark
    st.state(case[1])
    for o, a in (([name, 'o'], ['a', 'b']), (['o', 'p'], ['a', name])):
        ref = Ref(o, a, [1, 2])
        round_trip(st, spaces.make(ref), ref, folder)
        st.true('the name %s was not executed' % name,
                not os.path.exists(mark))


def broken(case, st, folder):
    _, k, rows = case
    ref = spaces.ref_of('str', k, rows)
    st.state(ref.key())
    path = os.path.join(folder, 'broken.cxt')
    text = content(ref)
    lines = text.split('\n')[:-1]
    first = len(lines) - ref.n

    def variants():
        for i in range(len(text) - 1):
            yield 'cut after %d characters' % i, text[:i]
        for i in range(len(lines)):
            yield ('line %d missing' % i,
                   '\n'.join(lines[:i] + lines[i + 1:]) + '\n')
        for i in range(first, len(lines)):
            for new in (lines[i][1:], lines[i] + 'X', lines[i] + '.'):
                yield ('row %s' % new, '\n'.join(
                    lines[:i] + [new] + lines[i + 1:]) + '\n')
        for i, new in ((0, 'A'), (0, ''), (0, 'BB'), (0, 'b'), (2, 'x'),
                       (2, ''), (2, '1.5'), (3, 'x'), (3, ''), (3, '2a')):
            yield ('line %d is %r' % (i, new), '\n'.join(
                lines[:i] + [new] + lines[i + 1:]) + '\n')
    for what, data in variants():
        with open(path, 'w') as f:
            f.write(data)
        for name, read in READERS:
            st.raises('%s: %s' % (name, what), Exception, read, path)
        if load(path) != data.encode():
            st.true('%s: reading changed the file' % what, False)
    st.outcome(text)
