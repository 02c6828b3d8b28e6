"""Tab and comma separated tables."""
import csv
import io
import itertools
import os
import tempfile

import fca
from fca import ManyValuedContext
from fca.readwrite import tab_separated as lib

from mc import spaces
from mc.ref import Ref
from mc.util import check_relation

ID = 'C28'
BOUNDS = {
    'quick': 'binary tables: all up to 3x3 and 2x4 in all formats and four '
             'layouts (final line break, line ends, trailing tab); all pairs '
             'out of 40 names for objects and attributes; many-valued tables '
             'up to 2x2 over ten texts, 3x2 and 2x3 over three, read and '
             'written by the plain and the Unicode variants; written contexts '
             'with numbers, tuples and None as names and values; tables of '
             'up to 300 rows or columns',
    'thorough': 'binary tables up to 4x3 and 3x4, all triples of names, '
                'many-valued 3x2 and 2x3 over five texts',
}
NAMES = ['a', 'o1', '0', '1', 'a b', 'a, b', 'a,b', '-', '.', 'X', '00', '01',
         '10', 'None', 'a;b', 'x => y', "it's", 'a"b', '#', 'g1', 'g2', 'g10',
         'obj', 'B', '\\', 'a  b', '(1, 2)', '1.5', 'True', '=', 'a:b', '%s',
         '[', 'n\\m', '|', '/', '0 1', '1 0', '!', 'x' * 200]
UNICODE = ['é', '中文', '🙂', 'e\u0301', 'Ω']
VALUES = ['7', 'x', '', 'a b', '0', ' p ', 'a,b', 'None', 'a"b', '1.5']
OTHER = [3, 'x', None, 2.5, (1, 2), True, '0', '', -1]


def cases(tier):
    q = tier == 'quick'
    for n in range(5):
        for k in range(5):
            if n * k <= (9 if q else 12):
                for rows in spaces.all_rows(n, k):
                    yield ['binary', k, list(rows)]
    for n in range(1, 4 if q else 5):
        for k in range(2, 5):
            for row in range(n):
                for delta in (-1, 1, 2):
                    yield ['ragged', n, k, row, delta]
    for k, rows in spaces.big():
        yield ['binary', k, rows]
    yield ['binary', 12, [4095, 0, 17]]
    yield ['binary', 2, [1, 2, 3] * 5]
    size = len(NAMES)
    for i, j in itertools.permutations(range(size), 2):
        yield ['names', i, j]
    if not q:
        for i, j, k in itertools.combinations(range(size), 3):
            yield ['names', i, j, k]
    for n, k in ((300, 2), (2, 300), (70, 70)):
        yield ['many', n, k]
    for i, j in itertools.permutations(range(len(UNICODE)), 2):
        yield ['unicode', i, j]
    for n in range(4):
        for k in range(4):
            if n * k <= 4:
                pool = range(len(VALUES))
            elif n * k <= 6:
                pool = (0, 2, 5) if q else (0, 1, 2, 5, 6)
            else:
                continue
            for v in itertools.product(pool, repeat=n * k):
                # one column with an empty text is an empty line
                if k != 1 or 2 not in v:
                    yield ['values', n, k, list(v)]
    for n in range(3):
        for k in range(3):
            for v in itertools.product(range(len(OTHER)), repeat=n * k):
                if k != 1 or 7 not in v:
                    yield ['other', n, k, list(v)]


LAYOUTS = [('plain', lambda text: text),
           ('without a final line break', lambda text: text[:-1]),
           ('with other line ends', lambda text: text.replace('\n', '\r\n'))]


def save(path, text):
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)


def same(st, path, text, what):
    with open(path, 'rb') as f:
        data = f.read()
    if data != text.encode('utf-8'):
        st.true('%s changed the file' % what, False)


def texts(ref, layouts=True):
    """(reader, text of a file with this content, expected context)"""
    bit = [['1' if r >> j & 1 else '0' for j in range(ref.k)]
           for r in ref.rows]
    head = '\t'.join(ref.attributes)
    named = Ref(['g%d' % (i + 1) for i in range(ref.n)], ref.attributes,
                ref.rows)
    lines = ['\t'.join(b) for b in bit]
    yield 'read_txt', fca.read_txt, [head, ''] + lines, named
    lines = ['\t'.join([o] + b) for o, b in zip(ref.objects, bit)]
    yield 'read_txt_with_names', fca.read_txt_with_names, \
        [head, ''] + lines, ref
    if ref.n and ref.k:
        yield ('read_txt_with_names, trailing tab', fca.read_txt_with_names,
               [head + '\t', ''] + lines, ref)
        yield ('read_txt, trailing tab', fca.read_txt,
               [head + '\t', ''] + ['\t'.join(b) for b in bit], named)
        blanks = '\t'.join(' %s ' % a for a in ref.attributes)
        yield ('read_txt_with_names, blanks', fca.read_txt_with_names,
               [blanks, ''] + lines, ref)
        yield ('read_txt, blanks', fca.read_txt,
               [blanks, ''] + ['\t'.join(b) for b in bit], named)
    for yes, no in (('1', '0'), ('X', ''), (' x', ' 0 '), ('yes', ' ')):
        lines = [[o] + [yes if x == '1' else no for x in b]
                 for o, b in zip(ref.objects, bit)]
        yield 'read_csv', fca.read_csv, [ref.attributes] + lines, ref
    yield ('read_csv', fca.read_csv, [[' %s ' % a for a in ref.attributes]]
           + [[' %s ' % r[0]] + r[1:] for r in lines], ref)


def comma(rows, quote=csv.QUOTE_MINIMAL):
    out = io.StringIO()
    w = csv.writer(out, lineterminator='\n', quoting=quote)
    for r in rows:
        if r:
            w.writerow(r)
        else:
            out.write('\n')
    return out.getvalue()


def binary_files(st, ref, folder):
    path = os.path.join(folder, 'table')
    st.state(ref.key())
    for what, read, lines, want in texts(ref):
        if what == 'read_csv':
            contents = [comma(lines), comma(lines, csv.QUOTE_ALL)]
        else:
            contents = [''.join(x + '\n' for x in lines)]
        for text in contents:
            for layout, change in LAYOUTS:
                if change(text) == text and layout != 'plain' or \
                        layout.startswith('without') and not (ref.n
                                                              and ref.k):
                    continue
                data = change(text)
                save(path, data)
                got = read(path)
                check_relation(st, got, want, '%s (%s)' % (what, layout))
                st.true('a context', type(got) is fca.Context)
                same(st, path, data, what)
        st.outcome((what, want.key()))


def check_mv(st, mv, o, a, rows, what):
    st.eq(what + ': objects', list(mv.objects), o)
    st.eq(what + ': attributes', list(mv.attributes), a)
    st.eq(what + ': values', [list(r) for r in mv.table], rows)
    st.true(what + ': a many-valued context',
            isinstance(mv, ManyValuedContext))


MV_READERS = [('read_mv_txt', fca.read_mv_txt),
              ('uread_mv_txt', lib.uread_mv_txt)]
MV_WRITERS = [('write_mv_txt', fca.write_mv_txt),
              ('uwrite_mv_txt', lib.uwrite_mv_txt)]


def mv_files(st, o, a, rows, folder, ascii_only=True):
    """the names and values are texts"""
    path = os.path.join(folder, 'values')
    st.state((tuple(o), tuple(a), repr(rows)))
    lines = ['\t'.join(o), '\t'.join(a), ''] + ['\t'.join(r) for r in rows]
    text = ''.join(x + '\n' for x in lines)
    variants = [(text, 'plain')]
    if o and a:
        variants += [(change(text), what) for what, change in LAYOUTS[1:]
                     if not (what.startswith('without') and text[-2:] ==
                             '\n\n')]
        tabs = ''.join(x + '\n' for x in ['\t'.join(o) + '\t',
                                          '\t'.join(a) + '\t'] + lines[2:])
        variants.append((tabs, 'trailing tabs'))
        blanks = ''.join(x + '\n' for x in
                         ['\t'.join(' %s ' % x for x in o),
                          '\t'.join(' %s ' % x for x in a)] + lines[2:])
        variants.append((blanks, 'blanks around names'))
    for data, layout in variants:
        save(path, data)
        for name, read in MV_READERS if ascii_only else MV_READERS[1:]:
            check_mv(st, read(path), o, a, rows, '%s (%s)' % (name, layout))
            same(st, path, data, name)
    for quote in (csv.QUOTE_MINIMAL, csv.QUOTE_ALL):
        data = comma([a] + [[x] + r for x, r in zip(o, rows)], quote)
        save(path, data)
        if ascii_only:
            check_mv(st, fca.read_mv_csv(path), o, a, rows, 'read_mv_csv')
            same(st, path, data, 'read_mv_csv')
            save(path, comma([[' %s ' % x for x in a]] +
                             [[' %s ' % x] + r for x, r in zip(o, rows)],
                             quote))
            check_mv(st, fca.read_mv_csv(path), o, a, rows,
                     'read_mv_csv (blanks around names)')
    written(st, o, a, rows, folder, ascii_only)


def written(st, o, a, rows, folder, ascii_only=True):
    """any names and values; what is read are their texts"""
    path = os.path.join(folder, 'written')
    mv = ManyValuedContext([list(r) for r in rows], list(o), list(a))
    to, ta = [str(x) for x in o], [str(x) for x in a]
    trows = [[str(x) for x in r] for r in rows]
    text = ''.join(x + '\n' for x in ['\t'.join(to), '\t'.join(ta), '']
                   + ['\t'.join(r) for r in trows])
    for wname, write in MV_WRITERS if ascii_only else MV_WRITERS[1:]:
        save(path, 'something longer that was there before\n' * 40)
        write(mv, path)
        same(st, path, text, wname)
        check_mv(st, mv, o, a, rows, 'after ' + wname)
        for rname, read in MV_READERS if ascii_only else MV_READERS[1:]:
            check_mv(st, read(path), to, ta, trows,
                     '%s after %s' % (rname, wname))
    st.outcome(hash(text) & 0xffffff)


def refuse(st, path, data, reads, what):
    save(path, data)
    for read in reads:
        st.raises('%s: %s' % (read.__name__, what), Exception, read, path)
        same(st, path, data, read.__name__)


def ragged(st, n, k, row, delta, folder):
    """one row has a field too few or too many"""
    path = os.path.join(folder, 'ragged')
    st.state((n, k, row, delta))
    o = ['o%d' % i for i in range(n)]
    a = ['a%d' % j for j in range(k)]
    rows = [['1'] * (k + (delta if i == row else 0)) for i in range(n)]
    what = 'row %d of %d has %d fields for %d attributes' % (row, n, k + delta,
                                                              k)
    refuse(st, path, '\t'.join(a) + '\n\n' + ''.join(
        '\t'.join(r) + '\n' for r in rows), [fca.read_txt], what)
    refuse(st, path, '\t'.join(a) + '\n\n' + ''.join(
        '\t'.join([x] + r) + '\n' for x, r in zip(o, rows)),
           [fca.read_txt_with_names], what)
    refuse(st, path, '\t'.join(o) + '\n' + '\t'.join(a) + '\n\n' + ''.join(
        '\t'.join(r) + '\n' for r in rows),
           [fca.read_mv_txt, lib.uread_mv_txt], what)
    refuse(st, path, comma([a] + [[x] + r for x, r in zip(o, rows)]),
           [fca.read_csv, fca.read_mv_csv], what)
    for wrong in ('x', '2', '-1', '', '1 0'):
        bad = [['1'] * k for _ in rows]
        for i in ([row], range(n)):
            for j in i:
                bad[j][row % (k - 1)] = wrong
            refuse(st, path, '\t'.join(a) + '\n\n' + ''.join(
                '\t'.join(r) + '\n' for r in bad), [fca.read_txt],
                   'the field %r' % wrong)
            refuse(st, path, '\t'.join(a) + '\n\n' + ''.join(
                '\t'.join([x] + r) + '\n' for x, r in zip(o, bad)),
                   [fca.read_txt_with_names], 'the field %r' % wrong)
    for some in (rows[1:], rows + rows[:1]):
        good = [['1'] * k for _ in some]
        refuse(st, path, '\t'.join(o) + '\n' + '\t'.join(a) + '\n\n' +
               ''.join('\t'.join(r) + '\n' for r in good),
               [fca.read_mv_txt, lib.uread_mv_txt],
               '%d rows for %d objects' % (len(good), n))


def run(case, st):
    with tempfile.TemporaryDirectory() as folder:
        if case[0] == 'ragged':
            ragged(st, *case[1:], folder)
        elif case[0] == 'binary':
            _, k, rows = case
            for scheme in ('str', 'rev'):
                binary_files(st, spaces.ref_of(scheme, k, rows), folder)
        elif case[0] == 'many':
            _, n, k = case
            mv_files(st, ['o%d' % i for i in range(n)],
                     ['a%d' % j for j in range(k)],
                     [['%d x' % (i * j % 301) for j in range(k)]
                      for i in range(n)], folder)
        elif case[0] in ('names', 'unicode'):
            pool = NAMES if case[0] == 'names' else UNICODE
            names = [pool[i] for i in case[1:]]
            n = len(names)
            full = (1 << n) - 1
            for o, a in ((names, names[::-1]), (names, ['a0']),
                         (['b0'], names)):
                # a single attribute or object must not vanish in blanks
                rows = [1, full - 1, full][:len(o)]
                rows = [r & ((1 << len(a)) - 1) for r in rows]
                ref = Ref(o, a, rows)
                if case[0] == 'names':
                    binary_files(st, ref, folder)
                mv_files(st, o, a, [[names[(i + j) % n]
                                     for j in range(len(a))]
                                    for i in range(len(o))], folder,
                         case[0] == 'names')
        elif case[0] == 'values':
            _, n, k, v = case
            rows = [[VALUES[x] for x in v[i * k:i * k + k]]
                    for i in range(n)]
            mv_files(st, ['o%d' % i for i in range(n)],
                     ['a%d' % j for j in range(k)], rows, folder)
        else:
            _, n, k, v = case
            rows = [[OTHER[x] for x in v[i * k:i * k + k]]
                    for i in range(n)]
            st.state((n, k, tuple(v)))
            for o, a in ((list(range(n)), [('t', j) for j in range(k)]),
                         ([None, 2.5][:n], [1, 'x'][:k])):
                written(st, o, a, rows, folder)
