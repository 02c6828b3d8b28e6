#!/usr/bin/env python3
"""Writes DESIGN.md from the texts below, the bounds stated in props/, the
table of findings and the recorded results of the planted changes."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Model checking artreven/fca

Generated by `tools/mkdesign.py`; edit that file.

## The technique

The library is sequential, deterministic Python over small finite structures
(binary relations, sets, lists of implications). Its guarantees quantify over
*all inputs* and *all histories of operations*. Each check therefore is an
explicit-state exploration of the real code: a bounded space of contexts,
arguments, construction paths, operation sequences, file prefixes or name
combinations is enumerated completely - no sampling, no random choice - and
every element is executed against the library imported from /repo's working
tree, in lock-step with an independent reference model. The model (mc/ref.py)
is a relation stored as bit masks with everything computed by definition
(brute force over all subsets); `tools/selftest.py`, the setup command,
cross-checks two characterisations of every notion over all contexts up to 3x3.
Because model and code are stepped together on every enumerated case, the
conformance of the model to the code *is* the check: each transition of the
model is replayed on the implementation and the complete observable state
compared. There are no threads, no locks, no crash-safe storage in the library,
so schedules and crash points do not occur; the fault dimension that does exist
(truncated or damaged files, refused operations, interrupted generators) is
enumerated as inputs or as steps of the histories.

For history properties (C04, C11, C12, C22, C23, C24, C25, C26, C32) the space
is the tree of all operation words up to a depth over a small alphabet, from
several starting states. The model enumerates the enabled and the forbidden
steps in every model state, every word is executed on a fresh object of the
library, the whole observable state is compared after every step, and in the
last state every step that must be refused is tried: it must raise the proper
error and leave everything as it was. What the library hands out is
overwritten between steps, to show that answers are the caller's.

### Machinery

- `check.py ID [--tier quick|thorough] [--replay FILE] [--jobs N] [--count]`
  runs one property. `VERIF_SEED` becomes PYTHONHASHSEED, so that the iteration
  order of sets of strings is part of the fixed input; the result must not
  depend on it (the checks were run with several seeds).
- `mc/engine.py` stripes the deterministic enumeration over worker processes;
  every worker walks the same enumeration. A case gets a CPU-time horizon (30 s)
  and an address-space limit, so that a non-terminating change is reported as a
  violation ("does not end") and not as a hang of the check. The first
  violation in enumeration order is written to replays/ and can be
  replayed alone. Evidence (cases, distinct states, transitions = compared
  observations, distinct outcomes) goes to evidence/ID.json.
- `mc/spaces.py` enumerates contexts: all relations of a shape, multisets of
  rows (contexts up to order of objects) in two orders, sets of distinct rows,
  structured families (nominal, chain and contranominal contexts, all rows of a
  size, small contexts padded left or right with full or empty columns,
  repeated and nearly full rows; up to 66 columns and 130 rows, for C01 up to
  514 of both), crossing every machine word and integer-width
  boundary an implementation could have), naming schemes (strings, integers
  against the order, tuples, names printing alike, unsortable mixtures, names
  shared by objects and attributes, ...), and *ways* (a context reached by
  construction from lists, tuples and numpy arrays, by adding, deleting,
  renaming, copying, transposing, slicing, setting rows and columns, so
  that internal leftovers of a history are met).
- `mc/ref.py` reference model; `mc/util.py` comparison of the complete
  observable state of a context (table, every lookup by name and index,
  derivations, closures, equality), frozen snapshots for "left unchanged".
- The library is imported from VERIF_REPO (default /repo) with bytecode writing
  off; nothing is built and nothing of /repo is written. Files that readers
  and writers need are in a scratch directory under /tmp removed by the worker.

### Why this reaches what the tests cannot

The tests fix a handful of contexts (and several modules - exploration,
partial contexts, factors, patterns, dot, fimi, csv, xml - have none that run).
The defects below all live in degenerate, repeated, unsortable, word-sized,
history-dependent or refused cases that no listed test meets; the small-scope
exploration meets all of them up to the bound.
'''

METHOD = {
'C01': ('every subset of objects and attributes of every context is derived and closed by the methods of the context and by the stand-alone operators, by name and by index, given as set, frozenset, list, tuple, generator and with repeats', 'definition of derivation on bit masks'),
'C02': ('list, stream (also interrupted and resumed) and lattice are asked, the answers spoiled and asked again', 'all fixed points of the closure over all subsets'),
'C03': ('parents, children, filter, ideal, top, bottom, index, membership and lookup of every concept, before and after annotation', 'transitive reduction of extent inclusion by definition'),
'C04': ('operation words over append and remove, with interleavings of queries, and every part of small lattices with every change', 'set of masks, order by definition'),
'C05': ('each of the entry points for a basis on each context, after edits and repeated', 'pseudo-intents computed by two definitions'),
'C06': ('relative bases for every list of confirmed valid implications', 'soundness, completeness and irredundance decided by closure over all subsets'),
'C07': ('the incremental algorithm on contexts over five and more attributes in all orders', 'pseudo-intents'),
'C08': ('object implications by every entry point, before and after edits', 'pseudo-intents of the transposed relation'),
'C09': ('every closure procedure on every set and list', 'least fixed point by iteration to stability; prefix variant: closure or failure'),
'C10': ('respect, equality, hash, copies, printing, parsing of all implications, against all sets and partial examples', 'definition on masks'),
'C11': ('all edit words with three query regimes (all, none, interrupted and failing ones) between edits', 'the relation edited as plain lists'),
'C12': ('every derivation crossed with every edit on either side; every query with its answer overwritten', 'two independent model relations'),
'C13': ('all name lists over an alphabet with replacement look-alikes; all size mismatches', 'specification of distinctness and stability of unique names'),
'C14': ('all derived contexts from all attribute choices', 'definition on masks'),
'C15': ('all pairs of small contexts under all permutations', 'equality of name/pair sets'),
'C16': ('all products of small contexts, and products across integer-width boundaries', 'Boolean matrix product'),
'C17': ('clarification and reduction of all contexts', 'a row is reducible iff it is the intersection of the different rows containing it'),
'C18': ('both factorisation algorithms at every relevant fidelity', 'set of closed pairs; cover recomputed by masks; Boolean product'),
'C19': ('all combinations of conditions', 'each produced factor judged against the conditions'),
'C20': ('every index of every concept', 'definitions evaluated with exact rationals, tolerance 1e-9'),
'C21': ('all bounds, numbers and shares around every value', 'sorted list of exact values'),
'C22': ('operation words over confirm, refute, add, edit for objects and attributes', 'relation + confirmed lists; basis by pseudo-intents'),
'C23': ('operation words over the database interface with plain, partial and mixed examples; complete explorations with every expert', 'relation + base; relative basis judged semantically'),
'C24': ('operation words over a session, complete sessions', 'as C23'),
'C25': ('all tables of certain and possible crosses; all lists of implications', 'the set of admissible completions, enumerated'),
'C26': ('edit words over many-valued tables; all scales over small conditions', 'table of values and scale semantics evaluated per cell'),
'C27': ('all contexts through all pairs of writers and readers; all truncations and row damages', 'the context written; damaged files must be refused'),
'C28': ('all tables through writers, and files generated in several layouts through readers', 'the table'),
'C29': ('all concept systems through writer and reader; all truncations', 'the list of concepts with annotations'),
'C30': ('all diagrams parsed back by an independent parser of the dot language', 'covering relation and own labels by definition'),
'C31': ('all contexts in all object orders; all small lists minimised', 'entailment over all subsets; size of the minimal cover by definition'),
'C32': ('operation words over confirm, add positive/negative examples', 'patterns by definition on masks'),
}

SCOPE = '''## Reading of the library, scope

Decisions taken where the code leaves room; the statements are worded for them.

- *Partial contexts.* The basis of a partial context is sound and irredundant
  but cannot be complete in the classical sense (unrefuted implications are
  not closed under entailment), so C25 claims: unrefuted, irredundant, empty
  only if nothing is undecided, and the canonical basis where nothing is open.
- *Sessions.* Exploration sessions of exploration2 share one context object;
  C24 is about the session used last. Accepted implications come from the
  candidates offered.
- *Relative bases.* With a condition on premises only soundness and the
  condition are claimed (C06).
- *Conditioned factorisation.* No completeness is claimed, the greedy search
  may stop when no admissible concept is left (C19).
- *ExplorationDB.* Rejecting with several examples adds them one after the
  other. Where several errors apply any of them is accepted.
- *Patterns, covers.* `minimize()` is only claimed minimal for covers from
  the library and closed conclusions; it removes what is redundant otherwise.
- *Names.* Names containing tabs, line ends or quotes, empty or blank-edged
  names are outside the text formats (C28); cxt files hold texts (C27). xml
  annotations are floats with names of letters and blanks (C29). Contexts
  whose printout needs sorting unsortable names are not printed. fimi files
  are for names printing without blanks, and tuples as names are not
  claimed for them (C30).
- *Live views.* `objects`, `attributes` and `table` of a context are the
  lists themselves; C12 is about what queries return and what derived
  contexts share, not about overwriting these.
- *Scales* are values, not edited after use. 'nan'/'inf' are outside, ordinal
  scales are for integers in their range (C26).
- *Unknown attributes* in the intent of a new object are ignored by the
  library; this is not claimed either way.
- *Unit implications* whose conclusion is in the premise are outside (C10).
- `reduce_objects` keeps a full row, as the library documents (C17).
- `make_random_context` is explored by enumerating all outcomes of its draws
  in place of the random generator (C13); if an implementation draws from
  elsewhere only the shape and the extreme densities are judged.
'''


def main():
    props = [json.loads(x) for x in
             open(os.path.join(HERE, 'properties.jsonl'))]
    found = json.load(open(os.path.join(HERE, 'known_findings.json')))
    path = os.path.join(HERE, 'tools', 'seed_results.json')
    seeds = json.load(open(path)) if os.path.exists(path) else {}
    out = [HEAD, '## The properties', '']
    for p in props:
        src = open(os.path.join(HERE, 'props', p['id'].lower() + '.py')).read()
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and \
                    getattr(node.targets[0], 'id', '') == 'BOUNDS':
                bounds = ast.literal_eval(node.value)
        m, o = METHOD[p['id']]
        out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
                '- Explored: %s.' % m, '- Oracle: %s.' % o,
                '- Quick: %s.' % bounds['quick'],
                '- Thorough, in addition: %s.' % bounds['thorough'],
                '- Why not the tests: %s' % p['why_tests_cant'], '']
    out += ['No property is left to another technique: `not_applicable` in '
            'MANIFEST.json is empty.', '',
            'Cost: a quick check takes 1 to 60 s on 8 cores (C11, C12, C22 '
            'and C23 most), a thorough one 15 s to 20 min.', '', SCOPE,
            '## Genuine defects found', '',
            'Each was shown on the real code by the check named, and repaired '
            'by a "fix:" commit in /repo; with the repair undone the check '
            'reports it again. %s' % ('None is left open.'
                                      if not found['known'] else ''), '']
    for k in found['known']:
        out.append('- OPEN: %s' % json.dumps(k))
    out += ['- ' + f for f in found['fixed']]
    out += ['', '## Planted changes', '',
            'Patches in seeded/, each written from the statement of a '
            'property, passing the stable tests and with a demonstration. '
            'Results of `tools/seedrun.py` (quick tier):', '',
            '| change | breaks | reported by |', '|---|---|---|']
    for n in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        meta = json.load(open(os.path.join(HERE, 'seeded', n, 'meta.json')))
        r = seeds.get(n, {})
        out.append('| %s | %s: %s | %s |' % (
            n, meta['property'], meta['what_it_breaks'].replace('|', '/'),
            ', '.join(r.get('caught', [])) or 'not run'
            if r.get('caught') != [] else 'missed'))
    out += ['', HISTORY]
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


HISTORY = '''## What planted changes taught the checks

- c01-support-counter-overflow (counts kept in a byte) was missed: C01 now has
  contexts across 256 and 512 rows and columns.
- c10-unit was missed: C10 now asks for text, hash and truth before comparing.
- c11-stale-name was missed by C11 (C13 reported it): C11 now asks for every
  forgotten name after deletions and renamings.
- c25-closure-of-possible was missed: C25 adds every partial object to every
  small partial context, and checks the printed form.

## False alarms met and corrected

Checks that were wrong were corrected, not quietened: C25 once demanded
completeness of the partial basis (impossible, see above); C22, C23 and C24
demanded one particular error where two apply; C24 ran out of fresh object
names in the thorough tier; C04 compared the children, a set, with a list when
a concept is contained twice; error texts that print names which do not sort
are exempt (see above).
'''

main()
