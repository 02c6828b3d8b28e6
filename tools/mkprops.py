#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below, so that the
two stay in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(),
         note='', technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  observe=list(observe), note=note, technique=technique))


I, H = 'inputs', 'histories'
CX = 'fca/context.py'

prop('C01', 'Derivation and closure operators are exact',
     'For every context and every set of objects, deriving yields exactly the '
     'attributes they all share, and for every set of attributes exactly the '
     'objects having them all (the empty set derives everything), and closing '
     'is deriving twice. The operators of the context and the stand-alone ones '
     'agree, by name and by index, whatever the collection the argument comes '
     'in, and the associative variants count for each attribute (object) how '
     'many of the objects of the support have it (how many of the attributes '
     'it has). No query changes the context or its argument.',
     [I, H], 'every context, every way it was constructed or edited, every '
     'subset of its objects and of its attributes',
     'The tests compare closures of a few fixed and random contexts; they '
     'cannot cover every relation, every argument set and every construction '
     'history.',
     [CX, 'fca/algorithms/closure_operators.py'],
     [('index and name based derivation', CX + ':oprime_inds'),
      ('stand-alone operators', 'fca/algorithms/closure_operators.py:oprime'),
      ('associative counts', CX + ':associative_aclosure')])

prop('C02', 'All formal concepts are enumerated, each exactly once',
     'For every context the enumeration of concepts yields every pair of an '
     'object set and an attribute set that are each other\'s derivation, each '
     'exactly once, and nothing else, including contexts without objects, '
     'attributes or crosses. The list, the stream after it is exhausted, and '
     'the concept lattice hold the same concepts, and asking again, also after '
     'the caller changed an earlier answer, gives the same answer.',
     [I, H], 'every context, every object and attribute order, every '
     'interruption of a stream',
     'One test compares the number of concepts of random contexts; wrong '
     'extents, duplicates and degenerate contexts escape it.',
     ['fca/algorithms/norris.py', CX, 'fca/concept.py',
      'fca/concept_lattice.py'],
     [('incremental enumeration', 'fca/algorithms/norris.py:iterative_norris')])

prop('C03', 'The concept lattice is ordered by the subconcept relation',
     'In the lattice of every context the parents (children) of a concept are '
     'exactly its upper (lower) neighbours with respect to the inclusion of '
     'extents, the filter and ideal are the strictly larger and smaller '
     'concepts, and top and bottom are the greatest and least concept. '
     'Concepts are found by their extent and intent, before and after '
     'concepts are annotated with index values.',
     [I, H], 'every context and every element of its lattice, annotated or '
     'not',
     'The tests look at one lattice; neighbourhood errors need particular '
     'order shapes.',
     ['fca/concept_lattice.py', 'fca/algorithms/norris.py', 'fca/concept.py'],
     [('covering relation',
       'fca/algorithms/norris.py:compute_covering_relation'),
      ('neighbours', 'fca/concept_lattice.py:parents')])

prop('C04', 'Order queries on a concept system reflect its present contents',
     'After every history of adding and removing concepts, with order queries '
     'asked in between or not, a concept system answers parents, children, '
     'filter, ideal, top, bottom, membership, position and size for exactly '
     'the concepts it then contains. It does not alter the list it was created '
     'from, nor share contents with other systems, and rejects elements that '
     'are not concepts.',
     [H], 'every history of additions, removals and queries',
     'No test edits a concept system; staleness needs a query before and '
     'after an edit.',
     ['fca/concept_system.py'],
     [('invalidation of the neighbour table', 'fca/concept_system.py:append')])

prop('C05', 'Every basis algorithm computes the canonical implication basis',
     'For every context, and every order of its attributes and objects, each '
     'of the provided basis computations and the streamed one returns exactly '
     'the Duquenne-Guigues basis of the attribute implications: one '
     'implication per pseudo-intent, from the pseudo-intent to its closure, '
     'without repetition. A context as it is now counts, not as it was when an '
     'earlier basis was computed.',
     [I, H], 'every context, attribute order, naming, construction and edit '
     'history',
     'The tests compare lengths and closures of bases of a few contexts; a '
     'superfluous or missing implication shows only for particular relations '
     'and attribute orders.',
     ['fca/algorithms/dg_basis.py', 'fca/algorithms/aibasis.py',
      'fca/algorithms/closure_operators.py', CX],
     [('next-closure enumeration',
       'fca/algorithms/dg_basis.py:generalized_compute_dg_basis'),
      ('attribute-incremental computation',
       'fca/algorithms/aibasis.py:compute_canonical_basis')])

prop('C06', 'A basis relative to confirmed implications is sound and complete',
     'Given any list of confirmed implications valid in the context, the '
     'computed relative basis consists of implications valid in the context, '
     'together with the confirmed ones entails every valid implication, and '
     'none of its implications follows from the confirmed ones and the rest of '
     'the basis; its premises respect the confirmed implications. With a '
     'condition on premises only implications whose premise meets it are '
     'returned, and the confirmed list is left as it was.',
     [I], 'every context and every list of valid confirmed implications, '
     'repeated and overlapping ones included',
     'The tests use two contexts with one or two confirmed implications.',
     ['fca/algorithms/dg_basis.py', 'fca/algorithms/closure_operators.py', CX],
     [('relative next-closure',
       'fca/algorithms/dg_basis.py:generalized_compute_dg_basis')])

prop('C07', 'The attribute-incremental algorithm handles larger contexts',
     'The attribute-incremental computation returns the canonical basis also '
     'for contexts with many attributes and objects, where implications are '
     'modified, merged and dropped repeatedly while attributes are taken in '
     'one by one: no superfluous, repeated or missing implication, premises '
     'that are pseudo-intents and conclusions that are their closures.',
     [I], 'every context with five attributes and distinct rows up to a size, '
     'in several attribute orders',
     'A test compares basis sizes on random contexts; wrong merges need at '
     'least five attributes in a particular constellation.',
     ['fca/algorithms/aibasis.py'],
     [('update of pre-closed sets',
       'fca/algorithms/aibasis.py:update_preclosed')])

prop('C08', 'Object implications are those of the transposed context',
     'The object implications of every context are the canonical basis of the '
     'context with objects and attributes exchanged, whatever the object '
     'names, and always of the context as it is now, also after edits and '
     'after other bases were computed.',
     [I, H], 'every context and edit history',
     'No test asks for object implications.',
     [CX], [('transposition', CX + ':get_object_implications')])

prop('C09', 'Closures under implications are the least closed supersets',
     'For every set and every list of implications, with empty premises, '
     'repeated, chained and cyclic implications, every closure procedure '
     'returns the least superset respecting all of them, and leaves the set '
     'and the implications unchanged. The prefix-bounded procedure returns '
     'that closure whenever it does not disagree with the set on the prefix, '
     'and otherwise reports failure.',
     [I], 'every set, every list of implications over up to four attributes '
     'in every order',
     'The doctests use three lists of implications.',
     ['fca/algorithms/closure_operators.py'],
     [('fixed-point and counting closure',
       'fca/algorithms/closure_operators.py:lin_closure')])

prop('C10', 'Implications behave as values',
     'A set respects an implication exactly if it lacks part of the premise or '
     'has the whole conclusion (for a negative implication: has nothing of the '
     'conclusion); a partial example respects it unless its certain part has '
     'the premise and its possible part refutes it. Implications are equal and '
     'hash alike exactly when premise and conclusion without premise agree, '
     'negative ones never equal positive ones, copies are independent, and '
     'parsing the printed form of a textual implication gives an equal one.',
     [I], 'every pair of implications and every set or partial example over a '
     'small alphabet',
     'One test constructs one unit implication.',
     ['fca/implication.py'],
     [('respect', 'fca/implication.py:is_respected'),
      ('parsing', 'fca/implication.py:str2imp')])

prop('C11', 'Edits change exactly what they name',
     'After every history of adding, deleting, renaming and re-crossing '
     'objects and attributes, a context is the relation those edits describe: '
     'names in order, crosses where they belong, every lookup by name or '
     'index, printout, derivation, concept and basis in agreement with it. An edit '
     'naming something unknown is refused and leaves the context as it was.',
     [H], 'every history of edits over a small alphabet, queried in between '
     'or not, from several starting contexts',
     'The tests make one addition and one deletion; stale lookups need an '
     'edit after a query and a particular position.',
     [CX], [('rebuilding after edits', CX + ':add_object'),
            ('in-place deletion', CX + ':delete_attributes')])

prop('C12', 'Contexts are isolated from what they are derived from',
     'Contexts obtained by copying, transposing, extracting, complementing, '
     'compounding, clarifying, reducing or multiplying are independent of the '
     'original and of the lists and tables it was made from: editing one never '
     'changes what the other answers. Queries and analyses never change the '
     'context they are asked of, and answers handed out are the caller\'s.',
     [I, H], 'every context, every derivation of it, every edit of either '
     'side, every query',
     'No test edits a derived context and looks at the original.',
     [CX, 'fca/mvcontext.py'],
     [('copying of names and table', CX + ':__init__'),
      ('deep copy', CX + ':__deepcopy__')])

prop('C13', 'Construction keeps names unique and sizes consistent',
     'Constructing a context keeps the given names and order; if names repeat, '
     'all of those are renamed so that all objects are distinct, all '
     'attributes are distinct, names that were unique are kept unless they '
     'look like a replacement, and every row and column stays with its '
     'position. Tables whose size disagrees with the '
     'number of names are refused, every constructed context answers '
     'lookups by its actual names, and a random context has the requested '
     'size and a cross exactly where its draw falls below the density.',
     [I, H], 'every list of names with repetitions over a small alphabet '
     'including names of the renamed form, every table size',
     'No test constructs a context with repeated names.',
     [CX], [('renaming of duplicates', CX + ':__init__')])

prop('C14', 'Derived contexts hold the relation they are named after',
     'Transposing exchanges objects and attributes, complementing negates '
     'every cross, the compound context has both, extraction keeps exactly the '
     'chosen attributes or the objects with all (or at least one) of the given '
     'attributes, and removing empty objects removes exactly the objects '
     'without attributes. Names and their order are preserved, transposing or '
     'complementing twice restores the relation, unknown attributes are '
     'refused.',
     [I], 'every context, including empty ones, and every choice of '
     'attributes',
     'Only complement-free operations on single contexts are tested.',
     [CX], [('transposition', CX + ':transpose'),
            ('extraction', CX + ':_extract_subtable')])

prop('C15', 'Contexts are equal exactly when they hold the same relation',
     'Two contexts compare equal exactly when they have the same objects, the '
     'same attributes and the same object-attribute pairs, regardless of the '
     'order of rows and columns, of how the names print and of how the '
     'contexts came about.',
     [I], 'every pair of small contexts, every permutation of rows and '
     'columns',
     'One test compares a context with one permutation.',
     [CX], [('comparison', CX + ':__eq__')])

prop('C16', 'Multiplication is the Boolean relation product',
     'The product of two contexts relates an object of the first to an '
     'attribute of the second exactly if some shared middle element connects '
     'them, and is refused unless the attributes of the first are the objects '
     'of the second in the same order; both factors stay as they were.',
     [I], 'every pair of small contexts, middle sets of more than 256 '
     'elements included',
     'One test multiplies two contexts.',
     [CX], [('product', CX + ':__mul__')])

prop('C17', 'Clarifying and reducing keep the concept lattice',
     'Clarifying keeps exactly one object for every occurring row; reducing '
     'objects (attributes) keeps exactly one representative for every row '
     '(column) that is not the intersection of one or more different rows '
     '(columns), so a full one stays and the concept lattice keeps its shape. '
     'Kept names keep their rows, columns and, when reducing, their order, '
     'and the original context is unchanged.',
     [I], 'every context, with repeated, full and empty rows, of any width',
     'No test reduces a context and compares the lattices.',
     [CX], [('reduction on row codes', CX + ':reduce_objects')])

prop('C18', 'Factorisation covers the crosses exactly, by concepts',
     'The factors produced for a context are formal concepts of it, every '
     'factor covers crosses not covered before, the reported share is that '
     'share, neither a further attribute nor another attribute alone would '
     'have given a concept covering more of what was left, and production stops exactly when the requested fraction of '
     'crosses is covered; with full coverage the Boolean product of the '
     'object-factor and factor-attribute contexts restores the relation. The '
     'weighted variant covers all crosses by concepts as well, and contexts '
     'without crosses have no factors.',
     [I], 'every context, every fidelity',
     'The tests factorise random contexts and compare products; ties, '
     'fidelities and degenerate contexts are not reached.',
     ['fca/algorithms/factors.py', CX],
     [('greedy covering', 'fca/algorithms/factors.py:algorithm2'),
      ('factor contexts', 'fca/algorithms/factors.py:make_factor_cxts')])

prop('C19', 'Conditioned factorisation respects its conditions and ends',
     'With a minimum size, a shape condition and optional exclusion of used '
     'attributes and objects, every produced factor is a formal concept of the '
     'context with at least the minimum number of objects and attributes, has '
     'at least as many objects as attributes if that is required, and covers '
     'crosses not covered before; without repetition some of an object and an '
     'attribute that are in no earlier factor. The production ends on every '
     'context without error, and does not go on when the requested fraction '
     'is covered. With repetition the reported share is never more than what '
     'is newly covered; the reported progress grows by that share at least.',
     [I], 'every context and every combination of the conditions',
     'Two fixed contexts and one random one are tested.',
     ['fca/algorithms/factors.py'],
     [('early restart', 'fca/algorithms/factors.py:algorithm2_w_condition')])

prop('C20', 'Concept indices have their defining values',
     'For every concept of every context with objects and attributes, '
     'intensional (extensional) stability is the fraction of subsets of the '
     'extent (intent) that derive the intent (extent), separation is the share '
     'of the concept\'s area in the crosses of its rows and columns, '
     'probability is the probability of its intent being closed under '
     'independent attributes, and the sizes are relative to all objects and '
     'attributes. Computing an index changes neither lattice nor context.',
     [I], 'every context with at least one object and attribute, every '
     'concept of its lattice',
     'No test computes an index.',
     ['fca/algorithms/filtering/stability.py',
      'fca/algorithms/filtering/probability.py',
      'fca/algorithms/filtering/separation.py',
      'fca/algorithms/filtering/extentsize.py',
      'fca/algorithms/filtering/intentsize.py'],
     [('counting over the lattice',
       'fca/algorithms/filtering/stability.py:compute_istability')])

prop('C21', 'Filtering keeps the best concepts and annotates them all',
     'Filtering by value keeps exactly the concepts whose index is at least '
     'the bound, by absolute number exactly that many concepts none of which '
     'is worse than one left out, and by share the best int(share * number) '
     'together with exactly those of the others whose index is below that of '
     'the best one left out by less than the gap between the last two of them, '
     'again none worse than one left out. '
     'Computing an index records its exact value at every concept under its '
     'name and keeps values recorded before.',
     [I], 'every context, every index, every bound, number and share',
     'No test filters a lattice.',
     ['fca/algorithms/filtering/filter.py'],
     [('modes', 'fca/algorithms/filtering/filter.py:filter_concepts')])

prop('C22', 'Interactive exploration keeps confirmed implications true',
     'After every history of confirming, refuting, adding and editing in an '
     'exploration, all confirmed object and attribute implications hold in the '
     'context, the open ones are exactly the members of the canonical basis '
     'not confirmed, and open and confirmed ones together entail everything '
     'that holds. A counterexample or edit that refutes nothing or contradicts '
     'something confirmed is refused with the proper error and changes '
     'nothing, and the context the exploration was started from is never '
     'changed.',
     [H], 'every history of confirmations, counterexamples, additions and '
     'edits over a small alphabet',
     'No test runs this exploration.',
     ['fca/algorithms/exploration.py'],
     [('conflict checks',
       'fca/algorithms/exploration.py:check_intent_for_conflicts'),
      ('recomputation', 'fca/algorithms/exploration.py:recompute_basis')])

prop('C23', 'The exploration database keeps context and base consistent',
     'After every history of confirming, withdrawing, adding, editing, '
     'renaming and deleting, every example respects the confirmed base, the '
     'open implications are valid, irredundant relative to the base and with '
     'it entail everything that holds. A step that would break the base or '
     'reuse a name is refused with its proper error and changes nothing, a '
     'rejected implication needs a real counterexample, and exploring with a '
     'truthful expert ends with a base equivalent to the expert\'s knowledge.',
     [H], 'every history of steps over a small alphabet, every expert '
     'knowledge over three attributes',
     'The tests make at most two steps of a session; one complete '
     'exploration is run.',
     ['fca/algorithms/exploration_/exploration.py'],
     [('guarded modifications',
       'fca/algorithms/exploration_/exploration.py:ExplorationDB')])

prop('C24', 'Exploration sessions keep accepted implications true',
     'In an exploration session, after every history of accepting candidates '
     'and rejecting implications with counterexamples, all accepted '
     'implications hold for all objects, the candidates are the basis relative '
     'to the accepted ones and with them entail everything that holds. '
     'Counterexamples that refute nothing or contradict accepted implications '
     'are refused with the proper error and change nothing, and the lists and '
     'sets handed out can be changed without effect.',
     [H], 'every history of accept and reject steps over a small alphabet',
     'The tests create a session and take no step.',
     ['fca/algorithms/exploration2/exploration.py'],
     [('background knowledge check',
       'fca/algorithms/exploration2/exploration.py:add_object')])

prop('C25', 'Partial contexts lose no admissible completion',
     'A context with certain and possible crosses is accepted exactly if every '
     'certain cross is possible; completing it by implications keeps exactly '
     'the completions of each object that respect them, makes everything '
     'forced certain and everything excluded impossible, and fails without '
     'changing anything if an object has none. Its implications are unrefuted '
     'and irredundant, there are none only if nothing is undecided, and '
     'without anything undecided they are the canonical basis.',
     [I, H], 'every partial context up to three objects and attributes, every '
     'list of up to two implications, every order of steps',
     'No test uses a partial context.',
     ['fca/partial_context.py', 'fca/compare_context.py',
      'fca/algorithms/dg_basis.py'],
     [('completion', 'fca/partial_context.py:complete'),
      ('containment of tables', 'fca/compare_context.py:subseteq_table')])

prop('C26', 'Scaling derives exactly the attributes the scales assign',
     'A many-valued context keeps the values, names and order it is given, '
     'through extraction, additions, deletions, renaming and copying. Scaling '
     'gives every object exactly the scale attributes of the scale rows whose '
     'condition its value meets, named after attribute and scale attribute, in '
     'order; nominal scales separate exactly the distinct values and ordinal '
     'scales mark exactly the bounds a value lies within.',
     [I, H], 'every small table over numbers, numeric texts and texts, every '
     'scale',
     'No passing test scales a many-valued context.',
     ['fca/mvcontext.py', 'fca/scale.py', 'fca/algorithms/scaling.py'],
     [('scaling', 'fca/algorithms/scaling.py:scale_mvcontext'),
      ('scales', 'fca/scale.py:NominalScale')])

prop('C27', 'Contexts survive writing and reading cxt files',
     'Every context written to a cxt file reads back with the same objects and '
     'attributes in order and the same crosses, provided names are single-line '
     'texts that do not look like literals or surrounding blanks, or are '
     'numbers or tuples; what a name says is never executed. The written file '
     'is a valid Burmeister file, reading does not change it, and malformed '
     'files are refused.',
     [I], 'every small context, every naming from a hostile alphabet, wide '
     'and empty contexts',
     'The tests read fixed files; none writes and reads back.',
     ['fca/readwrite/cxt.py'],
     [('reader and writer', 'fca/readwrite/cxt.py:read_cxt')])

prop('C28', 'Text and csv tables read back as written',
     'Reading a tab or comma separated table gives exactly the names, order '
     'and values the file holds, a binary table having crosses exactly where '
     'the file says one, whatever the objects are called; blanks around the '
     'names in a table are not part of the names; a many-valued '
     'context written as text reads back with the texts of its values. Both '
     'the plain and the Unicode variants do so, for tables without rows as '
     'well, for names and values without quotes, tabs or line breaks. Tables '
     'whose rows do not fit the names are refused.',
     [I], 'every small table, names and values from a hostile alphabet',
     'The doctests of the readers do not run.',
     ['fca/readwrite/tab_separated.py', 'fca/readwrite/comma_separated.py'],
     [('readers', 'fca/readwrite/tab_separated.py:read_txt_with_names')])

prop('C29', 'Concept systems survive writing and reading xml',
     'A concept system written to xml reads back with the same concepts in the '
     'same order, extents and intents with the texts of the names, and the '
     'same annotations, for names with markup characters, inner blanks and '
     'non-ASCII letters, and for empty extents, intents and systems. The file '
     'is well-formed, and repeated reading, also of other files in between, '
     'gives the same result.',
     [I, H], 'lattices of all small contexts, names from a hostile alphabet, '
     'annotations with index values',
     'The doctests of reader and writer do not run.',
     ['fca/readwrite/xml_.py'],
     [('reader and writer', 'fca/readwrite/xml_.py:read_xml')])

prop('C30', 'Exported diagrams and transaction files show the real structure',
     'The diagram file of a lattice has one node per concept, one edge per '
     'pair of neighbours pointing from the larger to the smaller, and labels '
     'every object (attribute) exactly at the smallest (largest) concept '
     'having it, or the number of labels where the format abbreviates. The '
     'transaction file has one line per object, in order, listing exactly its '
     'attributes.',
     [I], 'lattices of all small contexts, names with quotes',
     'No passing test writes a diagram.',
     ['fca/readwrite/dot.py', 'fca/readwrite/fimi.py'],
     [('own labels', 'fca/readwrite/dot.py:find_own_objects')])

prop('C31', 'The object-incremental cover is equivalent and minimal',
     'For every context the object-incremental computation gives implications '
     'valid in the context that entail all valid ones, in every order of '
     'objects, and none of them follows from a single other one. Minimising any list of implications leaves an equivalent one '
     'without redundant members, and one of the smallest possible number if '
     'the list was such a cover or its conclusions are closures. The context '
     'is left unchanged.',
     [I], 'every context, every object order',
     'No test computes a cover.',
     ['fca/algorithms/implication_covers.py'],
     [('update by an object',
       'fca/algorithms/implication_covers.py:updated_basis'),
      ('minimisation', 'fca/algorithms/implication_covers.py:minimize')])

prop('C32', 'Patterns separate positive from negative examples',
     'Every pattern offered or accepted in a pattern exploration occurs in a '
     'positive and in no negative example, and confirmed patterns stay so '
     'through every history of confirming and adding examples. Confirming '
     'something else, or a negative example that has a confirmed pattern or '
     'lacks the pattern it should refute, is refused with the proper error and '
     'changes nothing; explained and unexplained examples, and the counts of '
     'newly covered examples by decreasing number, follow from the confirmed '
     'patterns, and the given contexts are never changed.',
     [H], 'every pair of small contexts and every history of confirmations '
     'and examples',
     'No test explores patterns.',
     ['fca/algorithms/patterns.py'],
     [('pattern checks', 'fca/algorithms/patterns.py:confirm_pattern')])

TECH = ('explicit-state exploration of the real code: every case of a bounded '
        'space executed in lock-step with an independent reference model')
NOTE = ('Exhaustive within the bounds stated in the evidence file; trusts the '
        'brute-force reference model in mc/ref.py and the check in props/%s.py')


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props'))
            if f.startswith('c') and f.endswith('.py')}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mech']],
                    'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] not in have:
            na.append({'property': p['id'],
                       'reason': 'the check is not built yet'})
            continue
        cmd = 'python3 check.py ' + p['id']
        checks.append({
            'property': p['id'],
            'quick_cmd': cmd + ' --tier quick',
            'thorough_cmd': cmd + ' --tier thorough',
            'technique': p['technique'] or TECH,
            'level': 'model_checking',
            'level_note': p['note'] or NOTE % p['id'].lower()})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1,
                   'setup_cmd': 'python3 tools/setup.py',
                   'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
