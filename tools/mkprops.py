#!/usr/bin/env python3
"""Writes properties.jsonl (the list lives here so that it can be edited as ordinary text)."""
import json, os
I='include/mregex/'
def P(id,title,stmt,over,qtext,why,files,mech,observe):
    return dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=[I+f for f in files],mechanism=[dict(name=n,where=I+w) for n,w in mech],observe_at=observe,hook_needed=None))
L=[
P('C01','Exactly the documented pattern language is accepted, with exact error positions',
  'A pattern string is accepted if and only if it belongs to the documented regex syntax. Every other string is refused, and the reported error position is the index of the first character with which no valid pattern can continue, or the length of the string when it merely ends too early. (A string containing reversed range or repetition bounds may be refused for that reason instead.)',
  ['inputs'],'every string of bytes used as a pattern',
  'The tests list about two hundred accepted and rejected patterns; the language is infinite and the error position is a function of every prefix.',
  ['grammar/grammar.hpp','grammar/escapes.hpp','grammar/quantifiers.hpp','grammar/names.hpp','grammar/backrefs.hpp','grammar/hexadecimal.hpp','parser/parser.hpp','parser/state.hpp','parser/lexer.hpp'],
  [('LL(1) rule table','grammar/grammar.hpp'),('state folding over tokens','parser/state.hpp'),('escape handling','grammar/escapes.hpp')],
  ['parser verdict of a pattern at compile time']),
P('C02','A pattern has the structure its syntax prescribes',
  'Concatenation binds tighter than alternation, a quantifier applies to exactly the preceding single item with exactly the written bounds and mode, groups nest as written, capturing groups are numbered by their opening parenthesis, and a brace that does not start a quantifier is an ordinary character. The structure never depends on what follows or precedes the construct elsewhere in the pattern.',
  ['inputs'],'every accepted pattern string',
  'The AST tests compare a few dozen hand-written trees; combinations of constructs, depth, number of alternatives and digits in bounds are unbounded.',
  ['ast/build.hpp','ast/indexing.hpp','ast/transform.hpp','grammar/grammar.hpp','grammar/quantifiers.hpp','parser/parser.hpp','utility/type_sequence.hpp'],
  [('semantic actions building the tree','ast/build.hpp'),('preorder capture indexing','ast/indexing.hpp'),('aborted quantifier recovery','grammar/quantifiers.hpp')],
  ['syntax tree type of a pattern','match results of the compiled pattern']),
P('C03','A one-character construct accepts exactly its documented set of bytes',
  'Each literal, escape, hexadecimal escape, class, set, range, negation and wildcard accepts exactly the documented subset of the 256 byte values and consumes exactly one byte. Case-insensitive matching adds exactly the other case of ASCII letters, and only the wildcard changes under the option that lets it match line breaks.',
  ['inputs','configurations'],'every one-character construct, every byte value 0-255, every combination of flags',
  'Tests try a handful of ASCII characters per construct; the claim is about all 256 values (including NUL and bytes above 127), all set compositions and all flag combinations.',
  ['ast/nodes/terminals/literal.hpp','ast/nodes/terminals/range.hpp','ast/nodes/terminals/wildcard.hpp','ast/nodes/set.hpp','ast/nodes/negated.hpp','ast/astfwd.hpp','utility/char_traits.hpp','ast/build.hpp','grammar/escapes.hpp','grammar/hexadecimal.hpp'],
  [('per-character predicates','ast/nodes/terminals/range.hpp'),('set composition while parsing','ast/build.hpp'),('unsigned comparison helpers','utility/char_traits.hpp')],
  ['match result on every one-byte input']),
P('C04','Exact and prefix matching succeed exactly on the language of the pattern',
  'Matching a whole range succeeds if and only if some way of matching the pattern consumes exactly the whole range, and prefix matching succeeds if and only if some way of matching it consumes a prefix of the range. No amount of backtracking may lose such a match and none may be invented.',
  ['inputs','programs'],'every pattern, every input, every flag combination',
  'The tests assert about six hundred (pattern, input) pairs; correctness of backtracking is a statement over all of them.',
  ['regex.hpp','regex_methods.hpp','ast/nodes/sequence.hpp','ast/nodes/alternation.hpp','ast/nodes/quantifiers/repetition.hpp','ast/nodes/quantifiers/fixed_repetition.hpp','utility/continuations.hpp','utility/distance.hpp'],
  [('continuation passing backtracking','utility/continuations.hpp'),('full/prefix methods','regex_methods.hpp')],
  ['matched() and length() of results']),
P('C05','The first match in priority order is the one reported',
  'Among all ways to match, the reported one tries alternatives left to right, greedy repetitions with as many and lazy repetitions with as few iterations as possible, the leftmost choice deciding first. The ungreedy option swaps greedy and lazy for every quantifier except possessive and fixed ones and changes nothing else.',
  ['inputs','configurations'],'every pattern with several ways to match, every input, with and without the ungreedy flag',
  'Tests check a few lengths; the priority order is a total order over all matching paths and each quantifier/inner-node combination has its own code path.',
  ['ast/nodes/alternation.hpp','ast/nodes/quantifiers/repetition.hpp','ast/nodes/quantifiers/fixed_repetition.hpp','regex_flags.hpp'],
  [('greedy and lazy loops, trivial and general','ast/nodes/quantifiers/repetition.hpp'),('ordered alternatives','ast/nodes/alternation.hpp')],
  ['extent of matches and captures']),
P('C06','Atomic groups and possessive quantifiers never give back what they took',
  'An atomic group commits to the first-priority match of its content. A possessive repetition takes its minimum number of iterations in the first way possible and then as many more as its bounds allow, each committing to its own first-priority match, until one fails or (if unbounded) matches nothing. If the rest of the pattern fails afterwards, no shorter, longer or alternative match of it is tried.',
  ['inputs'],'every pattern containing an atomic group or possessive quantifier, every input',
  'Tests contain a few dozen possessive patterns; the interaction with the rest of the pattern and with enclosing repetitions is unbounded.',
  ['ast/nodes/quantifiers/repetition.hpp','ast/nodes/quantifiers/fixed_repetition.hpp','grammar/grammar.hpp'],
  [('matching with an accepting continuation','ast/nodes/quantifiers/fixed_repetition.hpp'),('possessive loop','ast/nodes/quantifiers/repetition.hpp')],
  ['match results']),
P('C07','Groups report what they last captured on the successful path, and nothing else',
  'After a successful match every capturing group, by number or by name, holds exactly the part of the input it matched last on the accepted path, and is empty if it did not take part. Text captured on abandoned paths, in failed iterations, at earlier search positions or inside negative lookarounds is never visible.',
  ['inputs','histories'],'every pattern with capturing groups, every input, every backtracking history',
  'Tests read groups of a few straight-line matches; leaks need a capture followed by a failure further on.',
  ['ast/nodes/capture.hpp','ast/capture_snapshot.hpp','ast/indexing.hpp','ast/traits.hpp','regex_capture_storage.hpp','match_result.hpp','regex_match_context.hpp'],
  [('set on success, restore on failure','ast/nodes/capture.hpp'),('snapshot at commit points','ast/capture_snapshot.hpp'),('numbering','ast/indexing.hpp')],
  ['group<N>() and group<"name">() of results']),
P('C08','A backreference matches exactly the current content of its group',
  'A numeric or named backreference consumes exactly the text its group currently holds (ignoring ASCII case only when case-insensitive), and matches the empty string when the group holds nothing. Multi-digit references address the group with that number.',
  ['inputs','histories'],'every pattern with backreferences, every input, at every point of the backtracking history, forwards and inside lookbehinds',
  'Tests use fewer than twenty backreference patterns with fixed captures.',
  ['ast/nodes/terminals/backref.hpp','grammar/backrefs.hpp','grammar/names.hpp','utility/reversed_range_view.hpp','utility/distance.hpp'],
  [('lookup and comparison','ast/nodes/terminals/backref.hpp'),('reference parsing','grammar/backrefs.hpp')],
  ['match results']),
P('C09','Lookarounds test the surrounding text without consuming or leaking anything',
  'A lookahead (lookbehind) holds at a position exactly when its expression matches some text starting (ending) there within the whole input, its negation holds exactly otherwise, and neither moves the position. Arbitrary expressions are allowed in lookbehinds, including nested lookarounds, anchors, repetitions and references.',
  ['inputs'],'every lookaround expression, nesting, input and position',
  'Tests contain a few dozen lookarounds of short expressions; mirroring must be right for every expression and nesting.',
  ['ast/predicates/lookaround_predicate.hpp','ast/predicates/negate.hpp','ast/inversion.hpp','ast/nodes/assertion.hpp','ast/nodes/lookaround.hpp','utility/type_sequence.hpp'],
  [('tree mirroring','ast/inversion.hpp'),('sub-match with an accepting continuation','ast/predicates/lookaround_predicate.hpp')],
  ['match results']),
P('C10','Anchors and word boundaries hold exactly at the documented positions',
  'Input anchors hold only at the ends of the whole input, line anchors additionally next to line breaks when (and only when) multi-line matching is on, and a word boundary holds exactly between a word and a non-word character, the ends counting as non-word. They always refer to the whole input, also when a search or iteration continues in its middle.',
  ['inputs','configurations'],'every input, every position in it, every entry point and flag combination',
  'Tests try a few positions in a few strings.',
  ['ast/predicates/anchor_predicates.hpp','ast/nodes/terminals/anchors.hpp','ast/inversion.hpp','match_result_generator.hpp','regex_methods.hpp'],
  [('position predicates','ast/predicates/anchor_predicates.hpp')],
  ['match results and their positions']),
P('C11','Searching finds the leftmost match, everywhere in the input',
  'A search succeeds if and only if the pattern matches starting at some position of the input, end included, and it reports the match starting at the smallest such position, the same one that matching at that position alone would give. Attempts at earlier positions leave no trace in the result.',
  ['inputs','histories'],'every pattern and every input',
  'Tests search a few dozen strings.',
  ['regex_methods.hpp','regex.hpp','ast/nodes/capture.hpp'],
  [('scan over start positions','regex_methods.hpp')],
  ['search results']),
P('C12','Iterating yields exactly the consecutive matches, then stops for good',
  'Successive results of a tokenizer (searcher) are the matches found by prefix matching (searching) from the end of the previous match, with anchors and lookbehinds still seeing the whole input; the sequence ends at the first failure or after one empty match and never resumes, however often it is asked again. The lazy ranges yield the same sequence element by element.',
  ['inputs','histories'],'every pattern, input and sequence of calls on generators and ranges',
  'Tests iterate over a handful of inputs to the end once.',
  ['match_result_generator.hpp','utility/input_range_adapter.hpp','regex.hpp'],
  [('generator state','match_result_generator.hpp'),('range adapter','utility/input_range_adapter.hpp')],
  ['results of next(), operator(), active(), range iteration']),
P('C13','Matching terminates on every input, also for loops that can match nothing',
  'Every call returns for every pattern and finite input, including unbounded repetitions of expressions that can match the empty string. An optional iteration of an unbounded repetition that would match nothing is not taken, which never loses a match of a backtracking repetition and never changes how often a repetition must occur at least.',
  ['inputs','programs'],'every pattern with repetitions whose body may match empty text, every input',
  'Tests have a few nullable loops; detection is structural and must hold for every nesting.',
  ['ast/nodes/quantifiers/repetition.hpp','ast/traits.hpp','match_result_generator.hpp'],
  [('empty iteration guard','ast/nodes/quantifiers/repetition.hpp'),('nullability trait','ast/traits.hpp')],
  ['return of the call within a time limit, match results']),
P('C14','Results do not depend on iterator kind, unrolling or constant evaluation',
  'The same pattern and text give the same result through every supported iterator category and range type, through iterator pairs and range overloads, with or without the unrolling flag, and in constant evaluation as at run time. Inputs that only support forward iteration suffice for everything except lookbehinds and word boundaries.',
  ['inputs','configurations'],'every pattern, input, iterator category (forward, bidirectional, random access, contiguous, reverse), flag and evaluation mode',
  'Nearly all tests use string literals in constant evaluation; the per-category code paths are selected by concepts and hardly sampled.',
  ['ast/nodes/sequence.hpp','ast/nodes/quantifiers/fixed_repetition.hpp','ast/nodes/quantifiers/repetition.hpp','utility/distance.hpp','utility/concepts.hpp','utility/type_traits.hpp','regex.hpp','ast/nodes/terminals/backref.hpp'],
  [('concept-selected overloads','ast/nodes/quantifiers/fixed_repetition.hpp'),('range overloads','regex.hpp')],
  ['results of the same call through different types']),
P('C15','Matching reads nothing outside the given range',
  'No call ever dereferences the end position, a position outside the range it was given, or moves an iterator before its beginning or past its end. In particular the content around a sub-range of a larger buffer has no influence on the result.',
  ['inputs','configurations'],'every pattern, input and iterator category',
  'Out-of-range reads usually go unnoticed; constant evaluation only catches them on the sampled inputs.',
  ['ast/nodes/trivially_matchable.hpp','ast/nodes/sequence.hpp','ast/nodes/quantifiers/fixed_repetition.hpp','ast/nodes/quantifiers/repetition.hpp','ast/nodes/terminals/backref.hpp','ast/predicates/anchor_predicates.hpp','ast/predicates/lookaround_predicate.hpp','utility/distance.hpp'],
  [('length checks before unrolled reads','utility/distance.hpp'),('end checks','ast/nodes/trivially_matchable.hpp')],
  ['every dereference and movement of a checked iterator']),
P('C16','Result objects are faithful and stay faithful',
  'All ways of reading a result (matched flag, length, iterators, numbered and named groups, structured bindings, visiting or transforming groups, text conversion, optional conversion) agree with each other, and a failed result has length zero and only empty groups. Results that own their text hold equal copies that stay valid and unchanged after the input is gone.',
  ['inputs','histories'],'every pattern, input, accessor, value category and conversion',
  'Tests read most accessors once; agreement must hold for all results, in particular failed ones and owning ones.',
  ['match_result.hpp','regex_capture.hpp','regex_capture_storage.hpp','utility/tuple.hpp','regex.hpp','utility/type_traits.hpp','regex_methods.hpp'],
  [('result container','match_result.hpp'),('owning captures','regex_capture.hpp')],
  ['every accessor of a result']),
P('C17','Expressions mean the same as the equivalent pattern',
  'A regex composed from expression components and operators gives, for every input and method, the same results as the pattern string it corresponds to, whatever the nesting, order and number of components, and however sub-expressions are shared or mixed with pattern strings.',
  ['inputs','programs'],'every composition of expression components, every input',
  'Tests compare the types of about sixty expressions; composition is recursive.',
  ['xpr/components.hpp','xpr/adapters.hpp','xpr/operators.hpp','xpr/providers.hpp','xpr/flags.hpp'],
  [('component constructors','xpr/components.hpp'),('flattening','xpr/adapters.hpp')],
  ['match results of the composed regex']),
P('C18','Flags act independently, in any order, and only as documented',
  'A regex behaves according to the set of its flags: order and repetition of flags do not matter, adding flags to a regex equals having written them from the start, clearing them restores the plain behaviour. Each flag has exactly its documented effect independently of the others, and unrolling has no visible effect.',
  ['inputs','configurations'],'every pattern, every input, every subset, order and repetition of flags',
  'Tests use mostly single flags on a few patterns.',
  ['regex_flags.hpp','regex.hpp','xpr/flags.hpp','ast/nodes/terminals/literal.hpp','ast/nodes/terminals/wildcard.hpp','ast/predicates/anchor_predicates.hpp','ast/nodes/quantifiers/repetition.hpp'],
  [('flag set','regex_flags.hpp'),('flag metafunctions','regex.hpp')],
  ['match results under flag combinations']),
P('C19','Meaningless patterns are refused at compile time, meaningful ones always compile',
  'Using a pattern with a syntax error, reversed range or repetition bounds, or a reference to a group that does not exist is a compilation error, never a silently different regex. Every other accepted pattern compiles and can be used with every method.',
  ['inputs','programs'],'every pattern string',
  'A test suite that compiles cannot contain patterns that must not compile, and it samples few of those that must.',
  ['parser/parser.hpp','ast/nodes/terminals/range.hpp','ast/nodes/quantifiers/repetition.hpp','ast/nodes/terminals/backref.hpp','symbols/quantifiers.hpp','match_result.hpp'],
  [('static assertions','parser/parser.hpp'),('bounds assertions','ast/nodes/quantifiers/repetition.hpp')],
  ['outcome of compiling a use of the pattern']),
P('C20','Calls do not influence each other and leave their input alone',
  'What a call returns depends only on the regex, the method and the text it is given at that time. It does not depend on which calls were made before, how often, in which order, by which thread, or are being made at the same time on the same or another text, nor on what was stored before at the same place in memory. Generators and ranges advance only when they are asked to, whatever else is matched in between. No call modifies its input, also through iterators that would allow it.',
  ['histories','schedules','inputs'],'every set of calls, their order and interleaving (also within each other, through user-defined iterators), every placement of the texts in memory',
  'The tests are independent single calls, most of them in constant evaluation; they never use a buffer twice, never match in two threads and never look at the input afterwards.',
  ['regex.hpp','regex_methods.hpp','regex_match_context.hpp','match_result_generator.hpp','utility/input_range_adapter.hpp','ast/nodes/terminals/backref.hpp','ast/predicates/lookaround_predicate.hpp','ast/nodes/capture.hpp'],
  [('context created per call','regex_match_context.hpp'),('methods without state','regex_methods.hpp'),('generator state','match_result_generator.hpp')],
  ['results of calls made in sessions with others, content of the texts afterwards']),
]
for p in L:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in L))

TECH={}
for p in L: TECH[p['id']]='TLA+ specification checked with TLC; traces recorded from the compiled library validated against it by TLC'
TECH['C01']='TLA+ push-down automaton and independent syntax description checked with TLC; every enumerated and derived pattern string replayed in the real parser and its verdict validated by TLC'
TECH['C13']+='; every observed call has a time limit'
TECH['C15']+='; checked iterators and address sanitizer turn stray reads into trace events'
TECH['C20']='TLA+ model of interleaved calls checked with TLC; traces of nested, repeated and concurrent calls of the compiled library validated against the specification of single calls by TLC; thread sanitizer reports become trace events'
TECH['C19']='TLA+ well-formedness predicate; outcomes of compiling programs validated against it by TLC'
NOTE='Bounded: TLC checks the specification against independent definitions on all small patterns and inputs listed in the evidence; the real code is bound to it by validating, event by event, what it did on enumerated, systematic and seeded random patterns and inputs. Trusts TLC, the compiler and the recorder in harness/vh.hpp.'
m=dict(version=1,setup_cmd='true',checks=[dict(property=p['id'],quick_cmd='python3 tools/check.py %s quick'%p['id'],
    thorough_cmd='python3 tools/check.py %s thorough'%p['id'],evidence_file='evidence/%s.json'%p['id'],technique=TECH[p['id']],level='model_checking',level_note=NOTE) for p in L],
    not_applicable=[],notes='No hooks in /repo: the library is header-only and everything is observed through its public interface.')
open(os.path.join(os.path.dirname(__file__),'..','MANIFEST.json'),'w').write(json.dumps(m,indent=1)+'\n')
