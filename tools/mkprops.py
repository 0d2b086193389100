#!/usr/bin/env python3
"""Single source of properties.jsonl (kept as code so that the statements are easy to review)."""
import json, os
M = 'pomelo-impl/src/parser/mod.rs'
F = 'pomelo-impl/src/lib.rs'
def P(id, title, statement, over, text, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe, hook_needed=None))
API = ['generated Parser::parse / Parser::end_of_input', 'semantic actions run by the generated parser']
MAC = ['result of expanding pomelo! (success or compile error)']
props = [
P('C01', 'The parser accepts exactly the language of the grammar',
  'For every grammar without conflicts (and without fallback, wildcard or error symbol), feeding a token sequence and then calling end_of_input succeeds if and only if the start symbol of the grammar derives that sequence. No sentence is ever rejected and no non-sentence is ever accepted.',
  ['programs', 'inputs'], 'every conflict-free grammar; every finite token sequence over its tokens',
  'The tests run about a dozen fixed grammars on one or two inputs each; acceptance must agree with derivability for every grammar and every input.',
  [M, 'src/lib.rs'], [('LR(0) states and LALR(1) lookaheads', M+': find_first_sets, find_states, find_links, find_follow_sets, find_actions'),
   ('table packing and lookup', M+': compress_tables, resort_states, ActTab::insert_action_set, generated yy_find_shift_action*')], API),
P('C02', 'Semantic actions replay the derivation bottom-up with the right values',
  'On an accepted input each rule action runs exactly once per node of the derivation tree, children before parents and left to right, and each alias in an action is bound to the value of exactly the symbol it names. The value returned by end_of_input is the value computed for the start symbol.',
  ['programs', 'inputs'], 'every accepted grammar, with any mix of typed, untyped, aliased and unaliased symbols; every accepted input',
  'Tests look at final sums of tiny grammars; order, multiplicity and positional binding of values must hold for every rule shape and every derivation.',
  [M], [('reduce code generation', M+': translate_code, generate_source (yy_reduce, accept code)'), ('type numbering', M+': generate_source (dt_num)')], API),
P('C03', 'Grammars are accepted exactly when they are LALR(1) after precedence',
  'A well-formed grammar is compiled into a parser exactly when every LALR(1) conflict it has is settled by precedence and every rule can be reduced in some state; otherwise the macro reports a compile-time error, and no conflict is ever settled silently. The code generated for an accepted grammar always compiles.',
  ['programs'], 'every syntactically well-formed list of declarations without type errors in user code',
  'The existing tests contain only a handful of accepted grammars and a handful of rejected ones.',
  [M], [('lookahead computation', M+': configlist_closure, find_follow_sets'), ('conflict detection', M+': find_actions, resolve_conflict, build')], MAC),
P('C04', 'Precedence and associativity settle shift/reduce conflicts as declared',
  'When a token could be shifted or a rule reduced, the one with the higher precedence wins, where the precedence of a rule is that of its [Token] mark or else of its first symbol that has one; with equal precedence, left associativity reduces and right associativity shifts. If the token or the rule has no precedence the conflict is a compile error.',
  ['programs', 'inputs'], 'every grammar with %left/%right/%nonassoc levels and [Token] marks; every input',
  'Tests evaluate a couple of arithmetic expressions with one precedence layout.',
  [M], [('conflict resolution', M+': resolve_conflict, precedence_cmp, find_rule_precedences'), ('precedence levels', M+': parse_one_decl (Decl::Assoc)')], MAC+API),
P('C05', 'Nonassoc operators never chain',
  'When a token declared %nonassoc and a rule of the same precedence conflict, that token is a syntax error at that point, whatever other features (wildcard, fallback, default reductions, other rules) the grammar uses. Operators of different levels still combine normally.',
  ['programs', 'inputs'], 'every grammar with nonassoc levels; every input',
  'No existing test feeds a chain of nonassociative operators.',
  [M], [('nonassoc resolution', M+': resolve_conflict'), ('error entries in the tables', M+': compress_tables, compute_action')], MAC+API),
P('C06', 'Reduce/reduce conflicts are resolved only by strictly different precedence',
  'When two rules can be reduced on the same lookahead, the rule with strictly higher precedence is reduced; if either has no precedence or both have the same level the macro reports a conflict at compile time.',
  ['programs', 'inputs'], 'every grammar with overlapping reductions; every input',
  'No existing test has a reduce/reduce conflict.',
  [M], [('conflict resolution', M+': resolve_conflict')], MAC+API),
P('C07', 'A syntax error is signalled at the first token that cannot continue',
  'For every conflict-free grammar (every nonterminal deriving some sentence; no fallback, wildcard or error symbol), parse returns Ok for a token if the tokens so far are a prefix of some sentence, and the error is signalled at the first token for which they are not: before that token is consumed and before any later call. End of input is an error exactly when the tokens so far are not a sentence.',
  ['programs', 'inputs'], 'every conflict-free grammar; every token sequence, cut at every point',
  'Tests only check that some bad inputs eventually fail.',
  [M], [('error detection', M+': generated yy_parse_token_2'), ('default reductions', M+': compress_tables')], API),
P('C08', 'Behaviour does not depend on the size of the grammar',
  'The parser behaves the same however many tokens, nonterminals, rules and states the grammar has: the width and layout of the generated tables never change what is accepted, which actions run or which tokens are expected.',
  ['programs', 'inputs'], 'grammars with from one up to several hundred symbols, rules and states, with lookaheads placed anywhere in the token numbering',
  'The largest grammar in the tests has a few dozen states; the integer-width boundaries (128, 256, ...) are never reached.',
  [M], [('integer widths', M+': minimum_signed_type, minimum_unsigned_type, offset types'), ('table packing', M+': ActTab::insert_action_set'), ('state renumbering', M+': resort_states')], API),
P('C09', 'Fallback tokens are tried exactly when the original token has no action',
  'A token with a fallback is treated as itself wherever the grammar gives it an action, and otherwise exactly as its fallback (transitively), keeping its own value; only if the whole chain has no action is it a syntax error. Fallback never changes the parse of an input in which every token could be parsed as itself.',
  ['programs', 'inputs'], 'every grammar with %fallback chains, typed or untyped; every input',
  'Tests have two fallback grammars with one input each; the interaction with default reductions, wildcard and typed aliases is not explored.',
  [M], [('fallback lookup', M+': generated yy_find_shift_action_2, YY_FALLBACK'), ('compression guard', M+': compress_tables (ignored_actions)')], API),
P('C10', 'The wildcard matches any token, but only when nothing else does',
  'Where the grammar allows the wildcard, any token that has no action of its own (directly or through its fallback) is accepted in its place; where a token has its own action, that one is taken. End of input never matches the wildcard, and default reductions never hide it.',
  ['programs', 'inputs'], 'every grammar with %wildcard; every input',
  'One test uses a wildcard, in a single context.',
  [M], [('wildcard lookup', M+': generated yy_find_shift_action_2'), ('compression guard', M+': compress_tables (uses_wildcard)')], API),
P('C11', 'An optional symbol matches zero or one occurrence as None or Some',
  'X? in a rule (X a token, nonterminal, token class or compound) accepts both the absence and one occurrence of X and nothing else, and its alias is None or Some(value) respectively, with an untyped X giving Option<()>. All the uses of the same X? in a grammar are the same symbol.',
  ['programs', 'inputs'], 'every grammar using ?, in any position; every input',
  'Tests use ? in two simple grammars.',
  [M, F], [('optional desugaring', M+': parse_one_decl (optional_tokens), prepare')], MAC+API),
P('C12', 'Compounds and token classes match any member with its own value',
  'A|B|C in a rule, or a name declared with %token_class, matches exactly one token of the set, and the alias (allowed only when all members have the same type) is the value of the token that was matched. The members can still be used as individual tokens elsewhere in the grammar; overlapping alternatives in the same place are a compile-time conflict.',
  ['programs', 'inputs'], 'every grammar with compounds and token classes; every input',
  'Tests have one grammar with compounds and one with a token class.',
  [M], [('multi-terminals', M+': symbol_new, build_shifts, find_first_sets, configlist_closure, translate_code')], MAC+API),
P('C13', 'Symbol types follow %type, %default_type and %extra_token',
  'Every symbol holds the type given by %type, else the %default_type, else (); with %extra_token every token holds the extra data, paired with its own data if it has any. A rule without code whose left side has a type forwards its only typed right-hand symbol when none is aliased, and any other such rule is rejected.',
  ['programs', 'inputs'], 'every combination of typed and untyped symbols with these directives; every input',
  'Tests use each directive once, never in combination.',
  [M], [('types', M+': prepare, generate_source'), ('auto-forward', M+': normalize_rules')], MAC+API),
P('C14', 'Invalid declarations are rejected with a diagnostic, never a panic or a hang',
  'Duplicate or ill-formed declarations (repeated single-use directives, wrong symbol case, repeated type or precedence, fallback loops, nested or empty token classes, start symbol on a right-hand side, undefined nonterminals, unreducible rules, incompatible types) are all reported as a compile error by the macro. The macro always terminates and never panics, and valid declarations are never rejected.',
  ['programs'], 'every sequence of syntactically well-formed declarations',
  'The compile-fail tests sample about forty single mistakes.',
  [M, F], [('declaration checks', M+': parse_one_decl'), ('later checks', M+': prepare, normalize_rules, find_states, configlist_closure, find_actions, generate_source')], MAC),
P('C15', 'The order of the declarations does not matter beyond what is documented',
  'Moving directives and rules around changes neither the set of accepted inputs nor the actions run on them, except that precedence levels follow the order of %left/%right/%nonassoc and the start symbol defaults to the left side of the first rule. An explicit %start_symbol wins wherever it is written.',
  ['programs', 'inputs'], 'every grammar; every permutation of its declarations that keeps precedence order; every input',
  'Each test grammar is written in one order only.',
  [M], [('declaration processing', M+': parse_one_decl, prepare')], MAC+API),
P('C16', 'Without an error symbol, errors drop tokens and are reported throttled',
  'If the grammar does not use the error symbol, a token that cannot be parsed is discarded and the parse goes on as if it had not come (reductions made before the error was found stay made); the syntax-error code runs for it unless fewer than three tokens have been shifted since the previous error (reported or not), and if it returns Err that value is returned by parse, and otherwise parse returns Ok. The code receives that token with its value.',
  ['programs', 'inputs', 'fault_sequences'], 'every grammar without the error symbol; every sequence of good and bad tokens; syntax-error code returning Ok or Err at any occurrence',
  'Tests never continue a parse after a syntax error without the error symbol.',
  [M], [('error processing', M+': generated yy_parse_token_2, yy_syntax_error')], API),
P('C17', 'With an error symbol, recovery unwinds to the nearest state that can shift it',
  'On a syntax error in a grammar that uses error, the parser pops states until error is the topmost symbol, and then just discards the offending token, or until the first state that can shift error, and then it runs the syntax-error code once, shifts error with the value that code returns and discards the offending token. If no such state is found, the parse-failure code runs and parse returns its value; every later token is parsed from the recovered state as usual.',
  ['programs', 'inputs', 'fault_sequences'], 'every grammar using the error symbol; every sequence of good and bad tokens; syntax-error code returning Ok or Err',
  'Two tests recover from one error each.',
  [M], [('recovery loop', M+': generated yy_parse_token_2, yy_find_reduce_action')], API),
P('C18', 'An incomplete input fails at end_of_input through the parse-failure code',
  'When end_of_input is called and the tokens so far do not form a complete input, the parse-failure code is run exactly once, after all pending values have been released and without running the syntax-error code, and its value is the error returned. Default codes return the default value of the error type.',
  ['programs', 'inputs'], 'every grammar; every input cut at every point, also after recovered errors',
  'Few tests end an input prematurely and none observes which callback runs.',
  [M], [('end of input', M+': generated yy_parse_token_2, yy_parse_failed, end_of_input_priv')], API),
P('C19', 'The expected-token list is exactly the tokens with an action',
  'The expected list given to the syntax-error code contains, in order of token numbering and without repetition, exactly the tokens for which the state where the error was found has an action (counting fallback and wildcard, excluding nonassoc errors), and never the offending token. Every token that can be parsed from that state is included, and the token field is filled exactly for the tokens without data.',
  ['programs', 'inputs'], 'every grammar; every erroneous input',
  'One test compares the list for one state of one grammar.',
  [M], [('expected tokens', M+': generated ExpectedTokens::next, token_build')], API),
P('C20', 'Action errors propagate verbatim and a failed parser cannot be used again',
  'If an action (or any callback) yields an error, the very parse or end_of_input call that ran it returns exactly that error and no further action runs. After any error from parse, another parse or end_of_input call panics instead of doing anything, while the extra argument is still accessible.',
  ['programs', 'inputs', 'fault_sequences'], 'every grammar; every input; an error raised by the n-th action for every n; calls after the failure',
  'No test calls a parser after it failed or raises an error from an inner action.',
  [M], [('status', M+': generated yy_parse_token, YYStatus, yy_reduce')], API),
P('C21', 'The stack limit is exact and harmless below it',
  'With %stack_size N (default 100) a parse overflows exactly when it would hold N states plus one (the initial state counts), then the overflow code runs, receiving the token being shifted (or none for a nonterminal), and its value is returned; below the limit the result is the same as with an unlimited stack. %stack_size 0 never overflows, and any stack type with the documented interface gives the same behaviour.',
  ['programs', 'inputs', 'configurations'], 'every grammar; every limit; every nesting depth; default and custom stack types',
  'One test overflows once, at one limit.',
  [M], [('limit check', M+': generated yy_shift'), ('stack type', M+': generate_source (YYStack)')], API),
P('C22', 'The extra argument and extra token data are threaded unchanged',
  'Every action and callback sees, as extra, the one value given to Parser::new with all the modifications made so far, also readable through extra(), extra_mut() and into_extra() (even after a failure) and returned by end_of_input. With %extra_token, Token::extra, extra_mut and into_extra give the extra data of any token, typed or not.',
  ['programs', 'inputs', 'histories'], 'every grammar with these directives; every input and every history of calls and modifications',
  'Tests use the extra argument as a counter in one successful parse.',
  [M], [('extra argument', M+': generate_source (impl_parser, yyrules)'), ('extra token', M+': prepare, generate_source (token_extra)')], API),
P('C23', 'Parser instances are independent',
  'Any interleaving of calls on several parsers, of the same or of different grammars, gives for each one the same results, actions and values as running it alone, including failures of the others.',
  ['schedules', 'inputs'], 'every interleaving of calls to several live parsers',
  'Tests never have two parsers alive at the same time.',
  [M], [('parser state', M+': generated struct Parser')], API),
P('C24', 'Every token and semantic value is dropped exactly once and none is invented',
  'Each value given to the parser or produced by an action is passed to at most one action or callback, or returned as the root value, or dropped by the parser; nothing is duplicated, leaked or dropped twice, on success, syntax error, recovery, action error, overflow or drop of the parser. Values that are no longer needed are released in the call that discards them, and a failed parse releases the pending ones before its parse-failure code runs.',
  ['programs', 'inputs', 'fault_sequences'], 'every grammar; every input; every failure point',
  'Tests use Copy or plain values and never observe drops.',
  [M], [('stack entries', M+': YYStackEntry, yy_reduce, yy_parse_failed, recovery loop')], API),
P('C25', 'The automaton report is faithful',
  'The dump printed by %verbose and the one in a conflict error list exactly the LALR(1) states of the grammar with their items and actions, every unresolved conflict being marked as such and every action dropped by precedence as dropped. A conflict error is reported exactly when the dump marks some conflict.',
  ['programs'], 'every grammar, with or without conflicts',
  'No test looks at the report.',
  [M], [('report', M+': report_output, build')], ['standard output of the compiler for %verbose', 'text of the conflict error']),
P('C26', 'Rust fragments appear unchanged: generics, attributes, visibility, hygiene',
  'The visibility, attributes and generic parameters written in %token and %parser, the attributes of the tokens in %type and the items of %include appear unchanged in the generated module, whatever the order of the declarations. Without %parser, Parser has the generic parameters of Token; with both, a parameter of Token that Parser does not have, a non-empty body and attributes on a nonterminal are compile errors. The code of the user keeps its own spans and hygiene: its names resolve where it was written and its mistakes are reported where they are. With a stack type of its own a parser needs only core.',
  ['programs'], 'every combination of these fragments',
  'Tests compile a few such fragments; which combination breaks is not known in advance.',
  [M, F], [('expansion of %token, %parser, %type and %include', M+': generate_source'), ('splicing of blocks', M+': generate_source, translate_code (quote_spanned)')],
  ['generated items, shown by an attribute macro', 'diagnostics and line!() of the generated module']),
P('C27', 'Every declaration is read as written, whatever its notation and neighbours',
  'A text in the documented notation is read as the declarations it denotes, token by token: directives ended by a semicolon, blocks with an optional one, lists of any length, symbols with |, ? and any irrefutable pattern as alias, [Token] marks, rules closed by a semicolon or by code, with any legal identifiers (directive names and raw ones included), any spacing and comments, and also when parts of it are arguments of a macro_rules!. Any other text is a compile error reported at its first token that cannot continue; nothing that was written is ever ignored.',
  ['programs'], 'every sequence of Rust tokens given to the macro',
  'Each test writes its grammar in one way; the wrong texts are infinitely many and almost none is tested.',
  [F, 'pomelo-impl/src/decl.rs'], [('reading of declarations', F+': Decl::parse, Decls::parse')], MAC + API),
]
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
