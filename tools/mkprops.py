#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source for the property list).
import json
T='packages/teleparse/src/'; M='packages/macros/src/'; B='packages/book/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state.split()[1],"meaning":"state carried between calls","where":state.split()[0]}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","The lexer splits every input into tokens, ignored text and invalid text",
 "For every input, reading all tokens yields the longest-match tokens of the lexicon's rules, in source order and without overlap, where text matched by no rule and not ignored is reported as unexpected characters, once for each maximal run that no token interrupts, from its first to its last unmatched character. Every byte of the input is in exactly one of: a grammar token, a set-aside (extracted) token, ignored text, or a reported invalid run, and positions are byte offsets that fall on character boundaries.",
 ["inputs"],"every input string up to a length bound over an alphabet that exercises each lexer rule, for several lexicons (literals sharing prefixes, regexes overlapping literals, extracted tokens, multi-byte characters, ignore rules)",
 "The tests lex a dozen sentences; the merge of invalid runs, extraction and skipping interact only for particular adjacent combinations.",
 [T+'lex/lexer.rs',T+'parser/parser_impl.rs',M+'lexicon.rs'],
 [("token rules and skip rules of the derived lexer",M+"lexicon.rs expand"),("merging of consecutive invalid input",T+"lex/lexer.rs LogosLexerWrapper::next"),("setting extracted tokens and invalid spans aside",T+"parser/parser_impl.rs try_read_next_token")],
 observe="tokens returned by the parser's token stream; info().tokens / extracted_tokens / invalid_source / errors")
p("P02","FIRST sets are exact for every grammar",
 "For every grammar, the FIRST set computed for each production is exactly the set of terminals (token type with a specific literal, or with any content) that can begin a string derived from it, plus the empty symbol if and only if it can derive the empty string.",
 ["programs"],"every grammar up to a size bound (number of productions, alternatives, sequence length) over terminals with and without literals, including recursive and mutually recursive ones, in every assignment of production identities",
 "Tests compare the sets of one textbook grammar and a few library types; the computation is a fixpoint whose errors depend on nullability, recursion and processing order.",
 [T+'syntax/first/builder.rs',T+'syntax/first/set.rs',T+'syntax/term_set.rs',T+'syntax/lit_set.rs'],
 [("fixpoint over FIRST relations",T+"syntax/first/builder.rs process_rels"),("set union with literal / any-literal terminals",T+"syntax/lit_set.rs union")],
 observe="Metadata.first.get")
p("P03","FOLLOW sets are exact for every grammar",
 "For every grammar and root, the FOLLOW set computed for each production is exactly the set of terminals that can come right after it in a sentential form derived from the root, plus the end-of-input symbol if and only if it can end such a form.",
 ["programs"],"every grammar up to a size bound, as for FIRST",
 "Same as FIRST: nullable elements between two symbols, recursion and processing order decide the result, and tests check one grammar.",
 [T+'syntax/follow/builder.rs',T+'syntax/follow/set.rs',T+'syntax/metadata.rs'],
 [("fixpoint over FOLLOW relations",T+"syntax/follow/builder.rs build / process_rel"),("relations of a sequence",T+"syntax/follow/builder.rs build_sequence")],
 observe="Metadata.follow.get")
p("P04","A grammar is accepted exactly when it is LL(1)",
 "A grammar is accepted if and only if it is LL(1): no two alternatives can start with the same terminal or both be empty, and nothing that can be empty can start with a terminal that may also follow it. When it is rejected, the error names a production, by a name that denotes what that production matches, and terminals, that really have the reported kind of conflict; and every way of using the grammar (parsing in one step, parsing with a parser, again on the same parser, asserting that it is LL(1)) reports that error and nothing else.",
 ["programs"],"every grammar up to a size bound, as for FIRST",
 "Tests list about ten rejected grammars; both wrongly accepted and wrongly rejected grammars are combinations nobody wrote down.",
 [T+'syntax/metadata.rs',T+'syntax/first/set.rs',T+'syntax/follow/set.rs'],
 [("conflict checks",T+"syntax/metadata.rs check_conflicts, check_self_first_follow_conflict"),("intersection of terminal sets",T+"syntax/term_set.rs intersects, intersection_repr")],
 observe="Result of building the grammar's metadata (Root::metadata / Metadata::build_for), and what Root::parse, Parser::parse and Root::assert_ll1 say")
p("P05","Left-recursive grammars are always rejected",
 "Every grammar in which a production can reach itself again without consuming a token is rejected when the grammar is built, so that no accepted grammar can make the parser recurse without consuming input. A left-recursion error is reported only for grammars that are left-recursive, and the stack it shows is a real cycle.",
 ["programs"],"every grammar up to a size bound, with left recursion direct, mutual, hidden behind elements that can be empty, reachable only through non-leftmost positions, or absent",
 "No test contains a left-recursive grammar, and an undetected one overflows the stack only on an input that reaches it.",
 [T+'syntax/metadata.rs',T+'lib.rs'],
 [("left recursion check",T+"syntax/metadata.rs check_left_recursive"),("error text",T+"lib.rs GrammarError::left_recursion")],
 observe="Result of building the grammar's metadata")
p("P06","Prediction picks the one alternative that fits the next token",
 "For every accepted grammar, every production with alternatives and every next token or end of input, the predicted alternative is the one that can start with that token, or the one that can be empty if the token (or the end of input) can follow the production; if the token can neither start nor follow the production, nothing is predicted.",
 ["programs","inputs"],"every LL(1) grammar up to a size bound times every token kind (each literal, another content of the same type, end of input)",
 "The table is derived from sets of literals and any-literal entries; only combinations of both and of empty alternatives expose a wrong entry.",
 [T+'syntax/jump.rs',T+'syntax/metadata.rs',T+'syntax/first/set.rs',M+'syntax.rs'],
 [("jump table construction",T+"syntax/metadata.rs build_jump"),("jump table look-up",T+"syntax/jump.rs look_up, look_up_token")],
 observe="Metadata.jump.look_up, and the variant chosen when parsing an enum")
p("P07","Parsing accepts exactly the grammar's sentences and returns their derivation",
 "For every accepted grammar and token sequence, if the sequence is a sentence, parsing returns without any error the tree that is its derivation and consumes all of it. If it is not, let the viable prefix be the longest prefix that can be continued to a sentence: an error-free parse is possible only if that prefix is a sentence, and then returns its derivation and leaves the rest (only a trailing delimiter or an empty alternative may complain about a next token that cannot follow it); if the prefix is not a sentence at least one error is reported. This holds for derived structs and enums, tuples, boxes and all library node types according to their documented productions.",
 ["programs","inputs"],"every LL(1) grammar up to a size bound built from terminals, sequences, alternatives and the library node types, times every token sequence up to a length bound over its alphabet",
 "The tests parse a handful of inputs per node type; wrong acceptance, loss of an element or a wrong tree appears only for specific nestings of node types and specific inputs.",
 [T+'tp_impl/option.rs',T+'tp_impl/iter.rs',T+'tp_impl/split.rs',T+'tp_impl/punct.rs',T+'tp_impl/recover.rs',T+'tp_impl/tuple.rs',T+'tp_impl/boxed.rs',T+'tp_impl/string.rs',T+'parser/parser_impl.rs',M+'syntax.rs'],
 [("generated struct and enum parsing",M+"syntax.rs expand_struct_*, expand_enum"),("library node types",T+"tp_impl/*"),("terminal matching",T+"parser/parser_impl.rs parse_token, parse_token_lit")],
 observe="Parser::parse result tree, info().errors, info().tokens, remaining()")
p("P08","The first reported syntax error is at the first token that cannot continue",
 "For every accepted grammar and token sequence on which parsing reports a syntax error, the earliest reported error starts exactly at the first token (or the end of input) with which the sequence stops being the beginning of any sentence, and no token after that point is taken before the error is reported.",
 ["programs","inputs"],"every LL(1) grammar up to a size bound times every token sequence up to a length bound",
 "Tests assert error positions for a few malformed inputs.",
 [T+'parser/parser_impl.rs',T+'tp_impl/split.rs',T+'tp_impl/punct.rs',T+'tp_impl/recover.rs',T+'tp_impl/iter.rs',M+'syntax.rs'],
 [("error creation at the current token",T+"parser/parser_impl.rs expecting, unexpected_eof, current_span")],
 observe="info().errors spans")
p("P09","Parsing any input terminates without panicking and accounts for every token",
 "For every accepted grammar and every input, however malformed, parsing returns (it neither panics nor loops nor recurses without bound), and afterwards every lexed token is in exactly one place in source order: recorded as consumed, set aside as extracted, or still ahead of the parser. A missing tree is always accompanied by an error, all reported error and tree spans lie within the input, and parsing the same input again gives the same result.",
 ["programs","inputs"],"every LL(1) grammar up to a size bound times every input up to a length bound, including invalid characters and extracted tokens at every position",
 "Termination and conservation must hold for malformed inputs nobody thought of; tests cover a few recoveries.",
 [T+'parser/parser_impl.rs',T+'tp_impl/iter.rs',T+'tp_impl/split.rs',T+'tp_impl/punct.rs',T+'tp_impl/recover.rs'],
 [("token buffer",T+"parser/parser_impl.rs peek_token, consume_token, try_read_next_token"),("recovery loops",T+"tp_impl/iter.rs Loop, split.rs, punct.rs, recover.rs")],
 observe="Parser::parse, info(), remaining()")
p("P10","Delimited lists recover from bad items as documented",
 "When an item of a delimited list cannot be parsed, the list records an error covering the skipped input and skips tokens until one that is a delimiter, starts an item, or can follow the list: at a delimiter it goes on with that delimiter, at an item it parses it, at a follower or the end of input it stops. A list without trailing delimiter keeps a delimiter only together with the item after it, a list with optional trailing delimiter keeps every delimiter and only complains if the next token can neither start an item nor follow the list; no well-formed item around the bad ones is lost.",
 ["programs","inputs"],"every grammar with a delimited list of each kind around bounded item and delimiter grammars (also optional ones), in bounded contexts, times every token sequence up to a length bound",
 "Recovery depends on item failure position, the token it stops at, and the context's followers; tests cover single examples of each.",
 [T+'tp_impl/split.rs',T+'tp_impl/punct.rs',B+'tp/delimited.md'],
 [("recovery of Split",T+"tp_impl/split.rs produce"),("recovery of Punct",T+"tp_impl/punct.rs produce")],
 observe="elems, puncts, spans and info().errors after Parser::parse")
p("P11","Repetition, optional and synchronizing nodes recover as documented",
 "An optional node never fails: a bad element is reported and becomes absent; a repetition keeps the elements before a bad one, reports it and ends, failing only if its mandatory first element fails. A looping list skips what cannot start an element, reporting each skipped run once, and goes on to the end of input, and a synchronizing node that fails skips tokens until its terminator parses and reports one error that spans the skipped input.",
 ["programs","inputs"],"every grammar with these nodes around bounded element grammars, in bounded contexts, times every token sequence up to a length bound",
 "Each node type has a few example tests; combinations of failure inside an element with what follows it do not.",
 [T+'tp_impl/option.rs',T+'tp_impl/iter.rs',T+'tp_impl/recover.rs',B+'tp/option.md',B+'tp/iter.md',B+'tp/loop.md',B+'tp/recover.md'],
 [("optional",T+"tp_impl/option.rs produce_option"),("repetition",T+"tp_impl/iter.rs ProduceIter, Plus, Star, Loop"),("synchronization",T+"tp_impl/recover.rs produce")],
 observe="tree and info().errors after Parser::parse")
p("P12","A missing literal is filled in exactly when what is next may follow it",
 "When a terminal with a fixed literal is expected but absent, it is filled in with an empty-width token at the end of the last consumed token, with an error naming the literal at the next token, if the next token or the end of input may follow that terminal in the grammar; otherwise the enclosing node fails, as does any missing terminal without a literal. Filling in consumes nothing and records no token.",
 ["programs","inputs"],"every grammar up to a size bound with literal terminals times every token sequence up to a length bound with tokens missing at any position",
 "The outcome depends on FOLLOW of the terminal in the whole grammar; tests have two examples.",
 [T+'parser/parser_impl.rs',T+'syntax/follow/builder.rs',M+'lexicon.rs'],
 [("literal matching and fill-in",T+"parser/parser_impl.rs parse_token_lit"),("generated terminal parsing",M+"lexicon.rs derive_terminal")],
 observe="result of Parser::parse and parse_token_lit, info().errors, info().tokens")
p("P13","Spans and quoted text delimit exactly what a node consumed",
 "After an error-free parse every node's span runs from the start of its first part to the end of its last part, where a token's span is its text and an absent or empty part is an empty span where the previous consumed token ended; so children lie in order inside their parents and a node whose first and last parts are not empty spans exactly from its first to its last token; quoted nodes hold exactly the source text of that span, parsed-string nodes the outcome of reading a value from that text (also when that fails), and both parse the same input as the node they wrap; every way to look at a list node (iterating by reference, mutably or by value, as a slice) shows the same elements in the order of the text.",
 ["programs","inputs"],"every LL(1) grammar up to a size bound times every sentence up to a length bound, with varying spacing and multi-byte text",
 "Span arithmetic of combined node types (optional first or last parts, trailing delimiters) is checked on single examples only.",
 [T+'lex/span.rs',M+'to_span.rs',M+'syntax.rs',T+'tp_impl/string.rs',T+'tp_impl/node.rs',T+'tp_impl/iter.rs',T+'tp_impl/punct.rs',T+'tp_impl/split.rs',T+'tp_impl/recover.rs'],
 [("span derivation",M+"to_span.rs, syntax.rs"),("empty spans",T+"parser/parser_impl.rs empty_span"),("span to text",T+"lex/span.rs Span::get")],
 observe="ToSpan of every node; value of tp::String / tp::Quote / tp::Parse")
p("P14","Semantic types are attached to exactly the tokens of the annotated nodes",
 "After a successful parse, each recorded token carries exactly the union of the semantic types of all annotated struct fields and enum variants whose parsed node contains the token, and no other token carries any; nested annotations add up and the token's own type is unchanged.",
 ["programs","inputs"],"a family of annotated grammars (nested, optional, repeated, overlapping annotations) times every input up to a length bound",
 "Tests annotate one grammar with a few inputs; adjacency without spacing, empty nodes and nesting decide whether neighbours are tagged.",
 [T+'parser/parser_impl.rs',T+'lex/vec.rs',M+'syntax.rs'],
 [("applying to a span",T+"parser/parser_impl.rs apply_semantic; lex/vec.rs inside_mut, apply_semantic"),("generated calls",M+"syntax.rs apply_semantic_impl")],
 observe="info().tokens cells' semantic sets")
p("P15","Token range queries return exactly the tokens that satisfy their definition",
 "For every token sequence in source order and every span or position: the inside query returns exactly the tokens lying fully inside the span, the overlap query exactly those sharing at least one byte with it, the single-token query a token only if exactly one lies inside, and the ends-at / begins-at queries the longest run satisfying the predicate that ends / begins exactly there. No query panics, shared and mutable variants agree, and semantic types applied to a range reach exactly that range.",
 ["inputs","histories"],"every ordered token layout up to a source length bound (adjacent, gapped, single, none) times every span and position, including ones beyond the last token and in gaps, times every predicate",
 "Tests use two fixed token layouts; binary-search boundaries depend on gaps and adjacency.",
 [T+'lex/vec.rs'],
 [("boundary searches",T+"lex/vec.rs overlap_bounds, inside_bounds, search_lo, search_hi, ends_at_matches_bounds, begins_at_matches_bounds")],
 observe="TokenSlice / TokenVec public methods")
p("P16","Token-type sets and maps behave as sets and maps for every lexicon size",
 "For lexicons of every size from 1 to 128 token types, a set of token types behaves like a mathematical set under insertion, removal, union, membership, containment, iteration in declaration order and conversion to and from bits, each type occupies its own entry in sets and maps, and enumeration of the types visits each exactly once.",
 ["histories","configurations"],"every lexicon size 1..128 with all single types and pairs, and every operation sequence up to a depth on small sets",
 "Tests use a seven-type lexicon; representation width changes at 8, 16, 32 and 64 types.",
 [T+'lex/set.rs',T+'lex/map.rs',T+'lex/lexicon.rs',M+'lexicon.rs'],
 [("bit of a token type",M+"lexicon.rs to_bit, repr_ty"),("set operations and iterator",T+"lex/set.rs"),("per-type storage",T+"lex/map.rs")],
 observe="lex::Set, lex::Map, Lexicon trait methods, token_set!")
p("P17","Terminal sets obey set algebra with literals, any-content and empty symbols",
 "Sets of terminals behave as sets in which a token type's any-content entry contains all its literals: insertion and union report whether the set changed, membership, union, intersection test and intersection listing agree with each other, and the empty symbol takes part only when requested.",
 ["histories"],"every pair of terminal sets over a bounded universe and every sequence of operations up to a depth",
 "All other guarantees rest on this algebra; tests sample pairs.",
 [T+'syntax/lit_set.rs',T+'syntax/term_set.rs',T+'syntax/first/set.rs',T+'syntax/follow/set.rs'],
 [("literal sets",T+"syntax/lit_set.rs"),("terminal sets",T+"syntax/term_set.rs")],
 observe="LitSet, TerminalSet, FirstSet, FollowSet public methods")
p("P18","The token stream behaves as a cursor under any sequence of calls",
 "Under any interleaving of peeking, consuming, matching, querying positions and applying semantics on one parser, peeking never changes what is consumed next, each consume returns the next token and records it once, a failed match consumes nothing, the remaining text starts at the next token, the current position is the next token's span or the end of input, and invalid or extracted text is reported exactly once however often the parser looks ahead.",
 ["histories"],"every sequence of stream operations up to a depth bound on every input of a bounded family",
 "Tests call the stream in one order; double reporting or a lost token needs a particular order around invalid or extracted text and the end of input.",
 [T+'parser/parser_impl.rs',T+'parser/info.rs'],
 [("lookahead buffer",T+"parser/parser_impl.rs peeked, peek_token, consume_token, try_read_next_token")],
 state=T+"parser/parser_impl.rs Parser{info,lexer,peeked}",
 observe="Parser stream methods and info()")
p("P19","Grammar metadata is the same complete object for every caller and thread",
 "However many threads first parse or inspect a root at the same time and in whatever order, every caller gets the same, fully built analysis of exactly that root (or the same error), parses that follow give the same results as single-threaded ones, and using other roots or lexicons in between does not change it.",
 ["schedules","histories"],"all orders of first use of several roots, and all interleavings of two and three threads around the points where the analysis calls user code",
 "Tests use each root from one thread; a race or mix-up shows only in a particular first-use order.",
 [M+'root.rs',T+'parser/tree.rs',T+'syntax/metadata.rs'],
 [("lazily built analysis of a root",M+"root.rs METADATA")],
 state=M+"root.rs static METADATA",
 observe="Root::metadata, Root::parse, Parser::parse")
p("P20","A lexicon definition is rejected by a stated rule or lexes as declared",
 "A lexicon definition is accepted at compile time exactly when it satisfies the documented rules (at least one and at most 128 unit variants, valid non-empty-matching regexes, literals that each given regex matches entirely from the start, no duplicate literal, at most one terminal without literal per variant, a regex exactly where it is needed to match the terminals, no unknown attribute), whether it is written out or produced by a macro; for an accepted definition, whatever the order, kinds and names of its variants and terminals, each literal or regex produces the token type it was declared on, types without terminals are set aside, and types without rules never come from the lexer.",
 ["programs"],"every lexicon definition up to a bound on variants and attributes over a menu of variant kinds in every order, times every short input",
 "UI tests pin nine rejected definitions; accepted ones are a few examples with one order of variants.",
 [M+'lexicon.rs',M+'prelude.rs',B+'lexical_analysis/lexer_validation_g.txtpp.md'],
 [("validation and lexer generation",M+"lexicon.rs expand, checked_regex_rule")],
 observe="compiler acceptance of the definition; tokens produced by the accepted lexicon")
p("P21","Parsing several roots in turn on one parser continues where the last one stopped",
 "Any sequence of parse calls on one parser gives for each call the same tree and errors as parsing the remaining input on its own would, with positions relative to the whole input; parsing a source in one step gives the tree of the first call; a failed call leaves the tokens it did not take available to the next one, and recorded tokens, extracted tokens and errors accumulate without loss or repetition.",
 ["histories","inputs"],"every sequence of up to three parse calls over a family of roots, times every input up to a length bound",
 "Tests parse one root per parser; state carried between calls (lookahead, last position, error list) needs a sequence.",
 [T+'parser/parser_impl.rs',T+'parser/tree.rs'],
 [("parse entry and error accumulation",T+"parser/parser_impl.rs parse, parse_with_meta")],
 state=T+"parser/parser_impl.rs Parser{info,lexer,peeked}",
 observe="Parser::parse results, info(), remaining()")
p("P22","A syntax definition is accepted exactly when it has a supported form",
 "Every struct (named or unnamed fields) and every enum of single-field variants over existing nodes is accepted by the derive, whatever it and its parts are named, whether it is written out or produced by a macro, and whatever combination of root, test and semantic attributes it carries, and describes the same language whether its fields are named, unnamed or a tuple; unit structs, empty types, variants of other shapes, discriminants and unknown or misplaced attributes are rejected at compile time.",
 ["programs"],"every definition up to a bound over a menu of shapes, field types and attributes",
 "Tests compile a few fixed shapes and have no rejected syntax definition.",
 [M+'syntax.rs',M+'prelude.rs',M+'root.rs'],
 [("shape and attribute checks",M+"syntax.rs parse_root_attributes, parse_field_attributes, expand_enum, expand_struct")],
 observe="compiler acceptance of the definition; parse results of accepted definitions")
p("P23","Every error says what could have come instead",
 "For every accepted grammar and every input, the first error that says what was expected names only terminals with which the tokens read so far can continue to a sentence (a list between brackets may in addition name what can follow it), names everything the node that failed can begin with, and its message lists exactly the named terminals and end of input in a form that does not depend on the order in which the set was built. Unexpected text, unexpected trailing tokens and unexpected end are told apart, and custom messages appear as they are.",
 ["programs","inputs"],"every LL(1) grammar up to a size bound times every token sequence up to a length bound, as for parsing",
 "Tests snapshot the messages of a few inputs; which terminals belong in the set depends on the position in nested optional and repeated nodes.",
 [T+'syntax/error.rs',T+'syntax/term_set.rs',T+'syntax/first/set.rs',T+'parser/parser_impl.rs',T+'tp_impl/split.rs',T+'tp_impl/punct.rs',M+'syntax.rs'],
 [("errors with expected terminals",T+"parser/parser_impl.rs expecting"),("message text",T+"syntax/error.rs ErrorKind::message")],
 observe="info().errors: kind, span, message()")
p("P24","Serialized values say which value they are",
 "With the serde feature, a set of token types of any lexicon size and a span are read back as the value that was stored; two maps, terminal sets, FIRST sets or FOLLOW sets are stored alike exactly when they are equal, however they were built; an error is stored with its span, its kind and the data of its kind.",
 ["configurations","inputs"],"every lexicon size 1..128 with sets of zero, one, two, all but one, leading and trailing types and every set for small sizes; every span between boundary positions of the number formats; every terminal set over a bounded universe; every error kind",
 "Nothing tests the serde feature; representation widths and canonical order matter only for particular sizes and sets.",
 [T+'lex/set.rs',T+'lex/map.rs',T+'lex/span.rs',T+'syntax/term_set.rs',T+'syntax/lit_set.rs',T+'syntax/first/set.rs',T+'syntax/follow/set.rs',T+'syntax/error.rs'],
 [("serialized forms","serde derives on these types")],
 observe="serde_json::to_string / from_str of the public types")
p("P25","Derived spans and node wrappers delegate to their first part",
 "derive(ToSpan) on any struct (named or unnamed) or enum of non-empty variants whose first part has a span gives the span of that first part, and derive(Node) on any struct (named or unnamed) whose first part is a node gives a wrapper that builds from a node with the other fields at their defaults, reads and writes that node's value and keeps its span, for any generics and whether written out or produced by a macro; definitions whose first part has no span, empty and unit forms are rejected at compile time.",
 ["programs"],"every definition up to a bound on fields and variants over a menu of first parts, other fields and generics, each run on every span of a menu",
 "Two or three fixed shapes are compiled by the tests; a wrong field or variant shows only for other shapes.",
 [M+'to_span.rs',M+'node.rs',T+'lex/span.rs',T+'tp_impl/node.rs'],
 [("generated lo/hi",M+"to_span.rs"),("generated wrapper",M+"node.rs")],
 observe="compiler acceptance; lo(), hi(), span(), value access of accepted definitions")
p("P26","A span gives the source text between its ends",
 "For every source and every span that does not cut a character, the text obtained for the span, for a token with that span or through the parse information is the part of the source from lo to hi (a slice of it, not a copy): cut at the end of the source where the span reaches or lies beyond it, and empty where hi <= lo. Tokens, nodes and errors keep the span, type and value they were made from; references and tuples span from the start of their first to the end of their last element; messages about unexpected input show that text. Mapping a parse result changes its value only, and a value with errors is a success exactly when there are none.",
 ["inputs"],"every short text over characters of one to four bytes, every span between its boundaries and positions beyond the end, every accessor, every token type; every combination of menu spans in tuples of up to five; every short list of errors",
 "A few ASCII spans inside the text are tested; multi-byte text and spans at or beyond the end are not.",
 [T+'lex/span.rs',T+'lex/token.rs',T+'parser/info.rs',T+'tp_impl/node.rs',T+'syntax/error.rs'],
 [("text of a span",T+"lex/span.rs Span::get"),("text of a token",T+"lex/token.rs src, to_src"),("accessors of the parse",T+"parser/info.rs"),("results",T+"syntax/error.rs Result::map")],
 observe="Span::get, Token::src/to_src, Info::get_src/to_src/eof, Error::message, ToSpan, Node, syntax::Result")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
