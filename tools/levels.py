# levels of further checks
_g="Small scope: grammars of up to 3 (4) nodes (and single nodes with four or five parts) over six terminals and inputs of up to 4-6 tokens; the documented productions, the Earley recognizer and the recovery model are trusted. Every trace is a run of the real parser with the real derived and library nodes."
LEVELS["P07"]=("model_checking","explicit-state exploration of the prefix tree of inputs of every enumerated LL(1) grammar; Earley recognizer and derivation enumerator replayed against the real parser on every state",_g)
LEVELS["P08"]=("model_checking","explicit-state exploration as P07; position of the first error against the longest viable prefix of the Earley model on every state",_g)
LEVELS["P09"]=("model_checking","explicit-state exploration of all inputs (with invalid and extracted text) of every enumerated grammar; termination, conservation and determinism monitored on every run of the real parser",_g)
LEVELS["P10"]=("model_checking","explicit-state exploration of an operational model of delimited-list recovery, every trace replayed on the real parser",_g)
LEVELS["P11"]=("model_checking","explicit-state exploration of an operational model of optional, repeated, looping and synchronizing nodes, every trace replayed on the real parser",_g)
LEVELS["P12"]=("model_checking","explicit-state exploration of an operational model of literal fill-in, every trace replayed on the real parser",_g)
LEVELS["P13"]=("model_checking","explicit-state exploration as P07; spans and quoted text of every sentence in three layouts against the derivation",_g)
LEVELS["P14"]=("model_checking","explicit-state exploration as P07; semantic bits of every token against the annotated derivation",_g)
LEVELS["P21"]=("model_checking","exploration of every sequence of two and three parse calls on every input of enumerated grammars with two roots, each call compared with a fresh parse of the rest",_g)
LEVELS["P15"]=("exploration","exhaustive enumeration of every token layout up to 8 (10) bytes, and of families of layouts of 9 to 65 (200) tokens, and every query on it, against the set definition of each query","Longer layouts are of 32 families per length with representative spans and predicates.")
LEVELS["P16"]=("model_checking","explicit-state search of set operation sequences for every lexicon size 1..128 in lockstep with a mathematical set","For every size the search runs over sets of the types at the boundaries of the representation, all pairs of types and all single and all-but-one sets; other types of large lexicons are assumed to behave like these.")
LEVELS["P17"]=("model_checking","explicit-state search of all reachable terminal sets over a bounded universe, every operation replayed on the real sets","Universe of three token types with up to two (three) literals and any-content each, contiguous parts of 70 literals, and boundary types of lexicons of 1..128 types; the model is the set of (type, content) pairs.")
LEVELS["P01"]=("exploration","exhaustive enumeration of every string up to a length over the alphabets of 13 lexicons, real lexer and token stream against a longest-match reference","Strings of up to 7-9 (9-10) characters over 5-7 character classes; the hand-written patterns of the reference are trusted. Inputs on which the lexer generator gives up inside a repetition are recorded as findings and not compared.")
LEVELS["P18"]=("model_checking","stateless exploration of every sequence of 17 stream calls up to a depth on every input of a bounded family, each call of the real parser compared with a cursor model","Histories of up to 4 (5) calls, or 3 calls after up to 4 consumed tokens, on inputs of up to 5 chunks; longer histories are assumed to behave like these.")
LEVELS["P19"]=("model_checking","stateless exploration, up to a preemption bound, of every schedule of two or three threads that get metadata and parse, each schedule run on the real code in a process of its own under a controlled scheduler","Preemption only at calls into the lexicon and the terminals (every registration, naming, token, parse and look-up) and between calls, at most 1-2 (2-3) preemptions; memory is sequentially consistent in these runs, weak-memory reorderings are not explored.")
LEVELS["P20"]=("exploration","exhaustive enumeration of lexicon definitions (programs) compiled by the real derive, verdict against the documented rules, every accepted one run on every short input against a longest-match reference","Definitions of up to three rules on one variant, 14 kinds of variants in pairs, six in triples, 44 special literals, every size at the limits; deeper nesting of regexes is not enumerated. Overlapping rules of equal length are left to the lexer generator. The property forms a space of programs, so exploration enumerates programs and their inputs.")
LEVELS["P22"]=("exploration","exhaustive enumeration of syntax definitions (programs) compiled by the real derive with and without tests, verdict against the supported forms, every accepted one run on every short input","Up to three parts of six kinds with every pattern of attributes, long definitions with one attribute at every position, all other forms of a fixed menu.")
LEVELS["P23"]=("model_checking","explicit-state exploration as P07; the expected terminals and the message of the first error on every state against the terminals the Earley model allows after the viable prefix",_g)
LEVELS["P24"]=("exploration","exhaustive enumeration of sets for every lexicon size, spans, terminal sets and errors, each stored as JSON by the real code and compared or read back","JSON stands for every format; sets of more than 9 (12) types are explored only near empty, full and contiguous.")
LEVELS["P25"]=("exploration","exhaustive enumeration of definitions (programs) compiled by the real derives, verdict against the supported forms, every accepted one run on every span of a menu","Up to 5 fields and 3 variants over 8 first parts and 4 other fields, node wrappers with 6 kinds of values and up to 2 other fields.")
LEVELS["P26"]=("exploration","exhaustive enumeration of short texts over characters of one to four bytes and of every span in and beyond them, each accessor of the real code against the slice of the source","Texts of up to 5 (6) characters; spans that cut a character are outside the property.")
