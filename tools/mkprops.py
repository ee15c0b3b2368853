#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Bounded random draws are in range and unbiased",
  "A request for a random integer below a non-zero bound returns a value strictly below that bound. The value is the low bits of one fresh fixed-width draw, as many bits as the bound needs; a draw that is not below the bound is discarded whole and another one is made, so every value below the bound is produced by exactly the same number of raw draws. The random boolean is true for exactly half of all raw draws.",
  ["inputs"], "every bound of every integer width (8, 16, 32, 64 bits) and every byte stream a source can deliver",
  "The tests draw from one fixed seed for a few bounds; a bias or an out-of-range value that needs a particular bound or raw draw is invisible to them.",
  ["src/random/random.c"], [("mask-and-reject loops", "src/random/random.c: passgen_random_{u8,u16,u32,u64}_max"), ("fixed-width draws", "src/random/random.c: passgen_random_{u8,u16,u32,u64,bool}")])

p("C02", "Buffered randomness never repeats, skips or invents bytes",
  "Successive reads of at most a buffer's length from an open randomness source deliver, concatenated, exactly the byte sequence the underlying source produced, in order, with no byte delivered twice or skipped, however the reads straddle refills. A longer read is served directly and completely from the source. A source that delivers fewer bytes than asked never leads to stale or uninitialised bytes being delivered as random data.",
  ["inputs", "histories"], "every read size, every position in the buffer, every source content, every short read",
  "Tests read with a few sizes from deterministic sources and compare seeds with recorded output, so a wrong copy on a refill is recorded as the expected output.",
  ["src/random/random.c"], [("buffer copy, refill, recursion", "src/random/random.c: passgen_random_read, passgen_random_reload")],
  [("pos", "index of the first byte of the buffer that has not been handed out", "include/passgen/random.h: passgen_random")])

p("C03", "Seeded sources are exact, reproducible and seekable",
  "The zero source produces only zero bytes, the xorshift source produces the little-endian words of the 64-bit xorshift (13,7,17) sequence started from its seed, and the ChaCha20 source produces the ChaCha20 (64-bit nonce) keystream of its key and nonce. For ChaCha20 the bytes do not depend on how the stream is cut into reads, and seeking to a byte position continues with exactly the keystream from that position. Two sources opened with the same parameters yield the same bytes.",
  ["inputs", "histories"], "every seed, key, nonce, stream position and every cut of the stream into two reads",
  "The tests compare a handful of seeds and sizes; the position arithmetic inside a block has 64 residues times every read length.",
  ["src/random/xorshift.c", "src/random/zero.c", "src/random/deterministic.c", "src/monocypher.c"],
  [("xorshift step and block fill", "src/random/xorshift.c"), ("keystream position", "src/random/deterministic.c: passgen_random_chacha20_read/_read_short/_seek"), ("block function and counter", "src/monocypher.c: passgen_chacha20_djb")],
  [("offset", "absolute byte position in the keystream", "src/random/deterministic.c")])

p("C04", "Randomness descriptors open what they name or are rejected",
  "Every textual description of a randomness source either opens exactly the source it names, with exactly the seed, key, nonce or passphrases it spells out, or is rejected. Unknown names, an empty or zero seed, and keys or passphrases that do not fit are rejected. No description, however long or malformed, makes the library read or write outside its own memory.",
  ["inputs"], "every descriptor string",
  "The tests open a dozen well-formed short descriptors.",
  ["src/random/random.c", "src/random/xorshift.c", "src/random/deterministic.c"], [("descriptor parser", "src/random/random.c: passgen_random_open_parse"), ("prefix test", "src/random/random.c: _strprefix")])

p("C05", "UTF-8 decoding accepts exactly well-formed text",
  "Decoding a byte string succeeds exactly when it is well-formed UTF-8 (no overlong forms, surrogates, values above U+10FFFF, stray or missing continuation bytes, including at the very end), and yields the code points in order together with the number of bytes each one occupied. When the output fills up first, decoding reports that and stops on a character boundary from which it can be resumed without loss. Nothing outside the given input and output is touched.",
  ["inputs"], "every byte string and every output capacity",
  "Tests decode a few dozen sample strings; malformed sequences form an unbounded family and truncation at the end of the input is not tried.",
  ["src/util/utf8.c"], [("decoder automaton", "src/util/utf8.c: utf8d, utf8_decode"), ("decode loop", "src/util/utf8.c: passgen_utf8_decode")])

p("C06", "UTF-8 encoding is exact, bounded and inverse to decoding",
  "Encoding a Unicode scalar value writes its unique shortest UTF-8 form and nothing else, and decoding those bytes gives the value back; every other number, surrogates included, is refused. Encoding a sequence writes only inside the given output, reports how far it got in input and output, and says so when the output was too small.",
  ["inputs"], "all 2^32 code point arguments, every sequence, every output length including lengths under four bytes",
  "Tests encode sample strings into ample buffers; surrogates and tiny buffers are never tried.",
  ["src/util/utf8.c"], [("single code point encoder", "src/util/utf8.c: passgen_utf8_encode_codepoint"), ("sequence encoder", "src/util/utf8.c: passgen_utf8_encode")])

p("C07", "Tokenizing patterns: escapes, unicode literals, positions",
  "Reading a pattern character by character, an unescaped character is a token by itself, a backslash followed by a, b, e, f, n, r, t, v or backslash is that control character, \\u{...} with at most six hexadecimal digits is the code point they spell, and a backslash before any other character is that character marked as escaped. Anything else inside a unicode literal is an error that sticks. Every token reports the character offset and byte offset at which it started.",
  ["inputs", "histories"], "every sequence of code points with every byte width, from every tokenizer state",
  "The tests run some 20 sample strings; the state machine is exercised on few of its code points and the offsets on fewer.",
  ["src/parser/token.c"], [("tokenizer state machine", "src/parser/token.c: passgen_token_parse")],
  [("state, offset, byte_offset", "where the tokenizer is in an escape and in the text", "include/passgen/parser/token.h")])

p("C08", "Parsing always ends in a sound pattern or a rejection",
  "Every input string is either rejected with an error or yields a pattern in which each range is non-empty and ascending, each repetition has its minimum not above its maximum, each literal holds between one and seven characters, each group's total weight is exactly the sum of its alternatives' weights, and numbers written in the pattern have been taken at face value. Parsing never reads or writes outside its own data, whatever the input. Unbalanced, unfinished or dangling syntax is rejected.",
  ["inputs", "histories"], "every token from every reachable parser state, hence by induction every pattern string",
  "The tests parse about 60 sample patterns; combinations such as zero weights with alternatives, doubled weights, reversed or overflowing bounds are not among them.",
  ["src/parser/parser.c", "src/pattern/group.c", "src/pattern/segment.c", "src/pattern/literal.c", "src/pattern/set.c", "src/passgen.c"],
  [("per-token state machine", "src/parser/parser.c: passgen_parse_{group,set,set_range,repeat,repeat_range,multiplier,special,special_name}"), ("end-of-input check", "src/parser/parser.c: passgen_parse_finish"), ("driver", "src/passgen.c: passgen_parse")],
  [("multiplier_sum", "total weight of a group's alternatives", "include/passgen/pattern/group.h"), ("choices_list", "running totals of a set's ranges", "include/passgen/pattern/set.h")])

p("C09", "Ordinary characters stand for themselves, whatever the script",
  "In a pattern, outside sets, exactly the unescaped ASCII characters | ( ) [ { ? are operators and every other code point, up to the last one of Unicode, is appended to the pattern's text as itself; escaping an operator or bracket gives that very character. In a set, every code point other than ] and a range dash denotes itself, and an escaped dash is a plain dash both as a single member and as either end of a range. No code point is confused with another that shares its low byte.",
  ["inputs"], "all 1,114,112 code points in every parser position",
  "Tests use ASCII and a few accented characters.",
  ["src/parser/parser.c", "src/pattern/literal.c"], [("operator dispatch", "src/parser/parser.c: passgen_parse_group"), ("set members", "src/parser/parser.c: passgen_parse_set, passgen_parse_set_range"), ("literal runs", "src/pattern/literal.c")])

p("C10", "Alternatives are chosen in exact proportion to their weights",
  "When a group is generated, one draw below the group's total weight selects the alternative in whose share it falls, the shares being laid out in order with the alternatives' weights as sizes; an alternative of weight zero is never chosen and the choice never runs past the last alternative. Exactly that alternative's items are then generated, each once and in order.",
  ["inputs"], "every number of alternatives, every assignment of weights whose sum fits, every draw",
  "Tests check fixed seeds on a few weighted patterns; a boundary draw has probability 1/total.",
  ["src/generate.c"], [("alternative selection", "src/generate.c: passgen_generate_group"), ("item sequence", "src/generate.c: passgen_generate_segment")])

p("C11", "Character sets are sampled uniformly over their members",
  "Generating a character set emits exactly one code point, which belongs to one of the set's ranges; one draw below the total number of listed members selects it, and distinct draws select distinct (range, member) pairs, so each listed member has the same probability. An empty set emits nothing and draws nothing.",
  ["inputs"], "every list of ascending ranges and every draw",
  "Fixed-seed tests reach a few of the up to 1.1 million members per range and few multi-range boundaries.",
  ["src/generate.c", "src/parser/parser.c"], [("running totals", "src/parser/parser.c: passgen_parse_set"), ("range search", "src/generate.c: passgen_generate_set")],
  [("choices_list", "running totals of range sizes", "include/passgen/pattern/set.h")])

p("C12", "Repetition and optional items occur exactly as often as allowed",
  "An item with repetition bounds {m,n} is generated k times with m <= k <= n, where k - m is one draw below n - m + 1 (no draw when m = n), so that every count in the interval has the same probability. An optional item is left out entirely or generated by one fair coin toss, which is drawn only for optional items. An error from a nested element aborts the whole generation with that error.",
  ["inputs"], "every pair of bounds m <= n, every draw, every item kind",
  "Tests use small bounds and fixed seeds.",
  ["src/generate.c"], [("repeat count", "src/generate.c: passgen_generate_repeat"), ("item loop", "src/generate.c: passgen_generate_item")])

p("C13", "Reported entropy is the product of all choices actually offered",
  "When entropy is requested it starts at one and is multiplied, for every random decision made, by the reciprocal of the probability of the outcome taken: total weight over weight for an alternative, member count for a set, number of counts for a repetition, two for an optional item, word count for a word list and total over count for a Markov step. No decision is counted twice or left out. Asking for entropy does not change what is generated.",
  ["inputs"], "every decision of every element kind, including the ones not taken",
  "The entropy tests cover seven patterns and no optional or word-list element.",
  ["src/generate.c", "src/markov.c"], [("entropy factors", "src/generate.c: passgen_generate_{repeat,set,group,item,special_wordlist}"), ("Markov factors", "src/markov.c: passgen_markov_generate")])

p("C14", "Generation writes inside the buffer and is all or nothing",
  "Generating into a buffer writes only within it and returns the exact number of units written; if the result does not fit, contains a code point that cannot be represented, or any element fails, the call returns zero. Each emitted code point appears completely or not at all, in order, so UTF-8 output is always well-formed. A result that exactly fills the buffer is accepted.",
  ["inputs"], "every code point, every buffer length and fill position",
  "Tests generate into buffers with room to spare; the last four bytes of a buffer use a different code path.",
  ["src/generate.c"], [("buffer writers", "src/generate.c: passgen_generate_write_buffer, _utf8, _json_utf8"), ("fill functions", "src/generate.c: passgen_generate_fill_{unicode,utf8,json_utf8}")])

p("C15", "JSON output is a valid JSON string body for every character",
  "Every code point generated in JSON mode is written as a sequence that is legal inside a JSON string literal and that a JSON reader decodes back to exactly that code point: quotes, backslashes and all control characters below U+0020 are escaped, everything else is plain UTF-8. Code points that are not Unicode scalar values make the generation fail.",
  ["inputs"], "all 2^32 code point arguments and every room left in the buffer",
  "The tests cover the seven short escapes and plain ASCII.",
  ["src/generate.c"], [("JSON writer", "src/generate.c: passgen_generate_write_buffer_json_utf8")])

p("C16", "Nesting depth is limited and siblings do not consume it",
  "Generating a pattern nested deeper than the configured depth limit fails instead of recursing further, and a pattern nested at most that deep is not refused for its depth, no matter how many groups stand next to each other or are repeated. The parser likewise refuses to nest deeper than its limit when one is set.",
  ["inputs"], "every limit and every nesting, breadth and repetition",
  "Tests nest a few levels under the default limit of 1024.",
  ["src/generate.c", "src/parser/parser.c"], [("depth accounting", "src/generate.c: descend, ascend, passgen_generate_group"), ("parser limit", "src/parser/parser.c: passgen_parse_token")])

p("C17", "The hash map behaves as a map for every history of operations",
  "After any sequence of insertions, removals and lookups, looking up a key finds exactly the value of its latest insertion that has not been removed and nothing otherwise, and the reported size is the number of distinct keys present. Inserting an existing key replaces its value and returns the previous pair; removing returns the removed pair, or nothing for an absent key or an empty map; other keys are unaffected. Iteration visits every pair exactly once.",
  ["histories", "inputs"], "every sequence of operations, every key set, every behaviour of the hash function that does not force unbounded growth",
  "Tests insert some keys with one hash function; the cuckoo moves that corrupt a map need particular collisions.",
  ["src/container/hashmap.c"], [("two-choice placement and move", "src/container/hashmap.c: passgen_hashmap_insert, passgen_hashmap_move"), ("lookup, remove, foreach", "src/container/hashmap.c"), ("growth", "src/container/hashmap.c: passgen_hashmap_realloc")],
  [("data, len, capacity", "slots, number of keys, number of slots", "include/passgen/container/hashmap.h")])

p("C18", "The stack is last-in first-out and keeps element addresses valid",
  "After any sequence of pushes and pops the stack holds exactly the pushed and not yet popped elements in order: reading position i gives the i-th, the top is the last, a pop returns the last, and reading beyond the end or popping from an empty stack gives nothing. Every element lies in its own storage inside the stack's allocations. Pushing beyond the first bin does not move earlier elements.",
  ["histories"], "every sequence of pushes, pops and reads; every length and element size",
  "Tests push and pop a few hundred elements in fixed orders; the allocation points are powers of two of lengths and bins.",
  ["src/container/stack.c"], [("bin allocation", "src/container/stack.c: passgen_stack_push, passgen_stack_pop"), ("addressing", "src/container/stack.c: passgen_stack_get, passgen_stack_top")],
  [("len, data", "number of elements and bin table", "include/passgen/container/stack.h")])

p("C19", "The growable array keeps every stored pointer in order",
  "After any sequence of pushes and pops the array returns at each position below its size the pointer stored there, a pop returns the last one (or nothing when empty), and growing loses nothing and never writes outside the allocated storage. Reading at or beyond the size is refused in debug builds.",
  ["histories"], "every sequence of operations and every initial capacity",
  "Tests push a few dozen pointers.",
  ["src/container/array.c"], [("growth and access", "src/container/array.c")])

p("C20", "Markov tables count exactly what was inserted and sample by weight",
  "After any insertions into a chain's tables, the recorded weight of a successor is exactly the sum of the weights inserted for it and the total is the sum over all successors, whatever collisions and growth happened in between. Generating from a state makes one draw below that total and returns the successor in whose share the draw falls, so a successor never recorded is never produced. Growing a table loses no entry.",
  ["histories", "inputs"], "every sequence of insertions, every weight, every code point including collisions modulo the table size, every draw",
  "Tests insert a few words and compare counts; collisions and draws on share boundaries depend on code points modulo capacities.",
  ["src/markov.c"], [("leaf table", "src/markov.c: passgen_markov_leaf_insert, passgen_markov_leaf_realloc"), ("node table", "src/markov.c: passgen_markov_node_insert, passgen_markov_node_realloc"), ("weighted walk", "src/markov.c: passgen_markov_generate")])

p("C21", "Training a Markov chain records every window of each word",
  "Adding a word of n characters to a chain of level k records exactly n + 1 windows of k + 1 characters: those of the word preceded by k start markers and followed by one end marker, each with the given weight. Nothing outside the word is read. This holds for words shorter than, equal to and longer than the level, the empty word included.",
  ["inputs"], "every word, length, level and weight",
  "Tests add words of a few lengths to chains of one or two levels.",
  ["src/markov.c"], [("window construction", "src/markov.c: passgen_markov_add")])

p("C22", "Word lists are split into exactly their lines and sampled uniformly",
  "Loading a word list yields its non-empty lines in order, each complete and unaltered, with or without a final newline. Drawing a word makes one draw below the number of words and returns the word of that index; a list without words, or one that cannot be used, makes the generation fail rather than hang or crash.",
  ["inputs"], "every file content and every draw",
  "Tests load a few in-memory lists.",
  ["src/wordlist.c", "src/generate.c"], [("line splitting", "src/wordlist.c: passgen_wordlist_scan"), ("drawing", "src/wordlist.c: passgen_wordlist_random"), ("use in patterns", "src/generate.c: passgen_generate_special_wordlist")])

p("C23", "Objects are wiped when they are released",
  "Releasing a randomness source, random generator state, pattern, set, segment, special element, parser, stack, array, hash map, word list, Markov chain or environment leaves none of its previous contents in the released object: every byte of it is zero afterwards. Seed-derived key material of the ChaCha20 source is zeroed before its memory is given back.",
  ["inputs"], "every previous content of every object",
  "Tests free objects without looking at what is left behind.",
  ["include/passgen/config.h.in", "src/random/random.c", "src/random/deterministic.c", "src/container/stack.c", "src/container/array.c", "src/container/hashmap.c", "src/pattern"], [("clear on release", "PASSGEN_CLEAR in every _free/_close function")])

p("C24", "Configuration text is parsed line by line without overruns",
  "Reading configuration text accepts any mixture of blank lines, comments, word-list and preset lines, with or without a final newline, registers exactly the named entries with exactly the given values, and never reads past the end of the text nor writes past a buffer. Unknown directives are reported as an error.",
  ["inputs"], "every configuration text up to the supported size, including one that fills the buffer or lacks a final newline",
  "The CLI tests use no configuration file at all.",
  ["src/cli/passgen.c"], [("configuration reader", "src/cli/passgen.c: passgen_cli_config_load, passgen_cli_config_parse")])

p("C25", "Keyed hashing equals SipHash-2-4",
  "The keyed hash used by the hash map equals SipHash-2-4 with 64-bit output for 8-byte outputs, and SipHash-2-4-128 for 16-byte outputs, of the given key and data, for every data length; it reads exactly the given bytes and writes exactly the output.",
  ["inputs"], "every key, every data, every data length",
  "The tests compare 64 published vectors of one key.",
  ["src/util/siphash.c"], [("compression, tail and finalisation", "src/util/siphash.c: passgen_siphash")])

p("C26", "Version compatibility follows semantic versioning",
  "A requested version is reported compatible exactly when its major number equals the library's and its minor and patch numbers, compared in that order, do not exceed the library's.",
  ["inputs"], "all version triples",
  "The test compares a handful of triples around the current version.",
  ["src/version.c.in"], [("comparison", "src/version.c.in: passgen_version_compatible")])

p("C27", "A custom allocator sees every request, unchanged",
  "When the caller installs allocation callbacks in a context, each allocation, zeroed allocation, reallocation and release through that context calls the installed callback exactly once with the caller's state pointer and the very arguments given, and returns its result; where no callback is installed the C library's function is used.",
  ["configurations", "inputs"], "every subset of installed callbacks, every state pointer and argument",
  "No test installs a callback.",
  ["src/context.c"], [("dispatch", "src/context.c")])

p("C28", "Environment and presets: a named word list is found under its name",
  "A word list added to an environment under a name is the one used for patterns that refer to that name, for every name, and a pattern that refers to a name that was never added, or to no name at all, fails without output instead of crashing. Adding a second list under the same name makes the new one effective.",
  ["inputs", "histories"], "every name (any Unicode text), every set of added lists",
  "Tests use one or two names.",
  ["src/env.c", "src/generate.c", "src/pattern/special.c"], [("registration", "src/env.c: passgen_env_wordlist_add"), ("name buffer", "src/pattern/special.c: passgen_pattern_special_push"), ("lookup", "src/generate.c: passgen_generate_special_*")])

p("C29", "System randomness is unpredictable",
  "The bytes delivered by the default randomness source are statistically independent, uniform and unpredictable to an adversary.",
  ["histories"], "every run of the program on every machine",
  "A statistical and cryptographic assumption about the kernel; no test or contract can settle it.",
  ["src/random/system.c"], [("getrandom", "src/random/system.c: passgen_random_system_read")])

p("C30", "The command-line tool confines itself before processing input",
  "On Linux the command-line tool installs its system-call filter before it parses the pattern and generates passwords, and no later system call outside the allowed set takes effect.",
  ["histories", "inputs"], "every run of the tool with every argument vector",
  "Needs the kernel's enforcement, not the C text alone.",
  ["src/cli/passgen.c", "src/cli/main.c"], [("seccomp filter", "src/cli: passgen_seccomp_init")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    n = x["statement"].count(". ") + 1
    if n > 3: print(x["id"], n)
print(len(P))
