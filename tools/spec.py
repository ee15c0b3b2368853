"""The properties and the proof jobs that decide them."""
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = ["CBMC 6.11 (goto-cc C front end, dfcc instrumentation, symbolic execution, MiniSat)",
           "CBMC's models of the C library (memcpy, memset, malloc, realloc, strlen, ...)"]
ASSUMPTIONS = ["malloc/calloc/realloc do not return NULL",
               "x86-64 Linux ABI (LP64, little endian); sequential execution",
               "termination is proved only for loops with a decreases clause"]
PROPERTIES = {}


def H(name, unit, entry, unwind=None, level="proof", bound=None, **kw):
    return dict(name=name, unit=unit, entry=entry, unwind=unwind, level=level, bound=bound, **kw)


def C(name, unit, entry, enforce, replace=(), loops=False, unwind=None, level="proof", **kw):
    return dict(name=name, unit=unit, entry=entry, enforce=enforce, replace=list(replace), loops=loops,
                unwind=unwind, level=level, **kw)


def prop(pid, level, jobs, technique, note, search=(), **kw):
    PROPERTIES[pid] = dict(level=level, jobs=jobs, technique=technique, note=note, search=list(search), **kw)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    out.append(line.split(" ", 2)[2].strip())
    return out


# ------------------------------------------------------------------ UTF-8
prop("C05", "proof", [
    H("step-follows-table-3-7", "utf8.c", "h_step", functions=["utf8_decode"]),
    C("decode-loop", "utf8.c", "h_decode", "passgen_utf8_decode/c_decode", ["utf8_decode/c_step"], loops=True, unwind=14),
    H("decode-short", "utf8.c", "h_decode_short", unwind=8, level="bounded", bound="inputs of at most 6 bytes", functions=["passgen_utf8_decode"]),
], "CBMC contracts with a loop invariant over a ghost run of the Unicode automaton", "")
prop("C06", "proof", [
    C("encode-codepoint-contract", "utf8.c", "h_encode_codepoint", "passgen_utf8_encode_codepoint/c_encode_codepoint", unwind=7),
    H("encode-codepoint", "utf8.c", "h_encode_codepoint", unwind=7, functions=["passgen_utf8_encode_codepoint"]),
    H("roundtrip", "utf8.c", "h_roundtrip", unwind=6, functions=["passgen_utf8_encode_codepoint", "passgen_utf8_decode"]),
    H("encode-short", "utf8.c", "h_encode_short", unwind=20, level="bounded", bound="at most 3 code points, output of at most 17 bytes", functions=["passgen_utf8_encode"]),
], "CBMC contracts", "")

# ------------------------------------------------------------------ randomness
U = (8, 16, 32, 64)
prop("C01", "proof", [
    *[C("u%d_max-contract" % n, "random.c", "h_max%d" % n, "passgen_random_u%d_max/c_max%d" % (n, n),
        ["passgen_random_u%d/c_draw%d" % (n, n)], loops=True, unwind=66) for n in U],
    *[H("u%d-draw" % n, "random.c", "h_u%d" % n, unwind=4, functions=["passgen_random_u%d" % n, "passgen_random_read"]) for n in U],
    H("bool-half", "random.c", "h_bool", unwind=258, functions=["passgen_random_bool"]),
    *[H("u%d_max-short" % n, "random.c", "h_max%d_short" % n, unwind=66, level="bounded", bound="at most four raw draws", functions=["passgen_random_u%d_max" % n]) for n in U],
], "CBMC function and loop contracts over ghost draw log", "")
prop("C02", "proof", [
    H("read", "random.c", "h_read", unwind=4, flags=["--arrays-uf-always"], functions=["passgen_random_read", "passgen_random_reload"]),
    H("read-long", "random.c", "h_read_long", unwind=4, functions=["passgen_random_read"]),
    *[H("read-long-failing-source-" + c, "random.c", "h_read_long_failing", unwind=4, config=c, functions=["passgen_random_read"]) for c in ("debug", "release")],
    H("reload", "random.c", "h_reload", unwind=2, functions=["passgen_random_reload"]),
    *[H("read-failing-source-" + c, "random.c", "h_read_failing", unwind=4, flags=["--arrays-uf-always"], config=c, functions=["passgen_random_read", "passgen_random_reload"]) for c in ("debug", "release")],
    *[H("reload-failing-source-" + c, "random.c", "h_reload_failing", unwind=4, config=c, functions=["passgen_random_reload"]) for c in ("debug", "release")],
], "", "")

NOT_APPLICABLE = {
    "C29": "unpredictability of kernel randomness is a statement about a physical/cryptographic source outside the program text; no contract over the code can express it",
    "C30": "the filter is installed by libseccomp and enforced by the kernel; which later system calls happen is decided in libc and the kernel, outside the reach of contracts on this code",
}

prop("C03", "proof", [
    C("chacha-rounds", "chacha.c", "h_rounds", "chacha20_rounds/c_rounds_exact", loops=True, unwind=40),
    C("chacha-keystream", "chacha.c", "h_djb", "passgen_chacha20_djb/c_djb", ["chacha20_rounds/c_rounds", "passgen_wipe/c_wipe", "store32_le/c_store", "load32_le_buf/c_loadbuf"], loops=True, unwind=66, defs=["VP_STATICS"]),
    C("chacha-store", "chacha.c", "h_store", "store32_le/c_store_exact"),
    H("chacha-loadbuf", "chacha.c", "h_loadbuf", unwind=34, defs=["VP_STATICS"]),
    H("chacha-constant", "chacha.c", "h_constant", unwind=18, defs=["VP_STATICS"]),
    C("xorshift-read", "xorshift.c", "h_read", "passgen_random_xorshift_read/c_read", loops=True, unwind=42),
    H("xorshift-open", "xorshift.c", "h_xorshift", unwind=20, functions=["passgen_random_xorshift_open"]),
    *[H("source-" + n, "sources.c", "h_" + n, unwind=42, link=["random/random.c", "random/%s.c" % ("zero" if n == "zero" else "deterministic")],
        functions=f) for n, f in (("chacha_open", ["passgen_random_chacha20_open"]), ("chacha_seek", ["passgen_random_chacha20_seek"]), ("chacha_next", []),
                                  ("chacha_null", []), ("zero", ["passgen_random_zero_open"]))],
], "", "", search=[
    H("chacha-keystream-short", "chacha.c", "h_djb_short", native_only=True),
    H("chacha-rounds-native", "chacha.c", "h_rounds_native", native_only=True),
])
prop("C04", "proof", [
    H("descriptor", "desc.c", "h_desc_any", unwind=40, functions=["passgen_random_open", "passgen_random_open_parse"]),
    H("descriptor-argon2", "desc.c", "h_desc_argon", unwind=40, functions=["passgen_random_open", "passgen_random_open_parse"]),
    H("no-descriptor", "desc.c", "h_desc_null", unwind=10, functions=["passgen_random_open"]),
], "", "", search=[H("descriptor-short", "desc.c", "h_desc_short", native_only=True)])
prop("C23", "proof", [
    C("wipe", "chacha.c", "h_wipe", "passgen_wipe/c_wipe_zero", loops=True, unwind=42),
    H("wipe-short", "chacha.c", "h_wipe_short", unwind=42, level="bounded", bound="at most 39 bytes"),
], "", "")
prop("C26", "proof", [
    H("version", "semver.c", "h_version", functions=["passgen_version_compatible", "passgen_version_get"]),
], "", "")
prop("C27", "proof", [
    H("context", "context.c", "h_context", unwind=6, functions=["passgen_malloc", "passgen_calloc", "passgen_realloc", "passgen_free", "passgen_context_init"]),
], "", "")
prop("C25", "proof", [
    H("siphash", "siphash.c", "h_siphash", loops=True, inner=4, unwind=26, slice=False, functions=["passgen_siphash"]),
    H("siphash-round", "siphash.c", "h_round", backend="z3", defs=["VP_STATICS"], functions=["passgen_siphash"]),
], "", "", search=[H("siphash-native", "siphash.c", "h_siphash_short", native_only=True)])
prop("C19", "proof", [
    *[H("array-" + n, "array.c", "h_" + n, unwind=3, functions=["passgen_array_" + n]) for n in ("init", "push", "pop", "get")],
], "", "", search=[H("array-history", "array.c", "h_array_history", native_only=True)])
prop("C07", "proof", [
    H("token-step", "token.c", "h_token_step", functions=["passgen_token_parse"]),
    H("token-init", "token.c", "h_token_init", functions=["passgen_token_parser_init"]),
], "", "", search=[H("token-string", "token.c", "h_token_string", native_only=True)])
TYPES = ("passgen_parser_state", "passgen_pattern_segment", "passgen_pattern_item", "passgen_pattern_range")
prop("C18", "proof", [
    H("stack-get", "stack.c", "h_get", unwind=42, no_native=True, functions=["passgen_stack_get", "passgen_stack_top"]),
    *[H("stack-%s-%s" % (n, t.split("_")[-1]), "stack.c", "h_" + n, unwind=42, no_native=True, defs=["VP_TYPE=" + t], cost=3, functions=["passgen_stack_" + n.split("_")[0]])
      for t in TYPES for n in ("push_few", "pop_few", "push_many", "pop_many")],
], "", "", search=[H("stack-history", "stack.c", "h_stack_history", native_only=True)])
# ------------------------------------------------------------------ generation
G = lambda name, entry, *f, **kw: H(name, "generate.c", entry, defs=["VP_STATICS"] + kw.pop("defs", []), functions=["passgen_" + x for x in f], **kw)
GROUP = dict(loops=True, inner=2, calls=["passgen_generate_segment:vp_by_segment"])
G_SEGMENT = G("segment", "h_segment", "generate_segment", loops=True, inner=2, calls=["passgen_generate_item:vp_by_item"])
G_ITEM = G("item", "h_item", "generate_item", loops=True, inner=2, calls=["passgen_generate_%s:vp_by_%s" % (n, n) for n in ("repeat", "set", "literal", "special", "group")])
G_REPEAT = G("repeat", "h_repeat", "generate_repeat")
G_SET = G("set", "h_set", "generate_set", loops=True)
G_GROUP = G("group", "h_group", "generate_group", **GROUP)
G_LITERAL = G("literal", "h_literal", "generate_literal", unwind=9)
G_TOP = G("generate", "h_generate", "generate", calls=["passgen_generate_group:vp_by_group_top"])
G_WORDLIST = G("wordlist", "h_wordlist", "generate_special", "generate_special_wordlist", loops=True, inner=2, calls=["passgen_generate_special_markov:vp_by_no_markov"])
G_MARKOV = G("markov", "h_markov", "generate_special", "generate_special_markov", loops=True, inner=2, dfcc=True, cost=9)
G_PRESET = G("preset", "h_preset", "generate_special")
prop("C10", "proof", [G_GROUP, G_SEGMENT], "", "")
prop("C11", "proof", [G_SET], "", "")
prop("C12", "proof", [G_REPEAT, G_ITEM, G_SEGMENT], "", "")
prop("C13", "proof", [G_TOP, G_REPEAT, G_SET, G_ITEM, G_SEGMENT, G_GROUP, G_LITERAL, G_WORDLIST, G_MARKOV, G_PRESET,
    G("group-entropy", "h_group", "generate_group", cost=9, **dict(GROUP, defs=["VP_ENTROPY_JOB=((size_t)1<<53)"]))], "", "")
prop("C14", "proof", [
    G("write-unicode", "h_write_unicode", "generate_write_buffer"), G("write-utf8", "h_write_utf8", "generate_write_buffer_utf8", unwind=8, link=["util/utf8.c"]),
    G("write-json", "h_write_json", "generate_write_buffer_json_utf8", unwind=8, link=["util/utf8.c"]),
    G("fill", "h_fill", "generate_fill_unicode", "generate_fill_utf8", "generate_fill_json_utf8", calls=["passgen_generate:vp_by_generate"]),
    G_LITERAL, G_SET, G_ITEM, G_SEGMENT, G_GROUP], "", "")
prop("C15", "proof", [G("write-json", "h_write_json", "generate_write_buffer_json_utf8", unwind=8, link=["util/utf8.c"])], "", "")
prop("C16", "proof", [G_TOP, G_GROUP, G_SEGMENT, G_ITEM], "", "")
# ------------------------------------------------------------------ parsing
REFERENCE = [H("reference", "reference.c", "h_reference", native_only=True)]
PCALLS = ["passgen_pattern_group_free:vp_by_group_free", "passgen_pattern_segment_free:vp_by_segment_free", "passgen_pattern_group_finish:vp_by_group_finish"]
P = lambda name, entry, *f, **kw: H(name, "parser.c", entry, **dict(dict(unwind=9, defs=["VP_STATICS"] + kw.pop("defs", []), functions=["passgen_" + x for x in f], calls=PCALLS), **kw))
UNEXPECTED = ["passgen_parser_state_push_%s:vp_no_state_push_%s" % (x, x) for x in ("group", "set", "repeat", "multiplier", "special")] + [
    "passgen_pattern_%s:vp_no_%s" % (x, x) for x in ("group_segment_append", "segment_new_special", "segment_new_set", "segment_new_group")]
P_GROUP = [P("escape-in-group", "h_group", "parse_group", "parse_token", unwind=13, calls=PCALLS + UNEXPECTED)] + [
    P("special-%s-in-group" % t, "h_group", "parse_group", "parse_token", defs=["VP_TOKEN=((1<<30)+'%s')" % t]) for t in "mpw"] + [
    P("%s-in-group" % n, "h_group", "parse_group", "parse_token", defs=["VP_TOKEN='%s'" % t])
    for n, t in (("bar", "|"), ("closing", ")"), ("opening", "("), ("bracket", "["), ("brace", "{"), ("question-mark", "?"))]
P_LITERAL = P("character-in-group", "h_group", "parse_group", "parse_token", defs=["VP_LITERALS=1"], calls=PCALLS + UNEXPECTED)
P_SET = P("token-in-set", "h_set", "parse_set")
P_SETR = P("token-in-range", "h_set_range", "parse_set_range")
P_SETC = P("end-of-set", "h_set_close", "parse_set", loops=True, unwind=None)
P_MULT = P("token-in-weight", "h_multiplier", "parse_multiplier")
P_REP = [P("token-in-repetition", "h_repeat", "parse_repeat"), P("token-in-upper-bound", "h_repeat", "parse_repeat_range", defs=["VP_SECOND=1"])]
P_SPEC = P("token-after-special", "h_special", "parse_special")
P_NAME = P("token-in-name", "h_special_name", "parse_special_name", calls=PCALLS + ["passgen_pattern_special_push:vp_by_special_push"])
P_FIN = P("end-of-text", "h_finish", "parse_finish")
P_INIT = P("begin-of-text", "h_init", "parser_init", "parser_free")
P_FREE = [
    P("release-alternative", "h_segment_free", "pattern_segment_free", loops=True, unwind=None, calls=["passgen_pattern_item_free:vp_by_item_free"]),
    P("release-group", "h_group_free", "pattern_group_free", loops=True, unwind=None, calls=["passgen_pattern_segment_free:vp_by_each_segment_free"]),
    P("release-item", "h_item_free", "pattern_item_free", "pattern_set_free", "pattern_special_free", unwind=82),
    P("release-pattern", "h_pattern_free", "pattern_free", unwind=82),
]
P_EMPTY = P("empty-group", "h_group_finish", "pattern_group_finish", loops=True, unwind=None, calls=[])
P_UNICODE = P("feed-characters", "h_unicode", "parser_unicode", loops=True, unwind=None, calls=["passgen_parse_token:vp_by_parse_token"])
P_PARSE = H("feed-text", "parse.c", "h_parse", loops=True, dfcc=True, cost=2, waive=[r"same object violation in pattern_cur - &pattern\["], functions=["passgen_parse"])
prop("C08", "proof", [P_UNICODE, P_PARSE, P_EMPTY, *P_FREE, *P_GROUP, P_LITERAL, P_SET, P_SETR, P_SETC, P_MULT, *P_REP, P_SPEC, P_NAME, P_FIN, P_INIT], "", "", search=REFERENCE)
prop("C09", "proof", [P_LITERAL, P_SET, P_SETR, G_LITERAL], "", "", search=REFERENCE)
for x in range(10, 17):
    PROPERTIES["C%d" % x]["search"] = REFERENCE
PROPERTIES["C11"]["jobs"] += [P_SET, P_SETR, P_SETC]
PROPERTIES["C12"]["jobs"] += P_REP
PROPERTIES["C10"]["jobs"] += [P_MULT]
PROPERTIES["C16"]["jobs"] += P_GROUP
