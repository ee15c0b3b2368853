/* Generation, function by function: every function of generate.c is proved
 * against its specification with its callees taken by theirs (calls to the
 * library's random draws, to the containers and to the other generating
 * functions are replaced by the functions vp_by_* below, which assert the
 * callee's precondition and return anything its postcondition allows). */
#include "vp.h"
#include "passgen/generate.h"
#include "passgen/pattern/group.h"
#include "passgen/pattern/segment.h"
#include "passgen/pattern/segment_item.h"
#include "passgen/pattern/range.h"
#include "passgen/util/utf8.h"
#include "passgen/wordlist.h"

#ifndef VP_ENTROPY
#define VP_ENTROPY 8.0
#endif
/* ---- ghost state ------------------------------------------------------------------ */
size_t vp_draws, vp_bound, vp_draw, vp_coins; bool vp_coin;
size_t vp_calls; int vp_fail; bool vp_failed;
size_t vp_emitted; uint32_t vp_last;
/* alternatives of a group: the one looked at last, its weight and the sum of the weights before it */
passgen_pattern_segment vp_segment; size_t vp_pos, vp_len, vp_sum, vp_before, vp_weight; bool vp_looked;
#define VP_ITEM_GHOST vp_calls, vp_failed
#define VP_SEGMENT_GHOST vp_calls, vp_failed, vp_pos
#define VP_GROUP_GHOST vp_segment, vp_pos, vp_before, vp_weight, vp_looked
#define VP_GROUP_STEP (vp_looked && vp_before <= vp_sum && vp_weight <= vp_sum - vp_before && (vp_pos + 1 < vp_len || vp_weight == vp_sum - vp_before) && segment == &vp_segment && vp_segment.multiplier == vp_weight && vp_pos == segment_index && \
    vp_before <= vp_draw && choice == vp_draw - vp_before)
/* code points of a word */
uint32_t *vp_out; size_t vp_n, vp_end, vp_level, vp_watch; uint32_t vp_watched; bool vp_seen;
#define VP_EMIT_GHOST vp_emitted, vp_last, vp_seen
#define VP_MARKOV_GHOST vp_n, vp_watched, vp_out
#define VP_MARKOV_STEP (vp_n == pos - vp_level && (pos == vp_level || (vp_out == word && word[pos - 1] != 0)) && \
    (vp_watch >= pos || word[vp_watch] == (vp_watch < vp_level ? 0 : vp_watched)) && (vp_watch < vp_level || vp_watch >= pos || vp_watched != 0))
#define VP_MARKOV_EMIT (vp_level <= pos && pos <= vp_level + vp_n - 1 && vp_emitted == pos - vp_level)
#define VP_WORD_EMIT (0 <= i && i <= vp_n && vp_emitted == i)

static passgen_random *vp_random;

uint64_t vp_by_u64_max(passgen_random *random, uint64_t max) {
    vp_assert(random == vp_random, "draws come from the environment's source");
    vp_assert(max != 0, "a draw has a bound");
    vp_bound = max; vp_draws++;
    return vp_draw = vp_range(0, max - 1);
}
bool vp_by_bool(passgen_random *random) {
    vp_assert(random == vp_random, "coins come from the environment's source");
    vp_coins++;
    return vp_coin = vp_bool();
}
#ifdef VP_PROOF
#define passgen_random_u64_max vp_by_u64_max
#define passgen_random_bool vp_by_bool
#define passgen_stack_get vp_by_get
#define passgen_hashmap_lookup vp_by_lookup
#define passgen_wordlist_parse vp_by_parse
#define passgen_wordlist_parse_markov vp_by_parse_markov
#define passgen_wordlist_random vp_by_word
#define passgen_wordlist_count vp_by_count
#define passgen_markov_generate vp_by_markov
#define strlen vp_by_strlen
#define memset vp_by_memset
#define passgen_utf8_decode vp_by_decode
void *vp_by_get(const passgen_stack *stack, size_t pos);
passgen_hashmap_entry *vp_by_lookup(passgen_hashmap *map, const void *key);
int vp_by_parse(passgen_wordlist *l);
int vp_by_parse_markov(passgen_wordlist *l);
const char *vp_by_word(passgen_wordlist *l, passgen_random *random);
size_t vp_by_count(passgen_wordlist *l);
size_t vp_by_strlen(const char *s);
void *vp_by_memset(void *p, int c, size_t n);
int vp_by_decode(uint32_t **out, size_t out_len, uint8_t *widths, const uint8_t **in, size_t in_len);
uint32_t vp_by_markov(passgen_markov *m, const uint32_t *current, passgen_random *random, double *entropy);
#include "src/generate.c"
#undef strlen
#undef memset
#undef passgen_utf8_decode
#undef passgen_hashmap_lookup

/* ---- callees by contract -------------------------------------------------------------- */
static int vp_cb(void *data, uint32_t codepoint) {
    vp_assert(data == &vp_random, "the callback gets the caller's data");
    if(vp_out) {
        vp_assert(codepoint == vp_out[vp_level + vp_emitted], "the word's code points in order");
    }
    vp_last = codepoint; vp_emitted++;
    return (int) vp_range(0, 1) ? vp_fail : 0;
}
static passgen_generate_context vp_context; static passgen_env vp_env; static double vp_entropy;
static void vp_any_context(void) {
    static passgen_random random;
    vp_random = &random;
    vp_env.random = vp_random;
    vp_context.env = &vp_env;
    vp_context.depth = vp_u64();
    vp_context.data = &vp_random;
    vp_context.func = vp_cb;
    vp_entropy = VP_ENTROPY;
    vp_context.entropy = vp_bool() ? &vp_entropy : NULL;
    vp_draws = vp_coins = vp_calls = vp_emitted = 0; vp_failed = false;
    vp_fail = (int) vp_u32(); vp_assume(vp_fail != 0);
    vp_out = NULL; vp_level = 0; vp_seen = false;
}
static bool vp_entropy_kept(double before) { return vp_entropy == before; }
/* any element of a stack with vp_len elements */
passgen_pattern_item vp_item; passgen_pattern_range vp_ranges[2]; const passgen_stack *vp_stack; int vp_what;
void *vp_by_get(const passgen_stack *stack, size_t pos) {
    vp_assert(stack == vp_stack, "elements of the stack at hand");
    if(pos >= stack->len) return NULL;
    if(vp_what == 0) {
        /* the weights: any whose sum is what the group says */
        size_t before = pos == 0 ? 0 : vp_looked && pos == vp_pos + 1 ? vp_before + vp_weight : vp_u64();
        size_t w = vp_u64();
        vp_assume(before <= vp_sum && w <= vp_sum - before && (pos + 1 < stack->len || w == vp_sum - before));
        if(vp_looked && pos == vp_pos) vp_assume(before == vp_before && w == vp_weight);
        vp_looked = true; vp_pos = pos; vp_before = before; vp_weight = vp_segment.multiplier = w;
        return &vp_segment;
    }
    vp_pos = pos;
    if(vp_what == 1) {
        vp_ranges[1].start = vp_u32(); vp_ranges[1].end = vp_u32();
        vp_assume(vp_ranges[1].start <= vp_ranges[1].end);
        return &vp_ranges[1];
    }
    return &vp_item;
}

/* ---- repeat --------------------------------------------------------------------------- */
void h_repeat(void) {
    vp_any_context();
    passgen_pattern_repeat r = {vp_u64(), vp_u64()};
    vp_assume(r.min <= r.max && r.max - r.min < SIZE_MAX);
    double e = vp_entropy; size_t d = vp_context.depth;
    size_t n = passgen_generate_repeat(&vp_context, &r);
    vp_assert(n >= r.min && n <= r.max, "a count within the bounds");
    vp_assert(vp_coins == 0 && vp_emitted == 0 && vp_context.depth == d, "nothing else happens");
    if(r.min == r.max) vp_assert(vp_draws == 0 && vp_entropy_kept(e), "no draw without a choice");
    else {
        vp_assert(vp_draws == 1 && vp_bound == r.max - r.min + 1, "one draw below the number of counts");
        vp_assert(n == r.min + vp_draw, "the count drawn");
        if(vp_context.entropy) vp_assert(vp_entropy == e * (r.max - r.min + 1), "the entropy counts the choice");
        else vp_assert(vp_entropy_kept(e), "no entropy asked for");
    }
    vp_reach("repeat");
}
/* ---- set ------------------------------------------------------------------------------ */
void h_set(void) {
    vp_any_context();
    passgen_pattern_set set;
    size_t len = set.items.len = vp_range(0, (size_t) 1 << 40), k = vp_u64();
    set.choices_list = malloc(len * sizeof(size_t));
    vp_stack = &set.items; vp_what = 1;
    size_t total = 0;
    if(len) {
        total = set.choices_list[len - 1];
        /* running totals of non-empty ranges, as the parser leaves them (C08) */
        vp_assume(total >= 1);
        vp_assume(k < len && (k == 0 || set.choices_list[k - 1] < set.choices_list[k]) && set.choices_list[k] <= total);
    }
    double e = vp_entropy; size_t d = vp_context.depth;
    int ret = passgen_generate_set(&vp_context, &set);
    vp_assert(vp_coins == 0 && vp_context.depth == d, "nothing else happens");
    if(len == 0) {
        vp_assert(ret == 0 && vp_draws == 0 && vp_emitted == 0 && vp_entropy_kept(e), "an empty set emits and draws nothing");
        vp_reach("empty set");
        return;
    }
    vp_assert(vp_draws == 1 && vp_bound == total, "one draw below the number of members");
    vp_assert(vp_emitted == 1 && (ret == 0 || ret == vp_fail), "one code point");
    size_t before = vp_pos ? set.choices_list[vp_pos - 1] : 0;
    vp_assert(before <= vp_draw && vp_draw < set.choices_list[vp_pos], "the range in whose share the draw falls");
    vp_assert(vp_last == (uint32_t) (vp_ranges[1].start + (vp_draw - before)), "the member at the drawn place in the range");
    if(vp_context.entropy) vp_assert(vp_entropy == e * total, "the entropy counts the choice");
    else vp_assert(vp_entropy_kept(e), "no entropy asked for");
    vp_reach("set");
}
/* ---- literal -------------------------------------------------------------------------- */
void h_literal(void) {
    vp_any_context();
    passgen_pattern_literal l;
    l.count = vp_range(1, 7); l.tainted = vp_u8();
    vp_out = (uint32_t *) l.codepoints;
    double e = vp_entropy; size_t d = vp_context.depth;
    int ret = passgen_generate_literal(&vp_context, &l);
    vp_assert(vp_draws == 0 && vp_coins == 0 && vp_context.depth == d && vp_entropy_kept(e), "no choice");
    if(ret == 0) vp_assert(vp_emitted == l.count, "every character once");
    else vp_assert(ret == vp_fail && vp_emitted >= 1 && vp_emitted <= l.count, "the callback's error");
    vp_reach("literal");
}
/* ---- item ----------------------------------------------------------------------------- */
static passgen_pattern_item vp_it; static size_t vp_reps;
size_t vp_by_repeat(passgen_generate_context *context, const passgen_pattern_repeat *repeat) {
    vp_assert(context == &vp_context && repeat == &vp_it.repeat && vp_draws == 0, "the item's repetition, once");
    vp_draws++;
    return vp_reps;
}
static int vp_element(passgen_generate_context *context, const void *p, int kind) {
    vp_assert(context == &vp_context && vp_it.kind == kind && p == &vp_it.data, "the item's own element");
    vp_calls++;
    return (vp_failed = vp_bool()) ? vp_fail : 0;
}
int vp_by_set(passgen_generate_context *c, const passgen_pattern_set *p) { return vp_element(c, p, PASSGEN_PATTERN_SET); }
int vp_by_literal(passgen_generate_context *c, const passgen_pattern_literal *p) { return vp_element(c, p, PASSGEN_PATTERN_LITERAL); }
int vp_by_special(passgen_generate_context *c, const passgen_pattern_special *p) { return vp_element(c, p, PASSGEN_PATTERN_SPECIAL); }
int vp_by_group(passgen_generate_context *c, const passgen_pattern_group *p) { return vp_element(c, p, PASSGEN_PATTERN_GROUP); }
void h_item(void) {
    vp_any_context();
    static const enum passgen_pattern_kind kinds[] = {PASSGEN_PATTERN_SET, PASSGEN_PATTERN_LITERAL, PASSGEN_PATTERN_SPECIAL, PASSGEN_PATTERN_GROUP};
    vp_it.kind = kinds[vp_range(0, 3)];
    vp_it.maybe = vp_bool();
    vp_reps = vp_u64();
    double e = vp_entropy; size_t d = vp_context.depth;
    int ret = passgen_generate_item(&vp_context, &vp_it);
    vp_assert(vp_emitted == 0 && vp_context.depth == d, "nothing else happens");
    vp_assert(vp_coins == (vp_it.maybe ? 1 : 0), "a coin for an optional item only");
    if(vp_it.maybe && vp_context.entropy) vp_assert(vp_entropy == e * 2, "the entropy counts the coin");
    else vp_assert(vp_entropy_kept(e), "no further choice");
    if(vp_it.maybe && vp_calls == 0 && vp_draws == 0) {
        vp_assert(ret == 0, "left out");
        vp_reach("left out");
        vp_assert(vp_coin == false, "left out on one side of the coin only");
        return;
    }
    if(vp_it.maybe) vp_assert(vp_coin == true, "generated on the other side of the coin");
    vp_assert(vp_draws == 1, "the count is drawn once");
    if(ret == 0) vp_assert(vp_calls == vp_reps && !vp_failed, "generated as often as drawn");
    else vp_assert(ret == vp_fail && vp_failed && vp_calls <= vp_reps, "an element's error ends the generation");
    vp_reach("item");
}
/* ---- segment -------------------------------------------------------------------------- */
int vp_by_item(passgen_generate_context *context, const passgen_pattern_item *item) {
    vp_assert(context == &vp_context && item == &vp_item && vp_pos == vp_calls, "the items in order");
    vp_calls++;
    return (vp_failed = vp_bool()) ? vp_fail : 0;
}
void h_segment(void) {
    vp_any_context();
    passgen_pattern_segment s;
    size_t len = s.items.len = vp_u64();
    vp_stack = &s.items; vp_what = 2;
    double e = vp_entropy; size_t d = vp_context.depth;
    int ret = passgen_generate_segment(&vp_context, &s);
    vp_assert(vp_draws == 0 && vp_coins == 0 && vp_emitted == 0 && vp_context.depth == d && vp_entropy_kept(e), "nothing else happens");
    if(ret == 0) vp_assert(vp_calls == len && !vp_failed, "every item once");
    else vp_assert(ret == vp_fail && vp_failed && vp_calls <= len, "an item's error ends the generation");
    vp_reach("segment");
}
/* ---- group ---------------------------------------------------------------------------- */
static size_t vp_depth;
int vp_by_segment(passgen_generate_context *context, const passgen_pattern_segment *segment) {
    vp_assert(context == &vp_context && segment == &vp_segment && vp_calls == 0, "one alternative");
    vp_assert(vp_depth > 0 && context->depth == vp_depth - 1, "one level less for what is inside");
    vp_calls++;
    return (vp_failed = vp_bool()) ? vp_fail : 0;
}
void h_group(void) {
    vp_any_context();
    passgen_pattern_group g;
    g.segments.len = vp_len = vp_range(0, SIZE_MAX - 1); vp_looked = false;
    g.multiplier_sum = vp_sum = vp_u64();
    vp_stack = &g.segments; vp_what = 0;
    /* the sum is that of the weights, so without alternatives it is zero (C08) */
    if(vp_sum) vp_assume(g.segments.len >= 1);
    double e = vp_entropy; vp_depth = vp_context.depth;
    int ret = passgen_generate_group(&vp_context, &g);
    vp_assert(vp_coins == 0 && vp_emitted == 0, "nothing else happens");
    if(vp_depth == 0 || vp_sum == 0) {
        vp_assert(ret != 0 && vp_draws == 0 && vp_calls == 0, "too deep, or nothing to choose from");
        vp_reach("refused");
        return;
    }
    vp_assert(vp_draws == 1 && vp_bound == vp_sum && vp_calls == 1, "one draw below the sum of the weights, one alternative");
    vp_assert(vp_before <= vp_draw && vp_draw - vp_before < vp_weight, "the alternative in whose share the draw falls");
    vp_assert(ret == (vp_failed ? vp_fail : 0), "fails exactly if the alternative does");
    if(ret == 0) vp_assert(vp_context.depth == vp_depth, "the level is given back");
#ifdef VP_ENTROPY_JOB
    /* exact for these, whatever the order of the operations: quotients by a power of two */
    vp_assume(vp_sum < VP_ENTROPY_JOB && (vp_weight & (vp_weight - 1)) == 0);
    if(vp_context.entropy) vp_assert(vp_entropy == VP_ENTROPY * (double) vp_sum / (double) vp_weight, "the entropy counts the choice");
#endif
    if(!vp_context.entropy) vp_assert(vp_entropy_kept(e), "no entropy asked for");
    vp_reach("group");
}
/* ---- entry ---------------------------------------------------------------------------- */
static const passgen_pattern *vp_pattern; static bool vp_want; static int vp_ret;
int vp_by_group_top(passgen_generate_context *c, const passgen_pattern_group *g) {
    vp_assert(g == &vp_pattern->group && c->env == &vp_env && c->data == &vp_random && c->func == vp_cb, "the pattern's group, the caller's data");
    vp_assert(c->depth == vp_env.depth_limit, "the configured depth limit");
    vp_assert(c->entropy == (vp_want ? &vp_entropy : NULL), "entropy if asked for");
    if(vp_want) vp_assert(vp_entropy == 1.0, "entropy starts at one");
    vp_calls++;
    return vp_ret;
}
void h_generate(void) {
    vp_any_context();
    static passgen_pattern pattern;
    vp_pattern = &pattern; vp_env.depth_limit = vp_u64(); vp_want = vp_bool(); vp_ret = (int) vp_u32();
    int ret = passgen_generate(&pattern, &vp_env, vp_want ? &vp_entropy : NULL, &vp_random, vp_cb);
    vp_assert(vp_calls == 1 && ret == vp_ret, "one run, its result");
    vp_reach("generate");
}

#ifndef VP_LEVEL
#define VP_LEVEL vp_u64()
#endif
/* ---- word lists and chains --------------------------------------------------------------- */
static passgen_wordlist vp_list; static bool vp_found, vp_parse_ok, vp_marked; static size_t vp_count;
static char vp_name_buffer[8], vp_word_bytes[8]; static size_t vp_bytes; static int vp_decode_ret;
static passgen_hashmap_entry vp_list_entry;
passgen_hashmap_entry *vp_by_lookup(passgen_hashmap *map, const void *key) {
    vp_assert(map == &vp_env.wordlists && key == vp_name_buffer, "the named list in the environment's word lists");
    return vp_found ? &vp_list_entry : NULL;
}
int vp_by_parse(passgen_wordlist *l) {
    vp_assert(l == &vp_list && !l->parsed, "parsed once");
    l->parsed = true;
    l->count = vp_parse_ok ? vp_count : 0;
    return vp_parse_ok ? 0 : vp_fail;
}
int vp_by_parse_markov(passgen_wordlist *l) {
    vp_assert(l == &vp_list && l->parsed && !l->parsed_markov, "trained once, after parsing");
    if(vp_marked) l->parsed_markov = true;
    return vp_marked ? 0 : vp_fail;
}
/* C22: one draw below the number of words, or nothing from an empty list */
const char *vp_by_word(passgen_wordlist *l, passgen_random *random) {
    vp_assert(l == &vp_list && random == vp_random, "a word of the list");
    if(!l->parsed || l->count == 0) return NULL;
    vp_draws++;
    return vp_word_bytes;
}
size_t vp_by_count(passgen_wordlist *l) { vp_assert(l == &vp_list, "the list's count"); return l->count; }
size_t vp_by_strlen(const char *s) { vp_assert(s == vp_word_bytes, "the length of the word"); return vp_bytes; }
/* of the start markers only the one at vp_watch, which is arbitrary, is looked at */
void *vp_by_memset(void *p, int c, size_t n) {
    vp_assert(__CPROVER_w_ok(p, n), "memset inside its object");
    vp_assert(c == 0 && n == vp_level * sizeof(uint32_t), "the start markers are written");
    if(vp_watch < vp_level) ((uint32_t *) p)[vp_watch] = 0;
    return p;
}
/* C05 */
int vp_by_decode(uint32_t **out, size_t out_len, uint8_t *widths, const uint8_t **in, size_t in_len) {
    vp_assert(*in == (uint8_t *) vp_word_bytes && in_len == vp_bytes && widths == NULL, "the whole word is decoded");
    vp_assert(__CPROVER_w_ok(*out, out_len * sizeof(uint32_t)), "room for the code points");
    vp_out = *out;
    vp_n = vp_range(0, out_len);
    *out += vp_n;
    return vp_decode_ret;
}
uint32_t vp_by_markov(passgen_markov *m, const uint32_t *current, passgen_random *random, double *entropy) {
    vp_assert(m == &vp_list.markov && random == vp_random, "a step of the list's chain");
    vp_assert(entropy == vp_context.entropy, "the step counts its own choice in the entropy asked for");
    if(vp_n == 0) vp_out = (uint32_t *) current;
    vp_assert(current == vp_out + vp_n, "the window ends where the next code point goes");
    vp_assert(vp_level == 0 || __CPROVER_r_ok(current, vp_level * sizeof(uint32_t)), "the window is readable");
    if(vp_watch < vp_level) vp_assert(vp_out[vp_watch] == 0, "the first windows start with start markers");
    uint32_t c = vp_u32();
    if(vp_watch == vp_level + vp_n) vp_watched = c;
    else if(vp_watch >= vp_level && vp_watch < vp_level + vp_n) vp_assert(vp_out[vp_watch] == vp_watched, "windows hold what was generated");
    vp_n++;
    return c;
}
static void vp_any_special(passgen_pattern_special *s) {
    vp_any_context();
    s->parameters = vp_bool() ? vp_name_buffer : NULL;
    s->parameters_len = (int32_t) vp_u32();
    vp_found = vp_bool(); vp_parse_ok = vp_bool(); vp_marked = vp_bool(); vp_count = vp_u64(); vp_bytes = vp_u64(); vp_decode_ret = (int) vp_u32();
    vp_list_entry.key = vp_name_buffer; vp_list_entry.value = &vp_list;
    vp_list.parsed = vp_bool(); vp_list.parsed_markov = vp_list.parsed && vp_bool();
    vp_list.count = vp_list.parsed ? vp_count : 0; /* an earlier failure to parse leaves the list empty */
    vp_n = 0; vp_watch = vp_u64();
}
static bool vp_usable(passgen_pattern_special *s, bool before) {
    return s->parameters && vp_found && (before || vp_parse_ok) && vp_count > 0;
}
int vp_by_no_markov(passgen_generate_context *c, const passgen_pattern_special *s) { vp_assert(0, "not a chain"); return 0; }
void h_wordlist(void) {
    passgen_pattern_special s;
    vp_any_special(&s);
    s.kind = PASSGEN_PATTERN_SPECIAL_WORDLIST;
    bool usable = vp_usable(&s, vp_list.parsed);
    double e = vp_entropy; size_t d = vp_context.depth;
    int ret = passgen_generate_special(&vp_context, &s);
    vp_assert(vp_context.depth == d && vp_coins == 0, "nothing else happens");
    if(!usable) { vp_assert(ret != 0 && vp_emitted == 0 && vp_draws == 0, "no list, or an unusable one: failure without output"); vp_reach("refused"); return; }
    vp_assert(vp_draws == 1, "one word");
    if(ret == 0) {
        vp_assert(vp_decode_ret == 0 && vp_emitted == vp_n, "the word's code points, each once");
        if(vp_context.entropy) vp_assert(vp_entropy == e * vp_count, "the entropy counts the words");
    } else vp_assert(ret == vp_fail || ret == vp_decode_ret, "a word that cannot be decoded or emitted is an error");
    if(!vp_context.entropy) vp_assert(vp_entropy_kept(e), "no entropy asked for");
    vp_reach("wordlist");
}
void h_markov(void) {
    passgen_pattern_special s;
    vp_any_special(&s);
    s.kind = PASSGEN_PATTERN_SPECIAL_MARKOV;
    vp_level = vp_list.markov.level = VP_LEVEL;
    bool usable = vp_usable(&s, vp_list.parsed) && (vp_list.parsed_markov || vp_marked);
    double e = vp_entropy; size_t d = vp_context.depth;
    int ret = passgen_generate_special(&vp_context, &s);
    vp_assert(vp_context.depth == d && vp_coins == 0 && vp_draws == 0 && vp_entropy_kept(e), "the steps make the choices");
    if(!usable) { vp_assert(ret != 0 && vp_emitted == 0 && vp_n == 0, "no list, or an unusable one: failure without output"); vp_reach("refused"); return; }
    if(ret == 0) {
        vp_assert(vp_n > 0, "at least the end marker");
        /* vp_watch stands for every position */
        if(vp_watch == vp_level + vp_emitted) vp_assert(vp_emitted == vp_n - 1 && vp_watched == 0, "everything before the end marker is emitted");
    }
    vp_reach("markov");
}
void h_preset(void) {
    passgen_pattern_special s;
    vp_any_special(&s);
    s.kind = PASSGEN_PATTERN_SPECIAL_PRESET;
    double e = vp_entropy; size_t d = vp_context.depth;
    passgen_generate_special(&vp_context, &s);
    vp_assert(vp_context.depth == d && vp_coins == 0 && vp_draws == 0 && vp_entropy_kept(e) && vp_emitted == 0, "nothing");
    vp_reach("preset");
}
#endif

/* ---- writing into a buffer ----------------------------------------------------------------- */
#if defined(VP_PROOF)
#define VP_MAXROOM ((size_t) 1 << 40)
#else
#define VP_MAXROOM 12
#endif
#ifdef VP_PROOF

static bool vp_scalar(uint32_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }
static unsigned vp_utf8(uint32_t c, uint8_t b[4]) {
    if(c < 0x80) { b[0] = c; return 1; }
    if(c < 0x800) { b[0] = 0xc0 | c >> 6; b[1] = 0x80 | (c & 63); return 2; }
    if(c < 0x10000) { b[0] = 0xe0 | c >> 12; b[1] = 0x80 | (c >> 6 & 63); b[2] = 0x80 | (c & 63); return 3; }
    b[0] = 0xf0 | c >> 18; b[1] = 0x80 | (c >> 12 & 63); b[2] = 0x80 | (c >> 6 & 63); b[3] = 0x80 | (c & 63); return 4;
}
void h_write_unicode(void) {
    struct fillpos f; size_t len = f.len = vp_range(0, VP_MAXROOM), cur = f.cur = vp_range(0, len), k = vp_u64();
    f.buffer = malloc(len * sizeof(uint32_t));
    uint32_t c = vp_u32(), old = k < cur ? f.buffer[k] : 0, *buffer = f.buffer;
    int ret = passgen_generate_write_buffer(&f, c);
    vp_assert(f.buffer == buffer && f.len == len, "the buffer stays");
    if(k < cur) vp_assert(f.buffer[k] == old, "what was written before stays");
    vp_assert((ret == 0) == (cur < len), "fails exactly if there is no room");
    if(ret == 0) vp_assert(f.cur == cur + 1 && f.buffer[cur] == c, "the code point");
    else vp_assert(f.cur == cur, "nothing is added");
    vp_reach("unicode");
}
void h_write_utf8(void) {
    struct fillpos_utf8 f; size_t len = f.len = vp_range(0, VP_MAXROOM), cur = f.cur = vp_range(0, len), k = vp_u64();
    f.buffer = malloc(len);
    uint32_t c = vp_u32(); uint8_t old = k < cur ? f.buffer[k] : 0, *buffer = f.buffer, want[4] = {0};
    unsigned n = vp_utf8(c, want), i = vp_range(0, 3);
    int ret = passgen_generate_write_buffer_utf8(&f, c);
    vp_assert(f.buffer == buffer && f.len == len, "the buffer stays");
    if(k < cur) vp_assert(f.buffer[k] == old, "what was written before stays");
    vp_assert((ret == 0) == (vp_scalar(c) && n <= len - cur), "fails exactly if there is no room or no encoding");
    if(ret == 0) {
        vp_assert(f.cur == cur + n, "the encoding's length is added");
        if(i < n) vp_assert(f.buffer[cur + i] == want[i], "the code point's encoding");
    } else vp_assert(f.cur == cur, "nothing is added");
    vp_reach("utf8");
}
static int vp_hexval(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* what a JSON reader makes of n bytes inside a string literal that stand for one character, or -1 */
static int64_t vp_json_char(const uint8_t b[12], size_t n) {
    if(b[0] == '\\') {
        if(n == 2) switch(b[1]) {
            case '"': return '"'; case '\\': return '\\'; case '/': return '/'; case 'b': return 8;
            case 'f': return 12; case 'n': return 10; case 'r': return 13; case 't': return 9; default: return -1;
        }
        int64_t v = 0;
        if((n != 6 && n != 12) || b[1] != 'u') return -1;
        for(int i = 2; i < 6; i++) { if(vp_hexval(b[i]) < 0) return -1; v = v * 16 + vp_hexval(b[i]); }
        if(n == 6) return v >= 0xd800 && v <= 0xdfff ? -1 : v;
        int64_t w = 0;
        if(b[6] != '\\' || b[7] != 'u' || v < 0xd800 || v > 0xdbff) return -1;
        for(int i = 8; i < 12; i++) { if(vp_hexval(b[i]) < 0) return -1; w = w * 16 + vp_hexval(b[i]); }
        return w < 0xdc00 || w > 0xdfff ? -1 : 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
    }
    if(b[0] < 0x20 || b[0] == '"') return -1;
    if(b[0] < 0x80) return n == 1 ? b[0] : -1;
    uint32_t c = 0; uint8_t e[4] = {0};
    if(n == 2) c = (b[0] & 31) << 6 | (b[1] & 63);
    else if(n == 3) c = (b[0] & 15) << 12 | (b[1] & 63) << 6 | (b[2] & 63);
    else if(n == 4) c = (b[0] & 7) << 18 | (b[1] & 63) << 12 | (b[2] & 63) << 6 | (b[3] & 63);
    else return -1;
    if(!vp_scalar(c) || vp_utf8(c, e) != n) return -1;
    for(unsigned i = 0; i < 4; i++) if(i < n && e[i] != b[i]) return -1;
    return c;
}
void h_write_json(void) {
    uint32_t c = vp_u32();
    /* with room for any form */
    uint8_t roomy[12];
    struct fillpos_utf8 r = {.buffer = roomy, .cur = 0, .len = 12};
    int rr = passgen_generate_write_buffer_json_utf8(&r, c);
    vp_assert((rr == 0) == vp_scalar(c), "every Unicode character can be written, nothing else");
    size_t n = r.cur;
    if(rr == 0) {
        vp_assert(n >= 1 && n <= 12, "something is written");
        vp_assert(vp_json_char(roomy, n) == c, "a JSON reader gets the code point back");
    } else vp_assert(n == 0, "nothing is added");
    struct fillpos_utf8 f; size_t len = f.len = vp_range(0, VP_MAXROOM), cur = f.cur = vp_range(0, len), k = vp_u64();
    f.buffer = malloc(len);
    uint8_t old = k < cur ? f.buffer[k] : 0, *buffer = f.buffer; size_t i = vp_range(0, 11);
    int ret = passgen_generate_write_buffer_json_utf8(&f, c);
    vp_assert(f.buffer == buffer && f.len == len, "the buffer stays");
    if(k < cur) vp_assert(f.buffer[k] == old, "what was written before stays");
    vp_assert((ret == 0) == (rr == 0 && n <= len - cur), "fails exactly if there is no room or no encoding");
    if(ret == 0) {
        vp_assert(f.cur == cur + n, "the length is added");
        if(i < n) vp_assert(f.buffer[cur + i] == roomy[i], "the same form as with more room");
    } else vp_assert(f.cur == cur, "nothing is added");
    vp_reach("json");
}
/* the fill functions start at the beginning of the buffer and return what the writers report */
static void *vp_buffer; static size_t vp_room, vp_cur; static int vp_kind;
int vp_by_generate(const passgen_pattern *pattern, passgen_env *env, double *entropy, void *data, passgen_generate_cb *func) {
    vp_assert(pattern == vp_pattern && env == &vp_env && entropy == (vp_want ? &vp_entropy : NULL), "the caller's pattern, environment and entropy");
    vp_calls++;
    vp_cur = vp_range(0, vp_room);
    if(vp_kind == 0) {
        struct fillpos *f = data;
        vp_assert(func == passgen_generate_write_buffer && f->buffer == vp_buffer && f->len == vp_room && f->cur == 0, "the code point writer on the whole buffer");
        f->cur = vp_cur;
    } else {
        struct fillpos_utf8 *f = data;
        vp_assert(func == (vp_kind == 1 ? passgen_generate_write_buffer_utf8 : passgen_generate_write_buffer_json_utf8) && f->buffer == vp_buffer && f->len == vp_room && f->cur == 0, "the right writer on the whole buffer");
        f->cur = vp_cur;
    }
    return vp_ret;
}
void h_fill(void) {
    static passgen_pattern pattern; static uint32_t buffer[1];
    vp_any_context();
    vp_pattern = &pattern; vp_want = vp_bool(); vp_buffer = buffer; vp_room = vp_u64(); vp_ret = (int) vp_u32(); vp_kind = vp_range(0, 2);
    double *e = vp_want ? &vp_entropy : NULL;
    size_t n = vp_kind == 0 ? passgen_generate_fill_unicode(&pattern, &vp_env, e, buffer, vp_room) :
               vp_kind == 1 ? passgen_generate_fill_utf8(&pattern, &vp_env, e, (uint8_t *) buffer, vp_room) :
                              passgen_generate_fill_json_utf8(&pattern, &vp_env, e, (uint8_t *) buffer, vp_room);
    vp_assert(vp_calls == 1, "one run");
    vp_assert(n == (vp_ret ? 0 : vp_cur), "the number of units, or zero on failure");
    vp_reach("fill");
}
#endif
