/* The parser, one token at a time. An arbitrary valid parser state (whatever
 * was read before, at any depth) and one arbitrary token: passgen_parse_token
 * accepts exactly if the syntax allows the token there, has exactly the effect
 * the syntax gives it, and leaves a valid parser state. By induction over the
 * tokens, this holds for every pattern.
 *
 * Stacks are taken by their contract: in a proof, a stack's data points to the
 * last two elements, an element that is pushed moves the others if the stack
 * wants to (as reallocating its first bin does). */
#include "vp.h"
#include "passgen/parser/parser.h"
#include "passgen/config.h"

/* running totals of a set's ranges: the range looked at last, and how many characters there were up to it */
size_t vp_k, vp_next, vp_sum, vp_at_k;
passgen_pattern_range vp_some_range;
#define VP_TOTALS_GHOST vp_next, vp_sum, vp_at_k, vp_some_range
#define VP_TOTALS (vp_next == i && choices == vp_sum && vp_sum <= i << 25 && (vp_k >= i || set->choices_list[vp_k] == vp_at_k))

/* releasing: the element watched, and whether it has been released */
unsigned vp_frees; size_t vp_calls;
size_t vp_looked_n; passgen_pattern_segment vp_some_segment; passgen_pattern_item vp_some_item;
#define VP_FREED_GHOST vp_frees, vp_calls, vp_looked_n, vp_some_segment
#define VP_FREED_UPTO(i) (vp_calls == i && vp_frees == (vp_k < i))
/* looking for an alternative with items */
bool vp_all_empty, vp_k_empty;
#define VP_LOOKED_GHOST vp_some_segment, vp_looked_n
#define VP_LOOKED ((!vp_all_empty || empty) && (vp_k >= i || vp_k_empty || !empty))
/* feeding characters */
uint32_t *vp_buf; size_t vp_fed; bool vp_pending, vp_error; int vp_tstate;
#define VP_PARSE_GHOST vp_fed, vp_pending, vp_error, vp_tstate
#define VP_PARSE_FED(i) (vp_fed == i && !vp_pending && !vp_error && (int) token_parser.state == vp_tstate)
#ifdef VP_PROOF
#define passgen_token_parse vp_token_parse
#include "passgen/parser/token.h"
static const void *vp_given_back; static unsigned vp_given;
static void vp_free(void *p) { if(p) vp_given_back = p, vp_given++; free(p); }
#define free vp_free
#define passgen_stack_init vp_stack_init
#define passgen_stack_free vp_stack_free
#define passgen_stack_push vp_stack_push
#define passgen_stack_pop vp_stack_pop
#define passgen_stack_top vp_stack_top
#define passgen_stack_get vp_stack_get
void vp_stack_init(passgen_stack *s, size_t es);
void vp_stack_free(passgen_stack *s);
void *vp_stack_push(passgen_stack *s, void *v);
void *vp_stack_pop(passgen_stack *s, void *v);
void *vp_stack_top(const passgen_stack *s);
void *vp_stack_get(const passgen_stack *s, size_t n);
#include "src/parser/parser.c"
#include "src/pattern/group.c"
#include "src/pattern/segment.c"
#include "src/pattern/segment_item.c"
#include "src/pattern/set.c"
#include "src/pattern/literal.c"
#include "src/pattern/special.c"
#include "src/pattern/pattern.c"
#undef free
/* extern inline definition */
extern passgen_parser_state *passgen_parser_state_push(passgen_parser *parser);
typedef passgen_parser_state T_state; typedef passgen_pattern_segment T_segment; typedef passgen_pattern_item T_item; typedef passgen_pattern_range T_range;

/* ---- stacks by contract ------------------------------------------------------------------- */
#define LAST(s) ((s)->data[0])
#define PREV(s) ((s)->data[1])
static bool vp_moves; /* whether pushing moves the elements there are */
static void *vp_new(size_t es) {
    return es == sizeof(T_state) ? malloc(sizeof(T_state)) : es == sizeof(T_segment) ? malloc(sizeof(T_segment)) : es == sizeof(T_item) ? malloc(sizeof(T_item)) : malloc(sizeof(T_range));
}
static void *vp_moved(void *p, size_t es) {
    void *q = vp_new(es);
    if(es == sizeof(T_state)) *(T_state *) q = *(T_state *) p;
    else if(es == sizeof(T_segment)) *(T_segment *) q = *(T_segment *) p;
    else if(es == sizeof(T_item)) *(T_item *) q = *(T_item *) p;
    else *(T_range *) q = *(T_range *) p;
    free(p);
    return q;
}
void vp_stack_init(passgen_stack *s, size_t es) {
    vp_assert(es == sizeof(T_state) || es == sizeof(T_segment) || es == sizeof(T_item) || es == sizeof(T_range), "a stack of one of the parser's types");
    s->len = 0; s->data = NULL; s->element_size = es; s->bin_size = 32;
}
void vp_stack_free(passgen_stack *s) { s->len = 0; s->data = NULL; s->element_size = 0; s->bin_size = 0; }
void *vp_stack_push(passgen_stack *s, void *v) {
    if(!s->data) { s->data = malloc(2 * sizeof(void *)); LAST(s) = NULL; }
    PREV(s) = s->len && vp_moves ? vp_moved(LAST(s), s->element_size) : LAST(s);
    LAST(s) = vp_new(s->element_size);
    vp_assert(!v, "elements are filled in place");
    s->len++;
    return LAST(s);
}
void *vp_stack_pop(passgen_stack *s, void *v) {
    vp_assert(!v, "the popped element is not copied");
    if(s->len == 0) return NULL;
    free(LAST(s));
    s->len--;
    LAST(s) = PREV(s); PREV(s) = NULL;
    return NULL;
}
void *vp_stack_top(const passgen_stack *s) { return s->len ? LAST(s) : NULL; }
static const passgen_stack *vp_ranges; static passgen_pattern_range *vp_last_range;
static void *vp_look(size_t n); static const passgen_stack *vp_looked_at;
void *vp_stack_get(const passgen_stack *s, size_t n) {
    if(n >= s->len) return NULL;
    if(s == vp_looked_at) return vp_look(n);
    if(s == vp_ranges) {
        passgen_pattern_range *r = n + 1 == s->len ? vp_last_range : &vp_some_range;
        if(r == &vp_some_range) {
            passgen_pattern_range any;
            vp_some_range = any;
            vp_assume(r->start <= r->end && r->end < 1 << 24);
        }
        if(n == vp_next) { vp_sum += (size_t) r->end - r->start + 1; vp_next++; if(n == vp_k) vp_at_k = vp_sum; }
        return r;
    }
    if(n + 1 == s->len) return LAST(s);
    vp_assert(n + 2 == s->len, "only the last elements are looked at");
    return PREV(s);
}
static void vp_any_stack(passgen_stack *s, size_t es, size_t len, void *last, void *prev) {
    s->element_size = es; s->bin_size = 32; s->len = len;
    s->data = len || vp_bool() ? malloc(2 * sizeof(void *)) : NULL;
    if(s->data) { LAST(s) = len > 0 ? last : NULL; PREV(s) = len > 1 ? prev : NULL; }
}

/* ---- callees by contract ----------------------------------------------------------------------- */
static void *vp_freed_group, *vp_freed_segment; static unsigned vp_freed;
static bool vp_others_empty; static size_t vp_segments;
void vp_by_group_free(passgen_pattern_group *g) { vp_freed_group = g; vp_freed++; passgen_pattern_group zero = {0}; *g = zero; }
void vp_by_segment_free(passgen_pattern_segment *s) { vp_freed_segment = s; vp_freed++; passgen_pattern_segment zero = {0}; *s = zero; }
void vp_by_group_finish(passgen_pattern_group *g) {
    bool empty = vp_others_empty;
    if(g->segments.len == vp_segments) { passgen_pattern_segment *s = LAST(&g->segments); if(s->items.len > 0) empty = false; }
    else vp_assert(g->segments.len + 1 == vp_segments, "at most the last alternative goes");
    if(empty) g->multiplier_sum = 0;
}

/* nothing of this is done for a character that stands for itself, or one that is rejected */
#define UNEXPECTED(r, name, ...) r *vp_no_##name(__VA_ARGS__) { vp_assert(0, "no " #name " here"); vp_assume(0); return NULL; }
UNEXPECTED(passgen_parser_state, state_push_group, passgen_parser *p, passgen_pattern_group *g, passgen_pattern_segment *s)
UNEXPECTED(passgen_parser_state, state_push_set, passgen_parser *p, passgen_pattern_set *g, passgen_pattern_range *s)
UNEXPECTED(passgen_parser_state, state_push_repeat, passgen_parser *p, passgen_pattern_repeat *r)
UNEXPECTED(passgen_parser_state, state_push_multiplier, passgen_parser *p, size_t *m, size_t *s)
UNEXPECTED(passgen_parser_state, state_push_special, passgen_parser *p, passgen_pattern_special *s)
UNEXPECTED(passgen_pattern_segment, group_segment_append, passgen_pattern_group *g)
UNEXPECTED(passgen_pattern_special, segment_new_special, passgen_pattern_segment *s)
UNEXPECTED(passgen_pattern_set, segment_new_set, passgen_pattern_segment *s)
UNEXPECTED(passgen_pattern_group, segment_new_group, passgen_pattern_segment *s)

/* ---- an arbitrary valid state ----------------------------------------------------------------- */
static T_item vp_last0, vp_prev0; static T_item *vp_last, *vp_prev;
static bool vp_literal_plain(T_item *x) { return x->repeat.min == 1 && x->repeat.max == 1 && !x->maybe; }
static bool vp_valid_item(T_item *x, bool last) {
    if(x->repeat.min > x->repeat.max || x->repeat.max - x->repeat.min == SIZE_MAX) return false;
    switch(x->kind) {
        case PASSGEN_PATTERN_LITERAL: {
            passgen_pattern_literal *l = &x->data.literal;
            return l->count >= 1 && l->count <= 7 && (l->tainted ? l->count == 1 : vp_literal_plain(x));
        }
        case PASSGEN_PATTERN_SET: return x->data.set.items.len == 0 || x->data.set.choices_list;
        case PASSGEN_PATTERN_GROUP: return last || x->data.group.multiplier_sum != 0; /* zero: nothing in it */
        case PASSGEN_PATTERN_SPECIAL: return x->data.special.parameters_len >= 0;
        default: return false;
    }
}
static T_item *vp_any_item(bool last) {
    T_item *x = malloc(sizeof(T_item)); T_item any = {0};
    any.maybe = vp_bool(); any.repeat.min = vp_u64(); any.repeat.max = vp_u64();
    any.kind = (enum passgen_pattern_kind) vp_range(0, 3);
    switch(any.kind) { /* stacks inside of it are not touched */
        case PASSGEN_PATTERN_SET: any.data.set.items.len = vp_range(0, 1 << 30); any.data.set.items.element_size = sizeof(T_range); any.data.set.choices_list = vp_bool() ? malloc(8) : NULL; break;
        case PASSGEN_PATTERN_GROUP: any.data.group.segments.len = vp_range(0, 1 << 30); any.data.group.segments.element_size = sizeof(T_segment); any.data.group.multiplier_sum = vp_u64(); break;
        case PASSGEN_PATTERN_SPECIAL: any.data.special.kind = vp_range(0, 2); any.data.special.parameters_len = vp_u32(); any.data.special.parameters_cap = vp_u32(); break;
        default:
            any.data.literal.count = vp_range(1, 7); any.data.literal.tainted = vp_bool();
            for(size_t i = 0; i < 7; i++) any.data.literal.codepoints[i] = vp_u32();
    }
    *x = any;
    vp_assume(vp_valid_item(x, last));
    return x;
}
static bool vp_same_item(T_item *x, T_item *y) {
    if(x->kind != y->kind || x->maybe != y->maybe || x->repeat.min != y->repeat.min || x->repeat.max != y->repeat.max) return false;
    switch(x->kind) {
        case PASSGEN_PATTERN_LITERAL: {
            passgen_pattern_literal *l = &x->data.literal, *m = &y->data.literal;
            for(size_t i = 0; i < 7; i++) if(i < l->count && l->codepoints[i] != m->codepoints[i]) return false;
            return l->count == m->count && l->tainted == m->tainted;
        }
        case PASSGEN_PATTERN_SET: return x->data.set.items.len == y->data.set.items.len && x->data.set.choices_list == y->data.set.choices_list && x->data.set.items.data == y->data.set.items.data;
        case PASSGEN_PATTERN_GROUP: return x->data.group.segments.len == y->data.group.segments.len && x->data.group.multiplier_sum == y->data.group.multiplier_sum && x->data.group.segments.data == y->data.group.segments.data;
        default: return x->data.special.kind == y->data.special.kind && x->data.special.parameters == y->data.special.parameters && x->data.special.parameters_len == y->data.special.parameters_len && x->data.special.parameters_cap == y->data.special.parameters_cap;
    }
}
static passgen_parser vp_parser; static passgen_pattern vp_pattern;
static passgen_pattern_group vp_g; static T_segment *vp_s; static T_state *vp_state, *vp_below;
static size_t vp_depth, vp_items, vp_mult, vp_total, vp_others;
static void vp_any_parser(passgen_parser_state_type type) {
    vp_moves = vp_bool(); vp_freed = 0; vp_freed_group = vp_freed_segment = NULL; vp_ranges = vp_looked_at = NULL;
    vp_parser.limit = vp_u64(); vp_parser.pattern = &vp_pattern;
    vp_depth = vp_range(1, SIZE_MAX / 64);
    vp_state = malloc(sizeof(T_state)); vp_below = malloc(sizeof(T_state));
    vp_below->type = PASSGEN_PARSER_GROUP;
    vp_state->type = type;
    vp_any_stack(&vp_parser.state, sizeof(T_state), vp_depth, vp_state, vp_below);
    /* the innermost open group, its last alternative, and the last items in there */
    vp_segments = vp_range(1, SIZE_MAX / 64);
    vp_s = malloc(sizeof(T_segment));
    T_segment *before = malloc(sizeof(T_segment));
    vp_mult = vp_u64();
    vp_others = vp_u64(); /* weights of the other alternatives, none of which is zero */
    vp_others_empty = vp_bool();
    vp_assume(vp_others >= vp_segments - 1 && vp_mult <= SIZE_MAX - vp_others);
    if(vp_segments == 1) vp_assume(vp_others == 0 && vp_others_empty);
    vp_total = vp_others + vp_mult;
    vp_s->multiplier = vp_mult; vp_g.multiplier_sum = vp_total;
    vp_any_stack(&vp_g.segments, sizeof(T_segment), vp_segments, vp_s, before);
    vp_items = vp_range(0, SIZE_MAX / 64);
    vp_last = vp_any_item(true); vp_prev = vp_any_item(false);
    vp_last0 = *vp_last; vp_prev0 = *vp_prev;
    vp_any_stack(&vp_s->items, sizeof(T_item), vp_items, vp_last, vp_prev);
    if(type == PASSGEN_PARSER_GROUP) { vp_state->data.group.group = &vp_g; vp_state->data.group.segment = vp_s; }
}
static T_item *item_at(size_t back) { return back ? PREV(&vp_s->items) : LAST(&vp_s->items); }
static int vp_step(uint32_t codepoint) {
    passgen_token token; token.codepoint = codepoint;
    bool limited = vp_parser.limit && vp_depth >= vp_parser.limit;
    size_t limit = vp_parser.limit;
    int ret = passgen_parse_token(&vp_parser, &token);
    vp_assert(!limited || ret != 0, "the limit on nested states is kept");
    vp_assume(!limited);
    vp_assert(vp_parser.limit == limit && vp_parser.pattern == &vp_pattern, "the parser's settings stay");
    return ret;
}
static void vp_same_group(void) {
    vp_assert(vp_g.multiplier_sum == vp_total && vp_g.segments.len == vp_segments && LAST(&vp_g.segments) == vp_s && vp_s->multiplier == vp_mult, "alternatives and weights stay");
}
static void vp_same_items(size_t n) { /* the first n items are as before */
    if(n && n == vp_items) {
        T_item *x = vp_s->items.len == n ? item_at(0) : item_at(1);
        vp_assert(vp_same_item(x, &vp_last0), "the last item there was is as before");
    }
    if(n && n + 1 == vp_items) {
        T_item *x = vp_s->items.len == n ? item_at(0) : item_at(1);
        vp_assert(vp_same_item(x, &vp_prev0), "the item before is as before");
    }
}
static bool in(const char *set, uint32_t c) { for(size_t i = 0; set[i]; i++) if((uint8_t) set[i] == c) return true; return false; }
static T_state *top(void) { return LAST(&vp_parser.state); }
static void vp_pushed(void) {
    vp_assert(vp_parser.state.len == vp_depth + 1, "one more state");
    T_state *outer = PREV(&vp_parser.state);
    vp_assert(outer->type == PASSGEN_PARSER_GROUP && outer->data.group.group == &vp_g && outer->data.group.segment == vp_s, "the state of the group is kept");
}
static void vp_stays(void) {
    vp_assert(vp_parser.state.len == vp_depth && top() == vp_state && vp_state->type == PASSGEN_PARSER_GROUP && vp_state->data.group.group == &vp_g, "still in the same group");
}
#define ESC PASSGEN_TOKEN_ESCAPED_BIT
/* the tokens this job looks at: one, escapes that do not stand for themselves, or characters that do */
#ifndef VP_TOKEN
#define VP_TOKEN 0
#endif
#ifndef VP_LITERALS
#define VP_LITERALS 0
#endif
#if !VP_TOKEN && !VP_LITERALS
#define REACH_ESC vp_reach
#else
#define REACH_ESC(msg)
#endif
#if VP_TOKEN >= (1 << 30)
#define REACH_SPECIAL vp_reach
#else
#define REACH_SPECIAL(msg)
#endif
#if VP_LITERALS
#define REACH_LIT vp_reach
#else
#define REACH_LIT(msg)
#endif
#if VP_TOKEN == '|'
#define REACH_BAR vp_reach
#else
#define REACH_BAR(msg)
#endif
#if VP_TOKEN == ')'
#define REACH_CLOSE vp_reach
#else
#define REACH_CLOSE(msg)
#endif
#if VP_TOKEN == '('
#define REACH_OPEN vp_reach
#else
#define REACH_OPEN(msg)
#endif
#if VP_TOKEN == '['
#define REACH_SET vp_reach
#else
#define REACH_SET(msg)
#endif
#if VP_TOKEN == '{'
#define REACH_BRACE vp_reach
#else
#define REACH_BRACE(msg)
#endif
#if VP_TOKEN == '?'
#define REACH_MAYBE vp_reach
#else
#define REACH_MAYBE(msg)
#endif
#if VP_TOKEN == '?' || VP_TOKEN == '{'
#define REACH_MOD vp_reach
#else
#define REACH_MOD(msg)
#endif
void h_group(void) {
    vp_any_parser(PASSGEN_PARSER_GROUP);
#if VP_TOKEN
    uint32_t t = VP_TOKEN, c = t & ~(uint32_t) ESC;
#else
    uint32_t t = vp_u32(), c = t & ~(uint32_t) ESC;
#endif
    bool escaped = t & ESC;
#if VP_TOKEN
#elif VP_LITERALS /* only characters that stand for themselves */
    vp_assume(escaped ? in("|(){}[]?", c) : !in("|()[{?", c));
#else
    vp_assume(escaped && !in("|(){}[]?mpw", c));
#endif
    bool clean = vp_items && vp_last0.kind == PASSGEN_PATTERN_GROUP && vp_last0.data.group.multiplier_sum == 0 && t != '{' && t != '?';
    size_t n = vp_items - clean; /* an empty group goes, unless a modifier follows */
    T_item *end = n == 0 ? NULL : clean ? &vp_prev0 : &vp_last0, e;
    if(end) e = *end;
    size_t count = end && e.kind == PASSGEN_PATTERN_LITERAL ? e.data.literal.count : 0;
    T_segment *s0 = vp_s;
    int ret = vp_step(t);
    vp_assert(!clean || vp_freed_group == &vp_last->data.group || vp_freed >= 1, "an empty group is released");
    if(escaped && !in("|(){}[]?", c)) {
        if(c != 'm' && c != 'p' && c != 'w') { vp_assert(ret != 0, "an unknown escape is rejected"); REACH_ESC("unknown escape"); return; }
        vp_assert(ret == 0, "a special item begins");
        vp_pushed(); vp_same_group(); vp_same_items(n);
        T_item *x = item_at(0);
        vp_assert(vp_s->items.len == n + 1 && x->kind == PASSGEN_PATTERN_SPECIAL && vp_literal_plain(x), "one more item, once");
        vp_assert(x->data.special.kind == (c == 'm' ? PASSGEN_PATTERN_SPECIAL_MARKOV : c == 'p' ? PASSGEN_PATTERN_SPECIAL_PRESET : PASSGEN_PATTERN_SPECIAL_WORDLIST), "of its kind");
        vp_assert(x->data.special.parameters == NULL && x->data.special.parameters_len == 0 && x->data.special.parameters_cap == 0, "without a name yet");
        vp_assert(top()->type == PASSGEN_PARSER_SPECIAL && top()->data.special.special == &x->data.special, "its name follows");
        vp_assert(vp_freed == clean, "nothing else is released");
        REACH_SPECIAL("special");
        return;
    }
    if(!escaped && in("|)([{?", c)) switch(c) {
        case '|': {
            vp_assert((ret == 0) == (vp_total != SIZE_MAX), "another alternative, if its weight fits");
            if(ret) return;
            vp_stays();
            T_segment *s = LAST(&vp_g.segments);
            vp_assert(vp_state->data.group.segment == s && s->multiplier == 1 && s->items.len == 0 && s->items.element_size == sizeof(T_item), "an empty alternative of weight one");
            vp_assert(vp_g.multiplier_sum == vp_total + 1, "its weight counts");
            if(vp_mult) {
                T_segment *o = PREV(&vp_g.segments);
                vp_assert(vp_g.segments.len == vp_segments + 1 && o->multiplier == vp_mult && o->items.len == n, "the alternative before is kept");
                vp_s = o; vp_same_items(n);
                vp_assert(vp_freed == clean, "nothing else is released");
                REACH_BAR("another alternative");
            } else {
                vp_assert(vp_g.segments.len == vp_segments && vp_freed_segment == s, "an alternative of weight zero is dropped");
                REACH_BAR("alternative of weight zero");
            }
            return;
        }
        case ')': {
            vp_assert((ret == 0) == (vp_depth > 1), "closes a group, if one is open");
            if(ret) return;
            vp_assert(vp_parser.state.len == vp_depth - 1 && top() == vp_below, "back to the group around");
            bool drop = vp_mult == 0;
            vp_assert(vp_g.segments.len == vp_segments - drop, "an alternative of weight zero is dropped");
            bool empty = vp_others_empty && (drop || n == 0);
            vp_assert(vp_g.multiplier_sum == (empty ? 0 : vp_total), "weights stay, a group without items is marked");
            if(!drop) { vp_assert(vp_s->items.len == n && vp_s->multiplier == vp_mult, "the alternative is kept"); vp_same_items(n); }
            vp_assert(drop || vp_freed == clean, "nothing else is released");
            vp_assert(!drop || vp_freed_segment == s0, "the dropped one is released");
            REACH_CLOSE("group closed");
            return;
        }
        case '(': {
            vp_assert(ret == 0, "opens a group");
            vp_pushed(); vp_same_group(); vp_same_items(n);
            T_item *x = item_at(0);
            vp_assert(vp_s->items.len == n + 1 && x->kind == PASSGEN_PATTERN_GROUP && vp_literal_plain(x), "one more item, once");
            passgen_pattern_group *g = &x->data.group;
            vp_assert(g->segments.len == 1 && g->multiplier_sum == 1 && g->segments.element_size == sizeof(T_segment), "of one alternative");
            T_segment *s = LAST(&g->segments);
            vp_assert(s->multiplier == 1 && s->items.len == 0 && s->items.element_size == sizeof(T_item), "of weight one, empty");
            vp_assert(top()->type == PASSGEN_PARSER_GROUP && top()->data.group.group == g && top()->data.group.segment == s, "what follows goes there");
            vp_assert(vp_freed == clean, "nothing else is released");
            REACH_OPEN("group opened");
            return;
        }
        case '[': {
            vp_assert(ret == 0, "opens a set");
            vp_pushed(); vp_same_group(); vp_same_items(n);
            T_item *x = item_at(0);
            vp_assert(vp_s->items.len == n + 1 && x->kind == PASSGEN_PATTERN_SET && vp_literal_plain(x), "one more item, once");
            vp_assert(x->data.set.items.len == 0 && x->data.set.items.element_size == sizeof(T_range) && x->data.set.choices_list == NULL, "an empty set");
            vp_assert(top()->type == PASSGEN_PARSER_SET && top()->data.set.set == &x->data.set && top()->data.set.range == NULL, "what follows goes there");
            vp_assert(vp_freed == clean, "nothing else is released");
            REACH_SET("set opened");
            return;
        }
        case '{':
            if(!n) {
                vp_assert(ret == 0, "the weight of the alternative follows");
                vp_pushed();
                vp_assert(vp_g.multiplier_sum == vp_others && vp_s->multiplier == 0 && vp_g.segments.len == vp_segments && vp_s->items.len == 0, "instead of the weight it had");
                vp_assert(top()->type == PASSGEN_PARSER_MULTIPLIER && top()->data.multiplier.value == &vp_s->multiplier && top()->data.multiplier.sum == &vp_g.multiplier_sum, "what follows goes there");
                REACH_BRACE("weight");
                return;
            } /* fall through */
        case '?': {
            if(!n) { vp_assert(ret != 0, "a question mark needs an item"); REACH_MAYBE("nothing to be optional"); return; }
            vp_assert(ret == 0 && !vp_freed, "the last item is modified");
            vp_same_group();
            T_item *x = item_at(0);
            if(c == '?') vp_stays();
            else { vp_pushed(); vp_assert(top()->type == PASSGEN_PARSER_REPEAT && top()->data.repeat.repeat == &x->repeat && x->repeat.min == 0, "how often it is repeated follows"); }
            /* only one character is modified */
            if(count > 1) {
                T_item *o = item_at(1);
                vp_assert(vp_s->items.len == n + 1, "the last character gets its own item");
                vp_assert(o->kind == PASSGEN_PATTERN_LITERAL && o->data.literal.count == count - 1 && vp_literal_plain(o), "the characters before stay together, once");
                for(size_t i = 0; i < 7; i++) vp_assert(i + 1 >= count || o->data.literal.codepoints[i] == e.data.literal.codepoints[i], "unchanged");
                vp_assert(x->kind == PASSGEN_PATTERN_LITERAL && x->data.literal.count == 1 && x->data.literal.tainted && x->data.literal.codepoints[0] == e.data.literal.codepoints[count - 1], "the last one");
                e.repeat.min = e.repeat.max = 1; e.maybe = false;
                REACH_MOD("last character of several");
            } else {
                vp_assert(vp_s->items.len == n && x->kind == e.kind, "the last item");
                if(count) vp_assert(x->data.literal.count == 1 && x->data.literal.tainted && x->data.literal.codepoints[0] == e.data.literal.codepoints[0], "nothing is appended to it any more");
                else { T_item y = *x; y.maybe = e.maybe; y.repeat = e.repeat; vp_assert(vp_same_item(&y, &e), "keeps its contents"); }
                if(n > 1) vp_assert(vp_same_item(item_at(1), &vp_prev0), "the one before is as before");
                REACH_MOD("single item");
            }
            vp_assert(c == '?' ? x->maybe && x->repeat.min == e.repeat.min && x->repeat.max == e.repeat.max : x->maybe == e.maybe, "optional if a question mark follows");
            return;
        }
    }
    /* a literal character */
    vp_assert(ret == 0, "a literal character is accepted");
    vp_stays(); vp_same_group();
    vp_assert(vp_freed == clean, "nothing else is released");
    T_item *x = item_at(0);
    vp_assert(x->kind == PASSGEN_PATTERN_LITERAL && vp_literal_plain(x) && !x->data.literal.tainted, "a literal, once");
    vp_assert((uint32_t) x->data.literal.codepoints[x->data.literal.count - 1] == c, "ends with the character");
    if(count && !e.data.literal.tainted && vp_s->items.len == n) {
        vp_assert(x->data.literal.count == count + 1 && count < 7, "appended");
        for(size_t i = 0; i < 7; i++) vp_assert(i >= count || x->data.literal.codepoints[i] == e.data.literal.codepoints[i], "to the characters there were");
        if(n > 1 && !clean) vp_assert(vp_same_item(item_at(1), &vp_prev0), "the one before is as before");
        REACH_LIT("appended");
    } else {
        vp_assert(vp_s->items.len == n + 1 && x->data.literal.count == 1, "a new item");
        vp_same_items(n);
        REACH_LIT("new item");
    }
}

/* digits of a number, until one of the characters that end it */
static bool vp_digit(uint32_t t, size_t v, size_t *next) {
    return t >= '0' && t <= '9' && !__builtin_mul_overflow(v, (size_t) 10, next) && !__builtin_add_overflow(*next, (size_t) (t - '0'), next);
}
static void vp_popped(void) { vp_assert(vp_parser.state.len == vp_depth - 1 && top() == vp_below && vp_below->type == PASSGEN_PARSER_GROUP, "back to the group around"); }
static void vp_kept(void) { vp_assert(vp_parser.state.len == vp_depth && top() == vp_state, "no state is added or removed"); }
void h_multiplier(void) {
    vp_any_parser(PASSGEN_PARSER_MULTIPLIER); vp_assume(vp_depth > 1 && vp_items == 0);
    size_t v = vp_u64(), next; uint32_t t = vp_u32();
    vp_s->multiplier = v; vp_g.multiplier_sum = vp_others;
    vp_state->data.multiplier.value = &vp_s->multiplier; vp_state->data.multiplier.sum = &vp_g.multiplier_sum;
    int ret = vp_step(t);
    vp_assert(vp_g.segments.len == vp_segments && LAST(&vp_g.segments) == vp_s && vp_s->items.len == 0, "alternatives stay");
    if(t == '}') {
        vp_assert((ret == 0) == (v <= SIZE_MAX - vp_others), "a weight that fits");
        if(ret) return;
        vp_popped();
        vp_assert(vp_s->multiplier == v && vp_g.multiplier_sum == vp_others + v, "is the alternative's and counts in the sum");
        vp_reach("weight complete");
    } else {
        bool ok = vp_digit(t, v, &next);
        vp_assert((ret == 0) == ok, "a digit, if the number fits");
        if(ret) { vp_reach("not a weight"); return; }
        vp_kept();
        vp_assert(vp_state->type == PASSGEN_PARSER_MULTIPLIER && vp_state->data.multiplier.value == &vp_s->multiplier && vp_state->data.multiplier.sum == &vp_g.multiplier_sum, "more digits may follow");
        vp_assert(vp_s->multiplier == next && vp_g.multiplier_sum == vp_others, "read in base ten");
        vp_reach("digit");
    }
}
static void vp_same_around(void) {
    vp_same_group();
    vp_assert(vp_s->items.len == vp_items && item_at(0) == vp_last && vp_last->kind == vp_last0.kind && vp_last->maybe == vp_last0.maybe, "no item is added or removed");
    if(vp_items > 1) vp_assert(vp_same_item(item_at(1), &vp_prev0), "the one before is as before");
    vp_assert(!vp_freed, "nothing is released");
}
#if VP_SECOND
#define REACH_2 vp_reach
#define REACH_1(msg)
#else
#define REACH_1 vp_reach
#define REACH_2(msg)
#endif
void h_repeat(void) {
#ifndef VP_SECOND
#define VP_SECOND 0
#endif
    bool second = VP_SECOND;
    vp_any_parser(second ? PASSGEN_PARSER_REPEAT_RANGE : PASSGEN_PARSER_REPEAT); vp_assume(vp_depth > 1 && vp_items > 0);
    size_t min = vp_u64(), max = second ? vp_u64() : 0, next; uint32_t t = vp_u32();
    vp_last->repeat.min = min; vp_last->repeat.max = max;
    vp_state->data.repeat.repeat = &vp_last->repeat;
    int ret = vp_step(t);
    vp_same_around();
    passgen_pattern_repeat r = vp_last->repeat;
    vp_last->repeat = vp_last0.repeat; vp_assert(vp_same_item(vp_last, &vp_last0), "the item keeps its contents"); vp_last->repeat = r;
    if(t == '}') {
        vp_assert((ret == 0) == (!second || (min <= max && max - min != SIZE_MAX)), "bounds in order, of which there can be chosen");
        if(ret) { REACH_2("bounds out of order"); return; }
        vp_popped();
        vp_assert(r.min == min && r.max == (second ? max : min), "the bounds are those written");
        vp_reach("repetition complete");
    } else if(t == ',' && !second) {
        vp_assert(ret == 0 && r.min == min && r.max == 0, "the upper bound follows");
        vp_kept(); vp_assert(vp_state->type == PASSGEN_PARSER_REPEAT_RANGE && vp_state->data.repeat.repeat == &vp_last->repeat, "the upper bound follows");
        REACH_1("upper bound follows");
    } else {
        bool ok = vp_digit(t, second ? max : min, &next);
        vp_assert((ret == 0) == ok, "a digit, if the number fits");
        if(ret) { vp_reach("not a bound"); return; }
        vp_kept();
        vp_assert(vp_state->type == (second ? PASSGEN_PARSER_REPEAT_RANGE : PASSGEN_PARSER_REPEAT) && vp_state->data.repeat.repeat == &vp_last->repeat, "more digits may follow");
        vp_assert(second ? r.max == next && r.min == min : r.min == next, "read in base ten");
        vp_reach("digit");
    }
}
static passgen_pattern_range *vp_before_range; static size_t vp_n_ranges;
static passgen_pattern_range vp_range0, vp_range1;
static void vp_any_set(bool some) {
    vp_assume(vp_depth > 1 && vp_items > 0 && vp_last0.kind == PASSGEN_PATTERN_SET);
    passgen_pattern_set *set = &vp_last->data.set;
    vp_n_ranges = vp_range(some ? 1 : 0, 1 << 20);
    vp_last_range = malloc(sizeof(T_range)); vp_before_range = malloc(sizeof(T_range));
    vp_assume(vp_last_range->start <= vp_last_range->end && vp_last_range->end < 1 << 24);
    vp_assume(vp_before_range->start <= vp_before_range->end && vp_before_range->end < 1 << 24);
    vp_range0 = *vp_last_range; vp_range1 = *vp_before_range;
    vp_any_stack(&set->items, sizeof(T_range), vp_n_ranges, vp_last_range, vp_before_range);
    set->choices_list = NULL;
    vp_state->data.set.set = set; vp_state->data.set.range = vp_n_ranges ? vp_last_range : NULL;
}
static bool vp_same_range(passgen_pattern_range *a, passgen_pattern_range *b) { return a->start == b->start && a->end == b->end; }
void h_set(void) {
    vp_any_parser(PASSGEN_PARSER_SET); vp_any_set(false);
    uint32_t t = vp_u32(), c = t & ~(uint32_t) ESC; bool escaped = t & ESC;
    vp_assume(t != ']');
    passgen_pattern_set *set = &vp_last->data.set;
    int ret = vp_step(t);
    vp_same_around();
    vp_assert(vp_last->repeat.min == vp_last0.repeat.min && vp_last->repeat.max == vp_last0.repeat.max, "the set's repetition stays");
    if(t == '-' && vp_n_ranges) {
        vp_assert(ret == 0, "the end of the range follows");
        vp_kept();
        vp_assert(vp_state->type == PASSGEN_PARSER_SET_RANGE && vp_state->data.set.set == set && vp_state->data.set.range == vp_last_range && LAST(&set->items) == vp_last_range && set->items.len == vp_n_ranges && vp_same_range(vp_last_range, &vp_range0), "of the range begun last");
        vp_reach("range");
        return;
    }
    if(escaped && c != '-' && c != ']') { vp_assert(ret != 0, "nothing else is escaped in a set"); vp_reach("not escaped in a set"); return; }
    vp_assert(ret == 0, "a character of the set");
    vp_kept();
    T_range *r = LAST(&set->items), *o = PREV(&set->items);
    vp_assert(set->items.len == vp_n_ranges + 1 && r->start == c && r->end == c, "is added");
    vp_assert(vp_n_ranges == 0 || vp_same_range(o, &vp_range0), "to those there were");
    vp_assert(vp_state->type == PASSGEN_PARSER_SET && vp_state->data.set.set == set && vp_state->data.set.range == r, "and may begin a range");
    vp_reach("character");
}
void h_set_range(void) {
    vp_any_parser(PASSGEN_PARSER_SET_RANGE); vp_any_set(true);
    uint32_t t = vp_u32(), c = t & ~(uint32_t) ESC; bool escaped = t & ESC;
    passgen_pattern_set *set = &vp_last->data.set;
    int ret = vp_step(t);
    vp_same_around();
    bool ok = t != ']' && (!escaped || c == '-' || c == ']') && c >= vp_range0.start;
    vp_assert((ret == 0) == ok, "the end of an ascending range");
    if(ret) { vp_reach("not a range"); return; }
    vp_kept();
    vp_assert(LAST(&set->items) == vp_last_range && set->items.len == vp_n_ranges && vp_last_range->start == vp_range0.start && vp_last_range->end == c, "completes the range");
    if(vp_n_ranges > 1) vp_assert(vp_same_range(PREV(&set->items), &vp_range1), "and no other");
    vp_assert(vp_state->type == PASSGEN_PARSER_SET && vp_state->data.set.set == set && vp_state->data.set.range == vp_last_range, "and the set goes on");
    vp_reach("range complete");
}
/* the end of a set: its table of running totals */
void h_set_close(void) {
    vp_any_parser(PASSGEN_PARSER_SET); vp_any_set(false);
    passgen_pattern_set *set = &vp_last->data.set;
    vp_ranges = &set->items; vp_k = vp_u64(); vp_next = vp_sum = vp_at_k = 0;
    int ret = vp_step(']');
    vp_assert(ret == 0, "the set ends");
    vp_popped(); vp_same_around();
    vp_assert(set->items.len == vp_n_ranges, "no range is added or removed");
    vp_assert(vp_n_ranges == 0 || vp_same_range(vp_last_range, &vp_range0), "or changed");
    vp_assert(vp_next == vp_n_ranges && __CPROVER_OBJECT_SIZE(set->choices_list) == vp_n_ranges * sizeof(size_t), "an entry for each range");
    if(vp_k < vp_n_ranges) { vp_assert(set->choices_list[vp_k] == vp_at_k, "the number of characters up to and with this range"); vp_reach("entry"); }
    vp_reach("set complete");
}
void h_special(void) {
    vp_any_parser(PASSGEN_PARSER_SPECIAL); vp_assume(vp_depth > 1 && vp_items > 0 && vp_last0.kind == PASSGEN_PATTERN_SPECIAL);
    vp_state->data.special.special = &vp_last->data.special;
    uint32_t t = vp_u32();
    int ret = vp_step(t);
    vp_same_around(); vp_assert(vp_same_item(vp_last, &vp_last0), "the item stays");
    vp_kept();
    vp_assert((ret == 0) == (t == '{'), "a brace has to follow");
    if(ret) { vp_reach("no brace"); return; }
    vp_assert(vp_state->type == PASSGEN_PARSER_SPECIAL_NAME && vp_state->data.special.special == &vp_last->data.special, "then the name");
    vp_reach("brace");
}
/* pushing a character onto a name is taken by its contract (h_push) */
static uint32_t vp_name_char; static int vp_name_ret; static unsigned vp_name_calls;
int vp_by_special_push(passgen_pattern_special *s, int32_t c) {
    vp_assert(s == &vp_last->data.special, "to the name of this item");
    vp_name_char = c; vp_name_calls++;
    return vp_name_ret;
}
void h_special_name(void) {
    vp_any_parser(PASSGEN_PARSER_SPECIAL_NAME); vp_assume(vp_depth > 1 && vp_items > 0 && vp_last0.kind == PASSGEN_PATTERN_SPECIAL);
    vp_state->data.special.special = &vp_last->data.special;
    uint32_t t = vp_u32();
    vp_name_calls = 0; vp_name_ret = vp_bool() ? 0 : -1;
    int ret = vp_step(t);
    vp_same_around(); vp_assert(vp_same_item(vp_last, &vp_last0), "the item stays");
    if(t == '}') { vp_assert(ret == 0 && vp_name_calls == 0, "the name ends"); vp_popped(); vp_reach("name complete"); return; }
    vp_assert(vp_name_calls == 1 && vp_name_char == (t & ~(uint32_t) ESC) && (ret == 0) == (vp_name_ret == 0), "a character of the name, escaped or not");
    vp_kept();
    vp_assert(vp_state->type == PASSGEN_PARSER_SPECIAL_NAME && vp_state->data.special.special == &vp_last->data.special, "and the name goes on");
    vp_reach("character");
}
/* the end of the text */
void h_finish(void) {
    passgen_parser_state_type type = (passgen_parser_state_type) vp_range(0, PASSGEN_PARSER_SPECIAL_NAME);
    vp_any_parser(type); vp_assume(type == PASSGEN_PARSER_GROUP || vp_depth > 1);
    bool clean = vp_items && vp_last0.kind == PASSGEN_PATTERN_GROUP && vp_last0.data.group.multiplier_sum == 0;
    int ret = passgen_parse_finish(&vp_parser);
    vp_assert((ret == 0) == (vp_depth == 1), "complete if nothing is open");
    if(ret) { vp_reach("incomplete"); return; }
    vp_same_group();
    size_t n = vp_items - clean;
    vp_assert(vp_s->items.len == n && vp_freed == clean, "an empty group goes, nothing else");
    vp_same_items(n);
    vp_reach("complete");
}
void h_init(void) {
    passgen_parser p; passgen_pattern pattern;
    bool own = vp_bool();
    passgen_parser_init(&p, own ? NULL : &pattern);
    vp_assert(p.limit == 0 && p.pattern && (own || p.pattern == &pattern), "no limit, the caller's pattern");
    passgen_pattern_group *g = &p.pattern->group;
    vp_assert(g->segments.len == 1 && g->multiplier_sum == 1 && g->segments.element_size == sizeof(T_segment), "one alternative");
    T_segment *s = LAST(&g->segments);
    vp_assert(s->multiplier == 1 && s->items.len == 0 && s->items.element_size == sizeof(T_item), "of weight one, empty");
    T_state *t = LAST(&p.state);
    vp_assert(p.state.len == 1 && p.state.element_size == sizeof(T_state) && t->type == PASSGEN_PARSER_GROUP && t->data.group.group == g && t->data.group.segment == s, "what follows goes there");
    passgen_pattern *q = p.pattern;
    vp_assert(passgen_parser_free(&p) == q, "the pattern is given back");
    vp_assert(p.state.data == NULL && p.state.len == 0 && p.pattern == NULL && p.limit == 0, "a released parser is wiped");
    vp_reach("init");
}

/* ---- loops over all elements, and releasing (C08, C23) ------------------------------------------------- */
static bool vp_segments_looked_at; static unsigned vp_stack_frees;
static void *vp_look(size_t n) {
    vp_looked_n = n;
    if(!vp_segments_looked_at) return &vp_some_item;
    vp_some_segment.items.len = vp_u64();
    vp_assume(!vp_all_empty || vp_some_segment.items.len == 0);
    vp_assume(n != vp_k || (vp_some_segment.items.len == 0) == vp_k_empty);
    return &vp_some_segment;
}
void h_group_finish(void) {
    passgen_pattern_group g; size_t sum = vp_u64();
    g.multiplier_sum = sum; g.segments.len = vp_u64();
    vp_looked_at = &g.segments; vp_ranges = NULL; vp_segments_looked_at = true;
    vp_k = vp_u64(); vp_all_empty = vp_bool(); vp_k_empty = vp_bool();
    vp_assume(vp_k < g.segments.len && (!vp_all_empty || vp_k_empty));
    size_t n = g.segments.len;
    passgen_pattern_group_finish(&g);
    vp_assert(g.segments.len == n, "alternatives stay");
    if(!vp_k_empty) { vp_assert(g.multiplier_sum == sum, "a group with an item in any alternative keeps its weight"); vp_reach("some item"); }
    if(vp_all_empty) { vp_assert(g.multiplier_sum == 0, "a group without any item is marked"); vp_reach("no item"); }
}
void vp_by_item_free(passgen_pattern_item *x) {
    vp_assert(x == &vp_some_item, "an item of the alternative");
    vp_calls++; if(vp_looked_n == vp_k) vp_frees++;
}
void vp_by_each_segment_free(passgen_pattern_segment *s) {
    vp_assert(s == &vp_some_segment, "an alternative of the group");
    vp_calls++; if(vp_looked_n == vp_k) vp_frees++;
}
static void vp_begin_free(passgen_stack *s, bool segments) {
    s->len = vp_u64(); s->data = malloc(2 * sizeof(void *));
    vp_looked_at = s; vp_ranges = NULL; vp_segments_looked_at = segments; vp_all_empty = vp_k_empty = false;
    vp_k = vp_u64(); vp_calls = 0; vp_frees = 0;
}
static bool vp_zero_stack(passgen_stack *s) { return s->data == NULL && s->len == 0 && s->element_size == 0 && s->bin_size == 0; }
void h_segment_free(void) {
    passgen_pattern_segment s; s.multiplier = vp_u64();
    vp_begin_free(&s.items, false);
    size_t n = s.items.len;
    passgen_pattern_segment_free(&s);
    vp_assert(vp_calls == n && vp_frees == (vp_k < n), "every item is released, once");
    vp_assert(vp_zero_stack(&s.items) && s.multiplier == 0, "a released alternative is wiped");
    vp_reach("alternative released");
}
void h_group_free(void) {
    passgen_pattern_group g; g.multiplier_sum = vp_u64();
    vp_begin_free(&g.segments, true);
    size_t n = g.segments.len;
    passgen_pattern_group_free(&g);
    vp_assert(vp_calls == n && vp_frees == (vp_k < n), "every alternative is released, once");
    vp_assert(vp_zero_stack(&g.segments) && g.multiplier_sum == 0, "a released group is wiped");
    vp_reach("group released");
}
void h_item_free(void) {
    passgen_pattern_item x = {0};
    x.repeat.min = vp_u64(); x.repeat.max = vp_u64(); x.maybe = vp_bool();
    x.kind = (enum passgen_pattern_kind) vp_range(0, 3);
    vp_freed = 0; vp_given = 0; void *memory = NULL;
    switch(x.kind) {
        case PASSGEN_PATTERN_SET: x.data.set.choices_list = memory = malloc(8); x.data.set.items.len = vp_u64(); x.data.set.items.data = malloc(8); break;
        case PASSGEN_PATTERN_GROUP: x.data.group.multiplier_sum = vp_u64(); x.data.group.segments.len = vp_u64(); x.data.group.segments.data = malloc(8); break;
        case PASSGEN_PATTERN_SPECIAL: x.data.special.kind = vp_range(0, 2); x.data.special.parameters = memory = malloc(16); x.data.special.parameters_len = vp_u32(); x.data.special.parameters_cap = vp_u32(); break;
        default:
            x.data.literal.count = vp_range(1, 7); x.data.literal.tainted = vp_bool();
            for(size_t i = 0; i < 7; i++) x.data.literal.codepoints[i] = vp_u32();
    }
    enum passgen_pattern_kind kind = x.kind;
    passgen_pattern_item_free(&x);
    vp_assert(vp_given == (memory != NULL) && (!memory || vp_given_back == memory), "the memory it owns is given back");
    vp_assert(vp_freed == (kind == PASSGEN_PATTERN_GROUP), "a group inside is released");
    for(size_t i = 0; i < sizeof(x); i++) vp_assert(((uint8_t *) &x)[i] == 0, "a released item is wiped");
    vp_reach("item released");
}
void h_pattern_free(void) {
    passgen_pattern p; p.group.multiplier_sum = vp_u64(); vp_freed = 0;
    passgen_pattern_free(&p);
    vp_assert(vp_freed == 1 && vp_freed_group == &p.group, "its group is released");
    for(size_t i = 0; i < sizeof(p); i++) vp_assert(((uint8_t *) &p)[i] == 0, "a released pattern is wiped");
    passgen_pattern_init(&p);
    vp_assert(p.group.segments.len == 0 && p.group.segments.element_size == sizeof(T_segment) && p.group.multiplier_sum == 0, "a new pattern is empty");
    vp_reach("pattern released");
}

int vp_token_parse(passgen_token_parser *tp, passgen_token *token, uint8_t width, uint32_t codepoint) {
    vp_assert(!vp_pending && !vp_error && (int) tp->state == vp_tstate, "in turns");
    vp_assert(codepoint == vp_buf[vp_fed], "every character, in order");
    vp_fed++;
    int ret = (int) vp_u32();
    if(ret < 0) { vp_error = true; return ret; }
    vp_tstate = ret; tp->state = (enum passgen_token_state) ret; vp_pending = ret == PASSGEN_TOKEN_INIT;
    token->codepoint = vp_u32();
    return ret;
}
int vp_by_parse_token(passgen_parser *parser, passgen_token *token) {
    vp_assert(parser == &vp_parser && vp_pending, "every token, once");
    vp_pending = false;
    int ret = vp_bool() ? 0 : (int) vp_u32();
    if(ret) vp_error = true;
    return ret;
}
void h_unicode(void) {
    size_t n = vp_range(0, 1 << 20);
    vp_buf = malloc(n * sizeof(uint32_t)); vp_fed = 0; vp_pending = vp_error = false; vp_tstate = 0;
    int ret = passgen_parser_unicode(&vp_parser, vp_buf, n);
    vp_assert((ret == 0) == (!vp_error && vp_fed == n && vp_tstate == 0), "accepted if every token is, and the last one is complete");
    vp_assert(ret != 0 || !vp_pending, "every token is given to the parser");
    if(ret) vp_reach("rejected"); else vp_reach("accepted");
}
#endif
