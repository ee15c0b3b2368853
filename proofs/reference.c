/* Patterns from end to end, natively only (never counted as proved): random
 * pattern texts are parsed and generated from by the library and by a second,
 * independent implementation of the documented syntax that draws from an equal
 * source. Used to find a failing input once a proof obligation has failed. */
#include "vp.h"
#include <math.h>
#include "passgen/passgen.h"
#include "passgen/generate.h"
#include "passgen/random.h"
#include "passgen/pattern/env.h"
#include "passgen/pattern/group.h"
#include "passgen/pattern/segment.h"
#include "passgen/pattern/segment_item.h"
#include "passgen/pattern/range.h"
#include "passgen/parser/parser.h"
#include "passgen/wordlist.h"

#ifndef VP_PROOF
#define ESC ((uint32_t) 1 << 30)
/* ---- text ---------------------------------------------------------------------------------- */
static uint32_t text[1500]; static size_t text_len;
static void put(uint32_t c) { if(text_len < 1400) text[text_len++] = c; }
static void puts_(const char *s) { while(*s) put((uint8_t) *s++); }
static uint32_t any_char(void) {
    static const uint32_t tricky[] = {'-', ',', '}', ']', '0', '9', '/', ':', 0x7f, 0x80, 0xff, 0x100, 0x128, 0x129, 0x12d, 0x13f, 0x15b, 0x15c, 0x15d, 0x17b, 0x17c, 0x17d,
        0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10028, 0x1007c, 0x10ffff, '"', '\n', 1, 0x1f, 0x20, 0x7e, 0x2028, ' ', 'm', 'w', 'p', 'u'};
    switch(vp_range(0, 7)) {
        case 0: { uint32_t c = vp_range(1, 0x10ffff); return c >= 0xd800 && c <= 0xdfff ? 'x' : c; }
        case 1: return tricky[vp_range(0, sizeof(tricky) / sizeof(*tricky) - 1)];
        case 2: { static const uint8_t low[] = "|()[]{}?\\-,"; uint32_t c = low[vp_range(0, 10)] + 256 * vp_range(1, 0x10fe); return c >= 0xd800 && c <= 0xdfff ? 'y' : c; }
        default: return 'a' + vp_range(0, 25);
    }
}
static void put_char(uint32_t c) {
    if(strchr("|()[]{}?", c < 128 ? (int) c : 'a') && vp_range(0, 19)) put('\\');
    if(c == '\\') put('\\');
    put(c);
}
static void put_number(uint64_t n) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long) n); puts_(b); }
static uint64_t small(void) {
    switch(vp_range(0, 15)) { case 0: return vp_u64(); case 1: return UINT64_MAX - vp_range(0, 9); case 2: return UINT64_MAX / 10 + vp_range(0, 3); case 3: return vp_range(0, 40); default: return vp_range(0, 4); }
}
static void any_group(int depth);
static void any_item(int depth) {
    switch(vp_range(0, 19)) {
        case 0: case 1: case 2: if(depth > 0) { put('('); any_group(depth - 1); put(')'); break; } /* fall through */
        case 3: case 4: case 5: {
            put('[');
            size_t n = vp_range(0, 5);
            for(size_t i = 0; i < n; i++) {
                uint32_t c = any_char();
                switch(vp_range(0, 9)) {
                    case 0: puts_("\\-"); break;
                    case 1: puts_("\\]"); break;
                    case 2: put('-'); break;
                    case 3: case 4: case 5: {
                        uint32_t d = vp_range(0, 3) ? c + vp_range(0, 40) : any_char();
                        if(c == '\\' || c == ']' || (c >= 0xd800 && c <= 0xdfff)) c = 'c';
                        if(d == '\\' || d == ']' || d > 0x10ffff || (d >= 0xd800 && d <= 0xdfff)) d = c;
                        if(c == '-') put('\\');
                        put(c); put('-');
                        if(d == '-') put('\\');
                        put(d);
                        break; }
                    default: if(c == ']' || c == '\\') put('\\'); put(c);
                }
            }
            put(']');
            break; }
        case 6: {
            put('\\'); put("wwwp"[vp_range(0, 3)]); put('{');
            switch(vp_range(0, 5)) { case 0: break; case 1: puts_("unknown"); break; case 2: { size_t n = vp_range(1, 60); while(n--) put(any_char()); break; } case 3: puts_("a-long-name-of-more-than-sixteen-bytes"); break; default: puts_("list"); }
            put('}');
            break; }
        case 7: { char b[20]; snprintf(b, sizeof b, vp_bool() ? "\\u{%x}" : "\\u{%06X}", (unsigned) (vp_range(0, 3) ? any_char() : vp_range(0, 0x1000000))); puts_(b); break; }
        case 8: put('\\'); put(vp_range(0, 3) ? "abefnrtv\\"[vp_range(0, 8)] : any_char()); break;
        case 9: if(vp_range(0, 3) == 0) { size_t n = vp_range(6, 20); while(n--) put('a' + vp_range(0, 25)); break; } /* fall through */
        default: put_char(any_char());
    }
    if(vp_range(0, 4) == 0) put('?');
    if(vp_range(0, 4) == 0) {
        put('{');
        if(vp_range(0, 9)) put_number(small());
        if(vp_bool()) { put(','); if(vp_range(0, 9)) put_number(small()); }
        put('}');
    }
    if(vp_range(0, 9) == 0) put('?');
}
static void any_group(int depth) {
    size_t n = vp_range(1, 3);
    for(size_t s = 0; s < n; s++) {
        if(s) put('|');
        while(vp_range(0, 3) == 0) { put('{'); put_number(small()); put('}'); }
        size_t items = vp_range(0, 3);
        while(items--) any_item(depth);
    }
}
static void any_text(void) {
    text_len = 0;
    any_group(vp_range(0, 5));
    if(vp_range(0, 15) == 0) for(size_t i = 300; i--;) put('a' + i % 26);
    if(vp_range(0, 3) == 0) { /* disturb it */
        static const char noise[] = "|()[]{}?\\-,0u";
        size_t n = vp_range(1, 3);
        while(n-- && text_len) {
            size_t at = vp_range(0, text_len - 1);
            switch(vp_range(0, 2)) {
                case 0: text[at] = noise[vp_range(0, 12)]; break;
                case 1: memmove(text + at, text + at + 1, (text_len - at - 1) * sizeof(*text)); text_len--; break;
                default: memmove(text + at + 1, text + at, (text_len - at) * sizeof(*text)); text[at] = noise[vp_range(0, 12)]; text_len++;
            }
        }
    }
}
/* ---- reference parser: a tree of nodes -------------------------------------------------------- */
enum kind { CHAR, SET, WORD, PRESET, GROUP };
struct node { enum kind kind; uint32_t c; uint32_t lo[60], hi[60]; size_t ranges; bool no_name, known; size_t first, segments; bool maybe; uint64_t min, max; size_t next; bool empty; };
struct segment { uint64_t weight; size_t first, last; size_t next; };
static struct node nodes[1600]; static size_t n_nodes; static struct segment segs[1600]; static size_t n_segs;
static uint32_t toks[1500]; static size_t n_toks, at; static bool bad;
static void tokenize(void) {
    n_toks = 0; bad = false;
    for(size_t i = 0; i < text_len && !bad; i++) {
        uint32_t c = text[i];
        if(c != '\\') { toks[n_toks++] = c; continue; }
        if(++i == text_len) { bad = true; break; }
        c = text[i];
        static const char from[] = "abefnrtv\\", to[] = "\a\b\033\f\n\r\t\v\\";
        const char *p = c < 128 && c ? strchr(from, (int) c) : NULL;
        if(p) { toks[n_toks++] = to[p - from]; continue; }
        if(c != 'u') { toks[n_toks++] = c | ESC; continue; }
        if(++i == text_len || text[i] != '{') { bad = true; break; }
        uint32_t v = 0; unsigned digits = 0;
        for(i++; i < text_len && text[i] != '}'; i++) {
            uint32_t h = text[i];
            int d = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1;
            if(d < 0 || ++digits > 6) { bad = true; break; }
            v = v * 16 + d;
        }
        if(i == text_len) bad = true;
        if(!bad) toks[n_toks++] = v;
    }
}
static bool scalar(uint32_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff); }
static bool number(uint64_t *v) { /* digits, possibly none, at face value */
    *v = 0;
    for(; at < n_toks && toks[at] >= '0' && toks[at] <= '9'; at++) if(__builtin_mul_overflow(*v, (uint64_t) 10, v) || __builtin_add_overflow(*v, (uint64_t) (toks[at] - '0'), v)) return false;
    return true;
}
static bool take(uint32_t c) { if(at < n_toks && toks[at] == c) { at++; return true; } return false; }
static int depth_needed(size_t node);
/* reads alternatives up to the closing parenthesis or the end; returns a group node */
static size_t parse_group(bool top) {
    size_t g = n_nodes++; struct node *n = &nodes[g];
    memset(n, 0, sizeof *n); n->kind = GROUP; n->min = n->max = 1; n->first = n->segments = SIZE_MAX;
    size_t last_seg = SIZE_MAX;
    uint64_t sum = 0;
    for(;;) {
        /* one alternative */
        size_t s = n_segs++; segs[s] = (struct segment) {1, SIZE_MAX, SIZE_MAX, SIZE_MAX};
        size_t last = SIZE_MAX; bool last_is_empty_group = false, any = false;
        if(__builtin_add_overflow(sum, (uint64_t) 1, &sum)) { bad = true; return g; }
        while(at < n_toks && toks[at] != '|' && toks[at] != ')') {
            uint32_t t = toks[at];
            if((t == '{' || t == '?') && (any || last_is_empty_group)) {
                struct node *x = last_is_empty_group ? NULL : &nodes[last];
                at++;
                if(t == '?') { if(x) x->maybe = true; continue; }
                uint64_t min, max;
                if(!number(&min)) { bad = true; return g; }
                max = min;
                if(take(',')) if(!number(&max)) { bad = true; return g; }
                if(!take('}') || max < min || max - min == UINT64_MAX) { bad = true; return g; }
                if(x) x->min = min, x->max = max;
                continue;
            }
            last_is_empty_group = false;
            if(t == '?') { bad = true; return g; }
            at++;
            if(t == '{') {
                uint64_t w;
                sum -= segs[s].weight;
                if(!number(&w) || !take('}') || __builtin_add_overflow(sum, w, &sum)) { bad = true; return g; }
                segs[s].weight = w;
                continue;
            }
            size_t x;
            if(t == '(') {
                x = parse_group(false);
                if(bad) return g;
                if(nodes[x].empty) { last_is_empty_group = true; continue; }
            } else {
                x = n_nodes++;
                memset(&nodes[x], 0, sizeof nodes[x]); nodes[x].min = nodes[x].max = 1; nodes[x].next = SIZE_MAX;
                if(t == '[') {
                    struct node *y = &nodes[x];
                    y->kind = SET;
                    while(!take(']')) {
                        if(at == n_toks) { bad = true; return g; }
                        uint32_t c = toks[at++];
                        bool range = false;
                        if(c == '-' && y->ranges) {
                            range = true;
                            if(at == n_toks || toks[at] == ']') { bad = true; return g; }
                            c = toks[at++];
                        }
                        if(c & ESC) { c &= ~ESC; if(c != '-' && c != ']') { bad = true; return g; } }
                        if(range) { if(c < y->lo[y->ranges - 1]) { bad = true; return g; } y->hi[y->ranges - 1] = c; }
                        else { if(y->ranges == 60) { vp_assume(0); } y->lo[y->ranges] = y->hi[y->ranges] = c; y->ranges++; }
                    }
                } else if(t == ('w' | ESC) || t == ('p' | ESC) || t == ('m' | ESC)) {
                    char name[4096]; size_t len = 0;
                    nodes[x].kind = t == ('p' | ESC) ? PRESET : WORD;
                    if(t == ('m' | ESC)) nodes[x].no_name = true, vp_assume(0);
                    if(!take('{')) { bad = true; return g; }
                    while(!take('}')) {
                        if(at == n_toks) { bad = true; return g; }
                        uint32_t c = toks[at++] & ~ESC;
                        if(!scalar(c)) { bad = true; return g; }
                        name[len++] = c < 128 ? c : '?';
                    }
                    name[len] = 0;
                    nodes[x].no_name = len == 0; nodes[x].known = !strcmp(name, "list");
                } else {
                    if(t & ESC) { t &= ~ESC; if(t > 127 || !t || !strchr("|(){}[]?", (int) t)) { bad = true; return g; } }
                    nodes[x].kind = CHAR; nodes[x].c = t;
                }
            }
            nodes[x].next = SIZE_MAX;
            if(segs[s].first == SIZE_MAX) segs[s].first = x; else nodes[last].next = x;
            last = x; any = true;
        }
        if(last_seg == SIZE_MAX) nodes[g].segments = s; else segs[last_seg].next = s;
        last_seg = s;
        if(at == n_toks) { if(!top) bad = true; break; }
        if(toks[at++] == ')') { if(top) bad = true; break; }
    }
    if(!bad) {
        nodes[g].empty = true;
        for(size_t s = nodes[g].segments; s != SIZE_MAX; s = segs[s].next) if(segs[s].weight && segs[s].first != SIZE_MAX) nodes[g].empty = false;
    }
    return g;
}
/* ---- reference generation ------------------------------------------------------------------------ */
#define CAP 600
static uint32_t want[CAP], got[CAP]; static size_t n_want, n_got; static double want_entropy; static long fuel;
static passgen_random *rnd;
static const char *words[] = {"one", "zwei", "tr\xc3\xa8s", "\xf0\x9f\x98\x80", "five5"};
static size_t limit; /* after so many code points the emit callback fails */
static bool emit_want(uint32_t c) { if(n_want == limit) return false; if(n_want == CAP) vp_assume(0); want[n_want++] = c; return true; }
static bool gen_group(size_t g, size_t depth) {
    if(depth == 0) return false;
    uint64_t sum = 0;
    for(size_t s = nodes[g].segments; s != SIZE_MAX; s = segs[s].next) sum += segs[s].weight;
    if(sum == 0) return false;
    uint64_t r = passgen_random_u64_max(rnd, sum);
    size_t s = nodes[g].segments;
    while(r >= segs[s].weight) { r -= segs[s].weight; s = segs[s].next; }
    want_entropy *= (double) sum / (double) segs[s].weight;
    for(size_t x = segs[s].first; x != SIZE_MAX; x = nodes[x].next) {
        struct node *n = &nodes[x];
        if(n->maybe) { want_entropy *= 2; if(!passgen_random_bool(rnd)) continue; }
        uint64_t reps = n->min;
        if(n->max != n->min) { reps += passgen_random_u64_max(rnd, n->max - n->min + 1); want_entropy *= (double) (n->max - n->min + 1); }
        for(uint64_t i = 0; i < reps; i++) {
            if(--fuel < 0) vp_assume(0);
            switch(n->kind) {
                case CHAR: if(!emit_want(n->c)) return false; break;
                case SET: {
                    uint64_t total = 0;
                    for(size_t k = 0; k < n->ranges; k++) total += (uint64_t) n->hi[k] - n->lo[k] + 1;
                    if(!total) break;
                    uint64_t d = passgen_random_u64_max(rnd, total);
                    want_entropy *= (double) total;
                    size_t k = 0;
                    while(d > (uint64_t) n->hi[k] - n->lo[k]) d -= (uint64_t) n->hi[k] - n->lo[k] + 1, k++;
                    if(!emit_want(n->lo[k] + d)) return false;
                    break; }
                case WORD: {
                    if(!n->known) return false;
                    uint64_t d = passgen_random_u64_max(rnd, 5);
                    static const uint32_t w[5][6] = {{'o', 'n', 'e'}, {'z', 'w', 'e', 'i'}, {'t', 'r', 0xe8, 's'}, {0x1f600}, {'f', 'i', 'v', 'e', '5'}};
                    for(int k = 0; w[d][k]; k++) if(!emit_want(w[d][k])) return false;
                    want_entropy *= 5;
                    break; }
                case PRESET: break;
                case GROUP: if(!gen_group(x, depth - 1)) return false; break;
            }
        }
    }
    return true;
}
static int collect(void *data, uint32_t c) { if(data != got) return 77; if(n_got == limit) return -5; got[n_got++] = c; return 0; }
static size_t encode(const uint32_t *t, size_t n, uint8_t *out) {
    size_t o = 0;
    for(size_t i = 0; i < n; i++) {
        uint32_t c = t[i];
        if(!scalar(c)) return SIZE_MAX;
        if(c < 0x80) out[o++] = c;
        else if(c < 0x800) { out[o++] = 0xc0 | c >> 6; out[o++] = 0x80 | (c & 63); }
        else if(c < 0x10000) { out[o++] = 0xe0 | c >> 12; out[o++] = 0x80 | (c >> 6 & 63); out[o++] = 0x80 | (c & 63); }
        else { out[o++] = 0xf0 | c >> 18; out[o++] = 0x80 | (c >> 12 & 63); out[o++] = 0x80 | (c >> 6 & 63); out[o++] = 0x80 | (c & 63); }
    }
    return o;
}
/* ---- a sound pattern (C08) ------------------------------------------------------------------------- */
static void sound_group(passgen_pattern_group *g) {
    uint64_t sum = 0;
    for(size_t i = 0; i < g->segments.len; i++) {
        passgen_pattern_segment *s = passgen_pattern_group_segment_get(g, i);
        vp_assert(!__builtin_add_overflow(sum, (uint64_t) s->multiplier, &sum), "weights fit in sum");
        for(size_t k = 0; k < s->items.len; k++) {
            passgen_pattern_item *x = passgen_pattern_segment_get_item(s, k);
            vp_assert(x->repeat.min <= x->repeat.max && x->repeat.max - x->repeat.min != SIZE_MAX, "repetition bounds are in order");
            switch(x->kind) {
                case PASSGEN_PATTERN_LITERAL: vp_assert(x->data.literal.count >= 1 && x->data.literal.count <= 7, "a literal of one to seven characters"); break;
                case PASSGEN_PATTERN_SET: {
                    size_t total = 0;
                    for(size_t r = 0; r < x->data.set.items.len; r++) {
                        passgen_pattern_range *y = passgen_stack_get(&x->data.set.items, r);
                        vp_assert(y->start <= y->end, "an ascending range");
                        total += (size_t) y->end - y->start + 1;
                        vp_assert(x->data.set.choices_list[r] == total, "running totals of the ranges");
                    }
                    break; }
                case PASSGEN_PATTERN_GROUP: sound_group(&x->data.group); break;
                case PASSGEN_PATTERN_SPECIAL: break;
                default: vp_assert(0, "an item of a known kind");
            }
        }
    }
    vp_assert(g->multiplier_sum == sum, "the group's weight is the sum of its alternatives'");
}
static void show(const char *what) {
    static int quiet = -1;
    if(quiet < 0) quiet = getenv("VP_SHOW") == NULL;
    if(quiet) return;
    uint8_t b[8000]; size_t n = encode(text, text_len, b);
    if(n != SIZE_MAX) printf("%s: %.*s\n", what, (int) n, b);
}
void h_reference(void) {
    any_text();
    for(size_t i = 0; i < text_len; i++) if(!text[i]) text[i] = 'z';
    n_nodes = n_segs = at = 0;
    tokenize();
    size_t top = 0;
    if(!bad) top = parse_group(true);
    uint8_t bytes[6000]; size_t n_bytes = encode(text, text_len, bytes);
    vp_assume(n_bytes != SIZE_MAX);
    bool cut = vp_range(0, 49) == 0 && n_bytes;
    if(cut) { /* not UTF-8 any more */
        static const uint8_t ill[] = {0xff, 0xc0, 0xff, 0xed, 0xf5, 0xc3};
        bytes[n_bytes - 1] = ill[vp_range(0, 5)];
        bad = true;
    }
    char *string = malloc(n_bytes + 1);
    memcpy(string, bytes, n_bytes); string[n_bytes] = 0;
    show(bad ? "bad" : "good");
    passgen_pattern pattern; passgen_error error;
    int ret = passgen_parse(&pattern, &error, string);
    free(string);
    vp_assert((ret == 0) == !bad, "accepted exactly if it is a pattern");
    if(ret) { passgen_pattern_free(&pattern); return; }
    sound_group(&pattern.group);

    char desc[40]; snprintf(desc, sizeof desc, "xorshift:%llu", (unsigned long long) vp_range(1, UINT64_MAX));
    static passgen_random a, b;
    vp_assume(passgen_random_open(&a, desc) && passgen_random_open(&b, desc));
    passgen_env env; passgen_env_init(&env, &a);
    env.depth_limit = vp_range(0, 3) ? 100 : vp_range(0, 6);
    static char lists[] = "one\nzwei\n\ntr\xc3\xa8s\n\xf0\x9f\x98\x80\nfive5";
    passgen_env_wordlist_add(&env, strdup("list"), fmemopen(lists, sizeof lists - 1, "r"), 2);
    if(vp_bool()) passgen_env_wordlist_add(&env, strdup("other"), fmemopen("x\ny\n", 4, "r"), 2);

    rnd = &b; n_want = n_got = 0; want_entropy = 1; fuel = 20000;
    int mode = vp_range(0, 3);
    limit = mode ? SIZE_MAX : vp_range(0, 3) ? CAP : vp_range(0, 20);
    bool ok = gen_group(top, env.depth_limit);
    double entropy = -1; bool ask = vp_range(0, 3);
    if(mode == 0) {
        ret = passgen_generate(&pattern, &env, ask ? &entropy : NULL, got, collect);
        vp_assert((ret == 0) == ok, "generation fails exactly if it has to");
        vp_assert(!ok || (n_got == n_want && !memcmp(got, want, n_want * sizeof *want)), "the code points that the draws select");
    } else {
        uint8_t out8[CAP * 4 + 8]; size_t need = mode == 1 ? n_want : encode(want, n_want, out8);
        size_t room = !ok || need == SIZE_MAX || mode == 3 ? CAP * 6 : vp_bool() ? need : vp_range(0, need + 5);
        size_t n = 0;
        if(mode == 1) {
            uint32_t *o = malloc(room * sizeof *o);
            n = passgen_generate_fill_unicode(&pattern, &env, ask ? &entropy : NULL, o, room);
            ok = ok && n_want <= room;
            vp_assert(n == (ok ? n_want : 0), "number of code points, or zero on failure");
            vp_assert(!ok || !memcmp(o, want, n * sizeof *o), "the code points that the draws select");
            free(o);
        } else if(mode == 2) {
            uint8_t *o = malloc(room);
            n = passgen_generate_fill_utf8(&pattern, &env, ask ? &entropy : NULL, o, room);
            ok = ok && need <= room;
            vp_assert(n == (ok ? need : 0), "number of bytes, or zero on failure");
            vp_assert(!ok || !memcmp(o, out8, n), "the encoding of the code points that the draws select");
            free(o);
        } else {
            uint8_t *o = malloc(room);
            n = passgen_generate_fill_json_utf8(&pattern, &env, ask ? &entropy : NULL, o, room);
            ok = ok && need != SIZE_MAX;
            vp_assert((n != 0) == (ok && n_want), "something is written exactly if it can be");
            size_t i = 0, k = 0;
            while(i < n) { /* a JSON reader */
                uint32_t c;
                if(o[i] == '\\') {
                    i++;
                    const char *e = "\"\\/bfnrt", *v = "\"\\/\b\f\n\r\t", *p = strchr(e, o[i]);
                    if(p && o[i]) c = v[p - e], i++;
                    else { unsigned h; vp_assert(o[i] == 'u' && i + 5 <= n, "a known escape"); char x[5] = {o[i + 1], o[i + 2], o[i + 3], o[i + 4], 0}; vp_assert(sscanf(x, "%4x", &h) == 1, "hexadecimal digits"); c = h; i += 5; }
                } else {
                    vp_assert(o[i] >= 0x20 && o[i] != '"', "nothing that has to be escaped");
                    unsigned w = o[i] < 0x80 ? 1 : o[i] < 0xe0 ? 2 : o[i] < 0xf0 ? 3 : 4; uint8_t e[4];
                    c = w == 1 ? o[i] : w == 2 ? (o[i] & 31) << 6 | (o[i + 1] & 63) : w == 3 ? (o[i] & 15) << 12 | (o[i + 1] & 63) << 6 | (o[i + 2] & 63) : (o[i] & 7) << 18 | (o[i + 1] & 63) << 12 | (o[i + 2] & 63) << 6 | (o[i + 3] & 63);
                    vp_assert(scalar(c) && encode(&c, 1, e) == w && !memcmp(e, o + i, w), "well-formed UTF-8");
                    i += w;
                }
                vp_assert(k < n_want && c == want[k], "the reader gets the code points back"); k++;
            }
            vp_assert(!n || k == n_want, "all of them");
            free(o);
        }
        ret = !ok;
    }
    if(ok && ask) vp_assert(fabs(entropy - want_entropy) <= want_entropy * 1e-9 || entropy == want_entropy, "the entropy is the product of the choices");
    if(!ask) vp_assert(entropy == -1, "no entropy asked for");
    env.random = NULL;
    passgen_env_free(&env);
    passgen_pattern_free(&pattern);
    static const passgen_pattern zero; /* C23 */
    vp_assert(!memcmp(&pattern, &zero, sizeof zero), "a released pattern is wiped");
    passgen_random_close(&a); passgen_random_close(&b);
    vp_reach("reference");
}
#endif
