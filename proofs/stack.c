/* The stack, any length: one operation on an arbitrary valid stack. One
 * arbitrary element vp_k is followed; of the bins only those that hold it and the
 * last element are given. The allocation functions and memcpy are taken by
 * their contracts. Contents: elements are never read or written by the stack
 * itself; vp_at is where the contents of element vp_k are (memory given back or
 * not carried over by a reallocation loses them). */
#include "vp.h"
static size_t vp_k, vp_es;
#ifdef VP_PROOF
static uint8_t *vp_at; static bool vp_lost;
static const void *vp_from; static void *vp_to; static size_t vp_amount; static unsigned vp_copies;
#ifndef VP_POW
#define VP_POW 40
#endif
#define VP_MAXLEN ((size_t) 1 << (VP_POW - 4))
static void **vp_data; static size_t vp_kb, vp_lb; /* the bin array, and the bins that are given */
static void *vp_realloc(void *old, size_t n) {
    if(!old) return malloc(n);
    vp_assert(__CPROVER_DYNAMIC_OBJECT(old) && __CPROVER_POINTER_OFFSET(old) == 0, "realloc of an allocated object");
    size_t m = __CPROVER_OBJECT_SIZE(old);
    void *r = malloc(n);
    if(old == (void *) vp_data) {
        void **from = old, **to = r;
        if(vp_kb < n / sizeof(void *) && vp_kb < m / sizeof(void *)) to[vp_kb] = from[vp_kb];
        if(vp_lb < n / sizeof(void *) && vp_lb < m / sizeof(void *)) to[vp_lb] = from[vp_lb];
    } else if(vp_at && __CPROVER_same_object(old, vp_at)) {
        size_t o = __CPROVER_POINTER_OFFSET(vp_at);
        if(o + vp_es <= n && o + vp_es <= m) vp_at = (uint8_t *) r + o;
        else vp_lost = true;
    }
    free(old);
    return r;
}
static void *vp_calloc(size_t n, size_t m) {
    size_t size;
    vp_assert(!__builtin_mul_overflow(n, m, &size), "the size asked for can be represented");
    return malloc(size);
}
static void *vp_memcpy(void *dst, const void *src, size_t n) {
    vp_assert(__CPROVER_r_ok(src, n) && __CPROVER_w_ok(dst, n), "memcpy stays inside its source and destination");
    vp_from = src; vp_to = dst; vp_amount = n; vp_copies++;
    return dst;
}
#define realloc vp_realloc
#define calloc vp_calloc
#define memcpy vp_memcpy
#ifdef VP_TYPE /* the element types the library keeps in stacks */
#include "passgen/parser/parser.h"
#include "passgen/pattern/group.h"
#include "passgen/pattern/segment.h"
#include "passgen/pattern/segment_item.h"
#include "passgen/pattern/range.h"
#define VP_ES sizeof(VP_TYPE)
#define VP_MAXES VP_ES
#else
#define VP_MAXES 4096
#endif
#else
#define VP_MAXLEN 300
#define VP_MAXES 40
#endif
#include "src/container/stack.c"
#undef realloc
#undef calloc
#undef memcpy

#ifdef VP_PROOF
static size_t vp_pow2(size_t n) { size_t p = 1; for(int i = 0; i < VP_POW; i++) if(p < n) p *= 2; return p; }
static bool vp_wide;
/* a stack as init or any sequence of pushes and pops leaves it */
static void vp_any_stack(passgen_stack *s, size_t len) {
#ifdef VP_ES
    vp_es = VP_ES;
#else
    vp_es = vp_range(1, VP_MAXES);
#endif
    passgen_stack_init(s, vp_es);
    vp_assert(s->len == 0 && s->element_size == vp_es && s->bin_size == 32, "an empty stack in bins of 32");
    vp_k = vp_u64(); vp_at = NULL; vp_lost = false; vp_copies = 0;
    s->len = len;
    if(len == 0) {
        /* as init, pop of the last element and free leave it */
        s->data = NULL; vp_data = NULL;
        return;
    }
    vp_kb = vp_k / 32; vp_lb = (len - 1) / 32;
    size_t bins = len <= 32 ? 1 : vp_range(1, VP_MAXLEN);
    vp_assume(bins >= vp_pow2(vp_lb + 1));
    s->data = vp_data = malloc(bins * sizeof(void *));
    /* the first bin holds at least four elements at first, later the next power of two */
    size_t first = len > 16 ? 32 : len == 1 && vp_wide ? 4 : vp_pow2(len);
    uint8_t *last = malloc((vp_lb == 0 ? first : 32) * vp_es), *mid = last;
    s->data[vp_lb] = last;
    if(vp_k < len) {
        if(vp_kb != vp_lb) { mid = malloc(32 * vp_es); s->data[vp_kb] = mid; }
        vp_at = mid + vp_k % 32 * vp_es;
    }
}
/* what all functions rely on */
static void vp_valid_stack(passgen_stack *s) {
    vp_assert(s->element_size == vp_es && s->bin_size == 32, "the element and bin sizes stay");
    if(s->len == 0) { vp_assert(s->data == NULL, "an empty stack holds no memory"); return; }
    size_t lb = (s->len - 1) / 32;
    vp_assert(__CPROVER_POINTER_OFFSET(s->data) == 0 && __CPROVER_OBJECT_SIZE(s->data) >= sizeof(void *) * vp_pow2(lb + 1), "enough room for the bins");
    if(lb == vp_lb || lb == vp_kb)
        vp_assert(__CPROVER_POINTER_OFFSET(s->data[lb]) == 0 && __CPROVER_OBJECT_SIZE(s->data[lb]) >= vp_es * (lb ? 32 : vp_pow2(s->len < 32 ? s->len : 32)), "enough room in the last bin");
    if(lb > 0 && vp_kb == 0 && vp_k < s->len)
        vp_assert(__CPROVER_OBJECT_SIZE(s->data[0]) >= vp_es * 32, "the first bin is full size once there are others");
}
static bool vp_disjoint(const uint8_t *a, const uint8_t *b) {
    if(!__CPROVER_same_object(a, b)) return true;
    size_t x = __CPROVER_POINTER_OFFSET(a), y = __CPROVER_POINTER_OFFSET(b);
    return x + vp_es <= y || y + vp_es <= x;
}
static void vp_push(size_t n) {
    passgen_stack s;
    vp_any_stack(&s, n);
    static uint8_t value[VP_MAXES];
    bool given = vp_bool();
    if(vp_k == n) vp_k++, vp_kb = vp_k / 32; /* the new one is looked at anyway */
    if(n / 32 != vp_lb) vp_lb = n / 32;
    uint8_t *vp_before = vp_at;
    uint8_t *p = passgen_stack_push(&s, given ? value : NULL);
    vp_data = s.data;
    vp_valid_stack(&s);
    vp_assert(s.len == n + 1, "one more element");
    vp_assert(__CPROVER_w_ok(p, vp_es), "the new element lies in the stack's storage");
    vp_assert(passgen_stack_get(&s, n) == p && passgen_stack_top(&s) == p, "the new element is the last and the top");
    if(given) vp_assert(vp_copies == 1 && vp_from == value && vp_to == p && vp_amount == vp_es, "the new element has the value given");
    else vp_assert(vp_copies == 0, "nothing is copied without a value");
    if(vp_k < n) {
        uint8_t *q = passgen_stack_get(&s, vp_k);
        vp_assert(q && __CPROVER_w_ok(q, vp_es), "every element lies in the stack's storage");
        vp_assert(!vp_lost && q == vp_at, "every other element keeps its contents");
        vp_assert(vp_disjoint(p, q), "elements do not overlap");
        if(n >= 32) vp_assert(q == vp_before, "beyond the first bin no element moves");
    }
    vp_reach("push");
}
static void vp_pop(size_t n) {
    passgen_stack s;
    vp_any_stack(&s, n);
    static uint8_t value[VP_MAXES];
    bool wanted = vp_bool();
    uint8_t *last = n ? (uint8_t *) s.data[(n - 1) / 32] + (n - 1) % 32 * vp_es : NULL;
    void *got = passgen_stack_pop(&s, wanted ? value : NULL);
    if(n == 0) { vp_assert(got == NULL && s.len == 0 && s.data == NULL && !vp_copies, "nothing to pop"); return; }
    vp_data = s.data;
    vp_assert(s.len == n - 1, "one element less");
    vp_assert(got == (wanted ? value : NULL), "the popped element is stored where asked");
    if(wanted) vp_assert(vp_copies == 1 && vp_from == last && vp_to == value && vp_amount == vp_es, "the popped element is the last one");
    vp_valid_stack(&s);
    if(vp_k < s.len) {
        uint8_t *q = passgen_stack_get(&s, vp_k);
        vp_assert(q && __CPROVER_w_ok(q, vp_es), "every element lies in the stack's storage");
        vp_assert(!vp_lost && q == vp_at, "every other element keeps its contents");
    } else if(vp_k == s.len) vp_assert(passgen_stack_get(&s, vp_k) == NULL, "the popped element is gone");
    vp_reach("pop");
}
void h_get(void) {
    passgen_stack s;
    vp_any_stack(&s, vp_range(0, VP_MAXLEN));
    uint8_t *q = passgen_stack_get(&s, vp_k);
    if(vp_k < s.len) vp_assert(q == vp_at && __CPROVER_w_ok(q, vp_es), "reading position i gives the i-th element");
    else vp_assert(q == NULL, "beyond the end there is nothing");
    uint8_t *t = passgen_stack_top(&s);
    if(s.len == 0) vp_assert(t == NULL, "an empty stack has no top");
    else vp_assert(t == (uint8_t *) s.data[vp_lb] + (s.len - 1) % 32 * vp_es, "the top is the last element");
    vp_reach("get");
}
/* up to 34 elements: every length by itself; above: any length */
void h_push_few(void) {
    size_t n = vp_range(0, 34);
    vp_wide = vp_bool();
    for(size_t i = 0; i <= 34; i++) if(n == i) vp_push(i);
}
void h_pop_few(void) {
    size_t n = vp_range(0, 34);
    vp_wide = vp_bool();
    for(size_t i = 0; i <= 34; i++) if(n == i) vp_pop(i);
}
void h_push_many(void) { vp_push(vp_range(33, VP_MAXLEN)); }
void h_pop_many(void) { vp_pop(vp_range(33, VP_MAXLEN)); }
#endif
/* a history of operations against a model, natively */
void h_stack_history(void) {
    passgen_stack s;
    static uint8_t model[1200][24]; static void *where[1200]; size_t n = 0;
    static const size_t sizes[] = {1, 2, 3, 8, 12, 16, 17, 24};
    size_t es = sizes[vp_range(0, 7)];
    passgen_stack_init(&s, es);
    size_t runs = vp_range(1, 8);
    for(size_t r = 0; r < runs; r++) {
        size_t times = vp_range(1, 140);
        bool up = vp_bool();
        uint8_t v = vp_u8();
        for(size_t i = 0; i < times; i++) {
            if(up) {
                memset(model[n], v + i * 7, es);
                void *p = passgen_stack_push(&s, i % 5 ? model[n] : NULL);
                if(i % 5 == 0) memcpy(p, model[n], es);
                where[n] = p;
                if(n >= 32) for(size_t j = 0; j < n; j++) vp_assert(passgen_stack_get(&s, j) == where[j], "beyond the first bin no element moves");
                else for(size_t j = 0; j <= n; j++) where[j] = passgen_stack_get(&s, j);
                n++;
            } else {
                uint8_t got[24] = {0};
                void *p = passgen_stack_pop(&s, i % 3 ? got : NULL);
                if(n == 0) vp_assert(p == NULL, "nothing to pop");
                else {
                    n--;
                    if(i % 3) vp_assert(p == got && !memcmp(got, model[n], es), "the popped element is the last one");
                }
                if(n <= 32) for(size_t j = 0; j < n; j++) where[j] = passgen_stack_get(&s, j);
            }
            vp_assert(s.len == n, "the length counts the elements");
            for(size_t j = 0; j < n; j++) {
                uint8_t *p = passgen_stack_get(&s, j);
                vp_assert(p && !memcmp(p, model[j], es), "elements stay in order and keep their contents");
            }
            vp_assert(passgen_stack_get(&s, n) == NULL && passgen_stack_get(&s, n + 40) == NULL, "beyond the end there is nothing");
            vp_assert(passgen_stack_top(&s) == (n ? passgen_stack_get(&s, n - 1) : NULL), "the top is the last element");
        }
    }
    passgen_stack_free(&s);
}
