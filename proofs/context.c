/* Allocation through a context: every request reaches the installed callback
 * once and unchanged, or the C library when there is none. */
#include "vp.h"
static unsigned vp_calls, vp_which; /* how many calls, and to what */
static void *vp_state, *vp_ptr; static size_t vp_a, vp_b; static void *vp_result;
enum { LIB_MALLOC = 1, LIB_CALLOC, LIB_REALLOC, LIB_FREE, CB_MALLOC, CB_CALLOC, CB_REALLOC, CB_FREE };
static void *vp_called(unsigned which, void *state, void *ptr, size_t a, size_t b) {
    vp_calls++; vp_which = which; vp_state = state; vp_ptr = ptr; vp_a = a; vp_b = b;
    return vp_result;
}
static void *vp_lib_malloc(size_t n) { return vp_called(LIB_MALLOC, NULL, NULL, n, 0); }
static void *vp_lib_calloc(size_t n, size_t m) { return vp_called(LIB_CALLOC, NULL, NULL, n, m); }
static void *vp_lib_realloc(void *p, size_t n) { return vp_called(LIB_REALLOC, NULL, p, n, 0); }
static void vp_lib_free(void *p) { vp_called(LIB_FREE, NULL, p, 0, 0); }
#define malloc vp_lib_malloc
#define calloc vp_lib_calloc
#define realloc vp_lib_realloc
#define free vp_lib_free
#include "src/context.c"
#undef malloc
#undef calloc
#undef realloc
#undef free
static void *vp_cb_malloc(void *s, size_t n) { return vp_called(CB_MALLOC, s, NULL, n, 0); }
static void *vp_cb_calloc(void *s, size_t n, size_t m) { return vp_called(CB_CALLOC, s, NULL, n, m); }
static void *vp_cb_realloc(void *s, void *p, size_t n) { return vp_called(CB_REALLOC, s, p, n, 0); }
static void vp_cb_free(void *s, void *p) { vp_called(CB_FREE, s, p, 0, 0); }

void h_context(void) {
    passgen_context ctx;
    vp_fill(&ctx, sizeof ctx);
    passgen_context_init(&ctx);
    static char things[16];
    bool m = vp_bool(), c = vp_bool(), r = vp_bool(), f = vp_bool(), s = vp_bool();
    unsigned first = vp_range(0, 4);
    void *state = s ? &things[vp_range(0, 3)] : NULL;
    /* in any order: the order is a rotation of the five setters */
    for(unsigned i = 0; i < 5; i++) {
        unsigned k = (first + i) % 5;
        if(k == 0 && m) passgen_context_set_malloc(&ctx, vp_cb_malloc);
        if(k == 1 && c) passgen_context_set_calloc(&ctx, vp_cb_calloc);
        if(k == 2 && r) passgen_context_set_realloc(&ctx, vp_cb_realloc);
        if(k == 3 && f) passgen_context_set_free(&ctx, vp_cb_free);
        if(k == 4 && s) passgen_context_set_alloc_state(&ctx, state);
    }
    vp_calls = 0;
    vp_result = vp_bool() ? &things[4 + vp_range(0, 3)] : NULL;
    void *p = vp_bool() ? &things[8 + vp_range(0, 3)] : NULL;
    size_t a = vp_u64(), b = vp_u64();
    unsigned op = vp_range(0, 3), want;
    bool cb;
    if(op == 0) {
        vp_assert(passgen_malloc(&ctx, a) == vp_result, "the result of the callback");
        want = m ? CB_MALLOC : LIB_MALLOC; cb = m;
        vp_assert(vp_a == a, "the size as given");
    } else if(op == 1) {
        vp_assert(passgen_calloc(&ctx, a, b) == vp_result, "the result of the callback");
        want = c ? CB_CALLOC : LIB_CALLOC; cb = c;
        vp_assert(vp_a == a && vp_b == b, "count and size as given");
    } else if(op == 2) {
        vp_assert(passgen_realloc(&ctx, p, a) == vp_result, "the result of the callback");
        want = r ? CB_REALLOC : LIB_REALLOC; cb = r;
        vp_assert(vp_ptr == p && vp_a == a, "pointer and size as given");
    } else {
        passgen_free(&ctx, p);
        want = f ? CB_FREE : LIB_FREE; cb = f;
        vp_assert(vp_ptr == p, "the pointer as given");
    }
    vp_assert(vp_calls == 1, "exactly one call");
    vp_assert(vp_which == want, "the installed callback, or the C library's function when there is none");
    if(cb) vp_assert(vp_state == state, "the caller's state");
    vp_reach("allocation");
}
