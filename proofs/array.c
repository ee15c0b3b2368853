/* The growable array, any size: one operation on an arbitrary valid array.
 * One arbitrary position vp_k is followed; realloc is taken by its contract
 * (a new object of the size asked for, the old contents kept as far as both
 * objects reach). */
#define VP_OWN_ASSERT_FAIL
#include "vp.h"
static size_t vp_k;
static bool vp_refusable;
void passgen_assert_fail(const char *cond, const char *file, const char *func, size_t line) {
    (void) cond; (void) file; (void) func; (void) line;
    vp_assert(vp_refusable, "only reading at or beyond the size is refused");
    vp_assume(0);
}
#ifdef VP_PROOF
#define VP_MAXCAP ((size_t) 1 << 40)
static size_t vp_cap;
static void *vp_realloc(void *old, size_t n) {
    void **p = malloc(n);
    if(old) {
        vp_assert(__CPROVER_DYNAMIC_OBJECT(old) && __CPROVER_POINTER_OFFSET(old) == 0, "realloc of an allocated object");
        size_t m = __CPROVER_OBJECT_SIZE(old);
        if(vp_k < n / sizeof(void *) && vp_k < m / sizeof(void *)) p[vp_k] = ((void **) old)[vp_k];
        free(old);
    }
    return p;
}
#define realloc vp_realloc
#else
#define VP_MAXCAP 40
#endif
#include "src/container/array.c"
#undef realloc

static char vp_things[8];
static void *vp_thing(void) { return vp_bool() ? &vp_things[vp_range(0, 7)] : NULL; }

/* an array as init or any sequence of pushes and pops leaves it */
static void vp_any_array(passgen_array *a) {
    a->capacity = vp_range(0, VP_MAXCAP);
    a->items = vp_range(0, VP_MAXCAP);
    vp_assume(a->items <= a->capacity);
    a->data = a->capacity ? malloc(a->capacity * sizeof(void *)) : NULL;
    if(a->capacity) vp_fill(a->data, a->capacity * sizeof(void *));
}
static void vp_valid_array(passgen_array *a) {
    vp_assert(a->items <= a->capacity, "never more pointers than storage");
    vp_assert((a->data == NULL) == (a->capacity == 0), "storage exactly when there is capacity");
#ifdef VP_PROOF
    vp_assert(a->data == NULL || (__CPROVER_POINTER_OFFSET(a->data) == 0 && __CPROVER_OBJECT_SIZE(a->data) >= a->capacity * sizeof(void *)), "the storage is as large as the capacity says");
#endif
}
void h_init(void) {
    passgen_array a;
    vp_fill(&a, sizeof a);
    size_t cap = vp_range(0, VP_MAXCAP);
    passgen_array_init(&a, cap);
    vp_assert(a.items == 0 && a.capacity >= cap, "an empty array of the capacity asked for");
    vp_valid_array(&a);
    vp_assert(passgen_array_pop(&a) == NULL && a.items == 0, "nothing to pop");
    vp_reach("init");
#ifndef VP_PROOF
    passgen_array_free(&a);
#endif
}
void h_push(void) {
    passgen_array a;
    vp_any_array(&a);
    vp_k = vp_range(0, VP_MAXCAP);
    size_t n = a.items;
    void *x = vp_thing(), *old = NULL;
    if(vp_k < n) old = a.data[vp_k] = vp_thing();
    if(vp_k == n) vp_k++; /* the new one is looked at anyway */
    passgen_array_push(&a, x);
    vp_valid_array(&a);
    vp_assert(a.items == n + 1, "one more pointer");
    vp_assert(passgen_array_get(&a, n) == x, "the pushed pointer is the last");
    if(vp_k < n) vp_assert(passgen_array_get(&a, vp_k) == old, "every other pointer is where it was");
    vp_reach("push");
#ifndef VP_PROOF
    passgen_array_free(&a);
#endif
}
void h_pop(void) {
    passgen_array a;
    vp_any_array(&a);
    vp_k = vp_range(0, VP_MAXCAP);
    size_t n = a.items;
    void *x = vp_thing(), *old = NULL;
    if(vp_k < n) old = a.data[vp_k] = vp_thing();
    if(n) a.data[n - 1] = x;
    void *got = passgen_array_pop(&a);
    vp_valid_array(&a);
    if(n == 0) vp_assert(got == NULL && a.items == 0, "nothing to pop");
    else {
        vp_assert(got == x && a.items == n - 1, "the last pointer is popped");
        if(vp_k + 1 < n) vp_assert(passgen_array_get(&a, vp_k) == old, "every other pointer is where it was");
    }
    vp_reach("pop");
#ifndef VP_PROOF
    passgen_array_free(&a);
#endif
}
void h_get(void) {
    passgen_array a;
    vp_any_array(&a);
    size_t pos = vp_range(0, VP_MAXCAP * 2);
    void *x = vp_thing();
    if(pos < a.items) a.data[pos] = x;
    vp_refusable = pos >= a.items;
    void *got = passgen_array_get(&a, pos);
    vp_assert(pos < a.items, "reading at or beyond the size is refused");
    vp_assert(got == x, "the pointer stored at the position");
    vp_reach("get");
#ifndef VP_PROOF
    passgen_array_free(&a);
#endif
}
/* a history of operations against a model, natively */
void h_array_history(void) {
    passgen_array a;
    void *model[300]; size_t n = 0;
    passgen_array_init(&a, vp_range(0, 9));
    size_t ops = vp_range(1, 200);
    bool grow = vp_bool();
    for(size_t i = 0; i < ops; i++) {
        if(vp_range(0, 9) < (grow ? 8 : 5)) { model[n] = vp_thing(); passgen_array_push(&a, model[n]); n++; }
        else {
            void *got = passgen_array_pop(&a);
            if(n == 0) vp_assert(got == NULL, "nothing to pop");
            else { n--; vp_assert(got == model[n], "the last pointer is popped"); }
        }
        vp_assert(a.items == n, "the size counts the pointers");
        for(size_t j = 0; j < n; j++) vp_assert(passgen_array_get(&a, j) == model[j], "pointers stay in order");
    }
    vp_refusable = true;
    passgen_array_get(&a, n + vp_range(0, 3));
    vp_assert(false, "reading at or beyond the size is refused");
}
