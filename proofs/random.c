/* Bounded draws, and the buffer in front of a randomness source.
 *
 * The source is an arbitrary infinite byte sequence. One of its positions,
 * vp_w, chosen arbitrarily, carries the arbitrary byte vp_v; all other bytes
 * are unconstrained. What is proved about position vp_w therefore holds for
 * every position. */
#include <unistd.h>
#define VP_OWN_ASSERT_FAIL
#define abort vp_abort
#include "vp.h"
static bool vp_source_short;   /* the source has delivered fewer bytes than asked */
/* stopping the program is a legitimate answer to a failing source only */
static void vp_stop(void) {
    vp_assert(vp_source_short, "the program is stopped only because the source failed");
    vp_assume(0);
}
void vp_abort(void) { vp_stop(); }
void passgen_assert_fail(const char *cond, const char *file, const char *func, size_t line) { vp_stop(); }

static uint64_t vp_w; static uint8_t vp_v;
static uint64_t vp_spos;      /* how much the source has delivered */

/* draws, for the loop contracts of the bounded draws */
static uint64_t vp_draws, vp_k, vp_kraw, vp_last; static bool vp_any;
#define VP_DRAW_GHOST vp_draws, vp_kraw, vp_last, vp_any
#define vp_draw_invariant(mask, max) (!(vp_k < vp_draws) || (vp_kraw & (mask)) >= (max))

/* The library call memcpy, by its contract: every byte is copied. To keep the
 * obligations small the proof follows only the byte at index vp_at of the
 * buffer, and lets one other, arbitrary, byte of the destination change
 * arbitrarily; that stands for all others because each obligation is about
 * one place. */
#include "passgen/random.h"
static passgen_random vp_r;
static size_t vp_at;           /* index of the followed byte in the buffer, or out of it */
static bool vp_exact;          /* the harness needs every byte: use the real memcpy */
#define VP_OFFBUF(p) (__CPROVER_POINTER_OFFSET(p) - offsetof(passgen_random, buffer))
static uint8_t vp_data[PASSGEN_RANDOM_BUFFER_LENGTH + 1];
static bool vp_typed;          /* the destination is vp_data (lets the verifier index arrays instead of bytes of structs) */
#ifdef VP_PROOF
static void vp_set(void *dst, size_t i, uint8_t v) {
    if(vp_typed) {
        if(__CPROVER_same_object(dst, &vp_r)) vp_r.buffer[VP_OFFBUF(dst) + i] = v;
        else { vp_assert(__CPROVER_same_object(dst, vp_data), "written to the destination"); vp_data[__CPROVER_POINTER_OFFSET(dst) + i] = v; }
    } else if(__CPROVER_same_object(dst, &vp_r)) vp_r.buffer[VP_OFFBUF(dst) + i] = v;
    else ((uint8_t *) dst)[i] = v;
}
static void *vp_memcpy(void *dst, const void *src, size_t n) {
    if(vp_exact) return memcpy(dst, src, n);
    vp_assert(n == 0 || (__CPROVER_r_ok(src, n) && __CPROVER_w_ok(dst, n)), "memcpy stays inside its source and destination");
    size_t j = nondet_vp_u64();
    if(j < n) vp_set(dst, j, (uint8_t) nondet_vp_u64());
    if(__CPROVER_same_object(src, &vp_r) && vp_at < PASSGEN_RANDOM_BUFFER_LENGTH && vp_at >= VP_OFFBUF(src) && vp_at - VP_OFFBUF(src) < n)
        vp_set(dst, vp_at - VP_OFFBUF(src), vp_r.buffer[vp_at]);
    return dst;
}
#define memcpy vp_memcpy
static int vp_fprintf(FILE *f, const char *format, ...) { return 0; }
#define fprintf vp_fprintf
#endif
#include "src/random/random.c"
#undef memcpy
#undef fprintf
#undef abort
passgen_random *passgen_random_zero_open(passgen_random *r) { return NULL; }
passgen_random *passgen_random_path_open(passgen_random *r, const char *p) { return NULL; }
passgen_random *passgen_random_xorshift_open(passgen_random *r, uint64_t s) { return NULL; }
passgen_random *passgen_random_system_open(passgen_random *r) { return NULL; }
passgen_random *passgen_random_chacha20_open(passgen_random *r, const uint8_t k[32], const uint8_t iv[8]) { return NULL; }
passgen_random *passgen_random_chacha20_argon2_open(passgen_random *r, const uint8_t *p, const uint8_t *d, const uint8_t *t, passgen_argon2_config *c) { return NULL; }

/* ---- the source -------------------------------------------------------------- */
#ifdef VP_PROOF
#define VP_W_OK(p, n) __CPROVER_w_ok(p, n)
#define VP_IN_BUFFER(p) __CPROVER_same_object(p, &vp_r)
#else
#define VP_W_OK(p, n) 1
#define VP_IN_BUFFER(p) 0
#endif
static bool vp_may_fail;
static size_t vp_source(void *context, void *dest, size_t size) {
    size_t got = size;
    if(vp_may_fail && vp_bool()) { got = vp_u64(); if(got > size && got != (size_t) -1) got = size; }
    if(got != size) { vp_source_short = true; return got; }
    vp_assert(size == 0 || VP_W_OK(dest, size), "the source is asked to fill valid memory");
#ifdef VP_PROOF
    size_t j = nondet_vp_u64();
    if(j < size) vp_set(dest, j, (uint8_t) nondet_vp_u64());
#else
    vp_fill(dest, size);
#endif
    if(VP_IN_BUFFER(dest)) vp_at = -1;
    if(vp_w >= vp_spos && vp_w - vp_spos < size) {
#ifdef VP_PROOF
        vp_set(dest, vp_w - vp_spos, vp_v);
#else
        ((uint8_t *) dest)[vp_w - vp_spos] = vp_v;
#endif
        if(VP_IN_BUFFER(dest)) vp_at = vp_w - vp_spos;
    }
    vp_spos += size;
    return size;
}
static void vp_source_close(void *context) {}

#ifndef VP_NATIVE
#define VP_STREAM_LIMIT ((uint64_t) 1 << 60)
#define VP_WATCH_LIMIT ((uint64_t) 1 << 48)
#else
#define VP_WATCH_LIMIT 3200
#define VP_STREAM_LIMIT 6000
#endif
/* an open source at any point of its life: the buffer holds the 1024 bytes
 * delivered last, pos is the next one to hand out */
static void vp_open(void) {
    vp_source_short = false; vp_exact = false; vp_typed = false; vp_at = -1; vp_may_fail = false;
    vp_spos = vp_range(PASSGEN_RANDOM_BUFFER_LENGTH, VP_STREAM_LIMIT);
    vp_w = vp_spos - PASSGEN_RANDOM_BUFFER_LENGTH + vp_range(0, VP_WATCH_LIMIT); vp_v = vp_u8();
#ifdef VP_NATIVE
    vp_fill(vp_r.buffer, sizeof(vp_r.buffer));
#else
    passgen_random fresh; vp_r = fresh;
#endif
    vp_r.pos = vp_range(0, PASSGEN_RANDOM_BUFFER_LENGTH - 1);
    vp_r.context = NULL; vp_r.read = vp_source; vp_r.close = vp_source_close;
    uint64_t base = vp_spos - PASSGEN_RANDOM_BUFFER_LENGTH;
    if(vp_w >= base && vp_w - base < PASSGEN_RANDOM_BUFFER_LENGTH) {
        vp_at = vp_w - base;
        vp_r.buffer[vp_at] = vp_v;
    }
}
/* next byte to be handed out */
static uint64_t vp_next(void) { return vp_spos - PASSGEN_RANDOM_BUFFER_LENGTH + vp_r.pos; }
static bool vp_invariant(void) {
    uint64_t base = vp_spos - PASSGEN_RANDOM_BUFFER_LENGTH;
    return vp_r.pos < PASSGEN_RANDOM_BUFFER_LENGTH && vp_r.read == vp_source && vp_r.context == NULL && vp_r.close == vp_source_close &&
        (!(vp_w >= base && vp_w - base < PASSGEN_RANDOM_BUFFER_LENGTH) || vp_r.buffer[vp_w - base] == vp_v);
}

/* ---- C02 --------------------------------------------------------------------- */
#ifdef VP_NATIVE
#define VP_READ_LIMIT 2100
#else
#define VP_READ_LIMIT ((size_t) 1 << 40)
#endif
static void read_any(bool may_fail) {
    uint8_t *data = vp_data;
    vp_open();
    vp_typed = true;
    vp_may_fail = may_fail;
    size_t bytes = vp_range(0, PASSGEN_RANDOM_BUFFER_LENGTH);
    data[bytes] = 0x5A;
    uint64_t next = vp_next();
    passgen_random_read(&vp_r, data, bytes);
    vp_assert(!vp_source_short, "nothing is delivered after the source failed");
    vp_assert(vp_invariant(), "buffer invariant is kept");
    vp_assert(data[bytes] == 0x5A, "nothing is written past the destination");
    vp_assert(vp_next() == next + bytes, "exactly the bytes handed out are used up");
    if(vp_w >= next && vp_w - next < bytes) vp_assert(data[vp_w - next] == vp_v, "the bytes delivered are the source's next bytes, in order");
    vp_reach("read");
}
void h_read(void) { read_any(false); }
void h_read_failing(void) { read_any(true); }
static void read_long(bool may_fail) {
    vp_open();
    vp_may_fail = may_fail;
    size_t bytes = vp_range(PASSGEN_RANDOM_BUFFER_LENGTH + 1, VP_READ_LIMIT);
    uint8_t *data = malloc(bytes);
    uint64_t spos = vp_spos; size_t pos = vp_r.pos;
    passgen_random_read(&vp_r, data, bytes);
    vp_assert(!vp_source_short, "nothing is delivered after the source failed");
    vp_assert(vp_spos == spos + bytes && vp_r.pos == pos, "a long read comes from the source alone");
    if(vp_w >= spos && vp_w - spos < bytes) vp_assert(data[vp_w - spos] == vp_v, "a long read delivers the source's bytes");
    vp_reach("long read");
    free(data);
}
void h_read_long(void) { read_long(false); }
void h_read_long_failing(void) { read_long(true); }

/* opening reloads: invariant is established */
static void reload_any(bool may_fail) {
    vp_source_short = false; vp_exact = false; vp_typed = true; vp_at = -1; vp_may_fail = may_fail;
    vp_spos = vp_range(0, VP_STREAM_LIMIT);
    vp_w = vp_spos + vp_range(0, VP_WATCH_LIMIT); vp_v = vp_u8();
    uint64_t spos = vp_spos;
    vp_r.pos = vp_u64();
    vp_r.context = NULL; vp_r.read = vp_source; vp_r.close = vp_source_close;
    passgen_random_reload(&vp_r);
    vp_assert(!vp_source_short, "no reload succeeds after the source failed");
    vp_assert(vp_invariant() && vp_r.pos == 0 && vp_spos == spos + PASSGEN_RANDOM_BUFFER_LENGTH, "reload makes a full fresh buffer");
    vp_reach("reload");
}
void h_reload(void) { reload_any(false); }
void h_reload_failing(void) { reload_any(true); }

/* ---- C01 --------------------------------------------------------------------- */
#define FIXED_DRAW(N) \
void h_u##N(void) { \
    vp_open(); \
    uint64_t next = vp_next(); \
    uint##N##_t x = passgen_random_u##N(&vp_r); \
    vp_assert(vp_next() == next + N / 8, "a draw uses up exactly its width"); \
    if(vp_w >= next && vp_w - next < N / 8) \
        vp_assert((uint8_t) (x >> (8 * (vp_w - next))) == vp_v, "a draw is the little-endian value of the next bytes"); \
    vp_reach("draw"); \
}
FIXED_DRAW(8) FIXED_DRAW(16) FIXED_DRAW(32) FIXED_DRAW(64)

/* The coin depends on one byte only: count the bytes that give heads. */
void h_bool(void) {
    unsigned yes = 0;
    vp_exact = true; vp_at = -1; vp_source_short = false; vp_may_fail = false;
    for(unsigned b = 0; b < 256; b++) {
            vp_r.context = NULL; vp_r.read = vp_source; vp_r.close = vp_source_close;
        vp_r.pos = 0;
        vp_r.buffer[0] = b;
        if(passgen_random_bool(&vp_r)) yes++;
        vp_assert(vp_r.pos == 1, "one byte per coin toss");
    }
    vp_assert(yes == 128, "true for exactly half of the raw draws");
    vp_reach("bool");
}

/* all ones up to the highest bit of max */
static uint64_t vp_mask(uint64_t max) {
    uint64_t m = 0;
    for(unsigned i = 0; i < 64; i++) if(max >> i) m |= (uint64_t) 1 << i;
    return m;
}
#define BOUNDED_DRAW(N) \
uint##N##_t c_draw##N(passgen_random *random) \
__CPROVER_assigns(VP_DRAW_GHOST) \
__CPROVER_ensures(vp_draws == __CPROVER_old(vp_draws) + 1) \
__CPROVER_ensures(__CPROVER_return_value == vp_last && vp_any) \
__CPROVER_ensures(vp_kraw == (__CPROVER_old(vp_draws) == vp_k ? vp_last : __CPROVER_old(vp_kraw))) \
; \
uint##N##_t c_max##N(passgen_random *random, uint##N##_t max) \
__CPROVER_requires(max != 0 && vp_draws == 0 && !vp_any) \
__CPROVER_assigns(VP_DRAW_GHOST) \
__CPROVER_ensures(__CPROVER_return_value < max) \
__CPROVER_ensures(vp_any) \
__CPROVER_ensures(__CPROVER_return_value == (vp_last & vp_mask(max))) \
__CPROVER_ensures(!(vp_draws - vp_k > 1 && vp_k < vp_draws) || (vp_kraw & vp_mask(max)) >= max) \
; \
void h_max##N(void) { \
    vp_draws = 0; vp_any = false; vp_k = vp_u64(); \
    passgen_random_u##N##_max(&vp_r, (uint##N##_t) vp_range(1, UINT##N##_MAX)); \
    vp_reach("bounded draw"); \
} \
void h_max##N##_short(void) { \
    uint##N##_t raw[4]; \
    vp_open(); vp_exact = true; \
    vp_r.pos = 5; \
    uint##N##_t max = (uint##N##_t) vp_range(1, UINT##N##_MAX); \
    if(vp_bool()) max &= 15; \
    if(vp_bool()) max = max & 1 ? UINT##N##_MAX / 2 + 1 : UINT##N##_MAX / 2; \
    vp_assume(max != 0); \
    uint64_t m = vp_mask(max); \
    unsigned used = 0; \
    for(unsigned i = 0; i < 4; i++) { \
        raw[i] = (uint##N##_t) vp_u64(); \
        if(i == 3) raw[i] &= ~((uint##N##_t) m); \
        memcpy(&vp_r.buffer[5 + i * sizeof(raw[i])], &raw[i], sizeof(raw[i])); \
    } \
    for(unsigned i = 4; i > 0; i--) if((raw[i - 1] & m) < max) used = i; \
    uint##N##_t x = passgen_random_u##N##_max(&vp_r, max); \
    vp_assert(x < max, "below the bound"); \
    vp_assert(vp_r.pos == 5 + used * sizeof(x), "whole draws are discarded until one is below the bound"); \
    vp_assert(x == (raw[used - 1] & m), "the value is the low bits of the accepted draw"); \
    vp_reach("bounded draw, at most four raw draws"); \
}
BOUNDED_DRAW(8) BOUNDED_DRAW(16) BOUNDED_DRAW(32) BOUNDED_DRAW(64)
