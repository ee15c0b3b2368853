/* The xorshift source: 64-bit xorshift with shifts 13, 7, 17 (Marsaglia).
 *
 * Ghost state: vp_state is the state of the specified generator, advanced once
 * per 64-bit word in step with the code, vp_bytes the number of bytes it has
 * produced, and vp_kbyte its output byte number vp_k, vp_k arbitrary. */
#include "vp.h"
#include "passgen/random.h"
static uint64_t vp_next(uint64_t x) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
uint64_t vp_state, vp_bytes, vp_k; uint8_t vp_kbyte;
#define VP_XORSHIFT_GHOST vp_state, vp_bytes, vp_kbyte
static void vp_xorshift_step(void) {
    vp_state = vp_next(vp_state);
    if(vp_k >= vp_bytes && vp_k - vp_bytes < 8) vp_kbyte = (uint8_t) (vp_state >> (8 * (vp_k - vp_bytes)));
    vp_bytes += 8;
}
#define vp_xorshift_invariant(state, dest, written) \
    ((state) == vp_state && vp_bytes == (written) && (!(vp_k < (written)) || ((uint8_t *) (dest))[vp_k] == vp_kbyte))

#include "src/random/xorshift.c"

#ifdef VP_PROOF
static size_t c_read(void *context, void *dest, size_t size)
__CPROVER_requires(size <= (size_t) 1 << 40 && vp_bytes == 0 && __CPROVER_w_ok(context, 8) && *(uint64_t *) context == vp_state && (size == 0 || __CPROVER_w_ok(dest, size)))
__CPROVER_assigns(__CPROVER_object_upto(dest, size), *(uint64_t *) context, VP_XORSHIFT_GHOST)
__CPROVER_ensures(__CPROVER_return_value == size)
__CPROVER_ensures(!(vp_k < size) || ((uint8_t *) dest)[vp_k] == vp_kbyte)
__CPROVER_ensures(*(uint64_t *) context == vp_state && vp_bytes >= size && vp_bytes - size < 8)
;
void h_read(void) {
    size_t size = vp_range(0, (size_t) 1 << 40);
    uint64_t state = vp_u64();
    vp_state = state; vp_bytes = 0; vp_k = vp_u64();
    uint8_t *dest = malloc(size);
    passgen_random_xorshift_read(&state, dest, size);
    vp_reach("xorshift read");
}
#endif

/* Through the public interface. Proof: opening hands the source, standing at
 * the first word of the sequence of its seed, to passgen_random_reload (whose
 * behaviour C02 proves), and reads of any length follow h_read. */
static uint64_t vp_seed; static unsigned vp_reloads;
#ifdef VP_PROOF
#define VP_MAXREAD 17
#else
#define VP_MAXREAD 400
#endif
static uint64_t vp_check_read(passgen_random *p, uint64_t x, size_t max) {
    uint8_t dest[VP_MAXREAD + 1];
    size_t size = vp_range(0, max);
    dest[size] = 0xA5;
    vp_assert(p->read(p->context, dest, size) == size, "an xorshift source always delivers");
    for(size_t i = 0; i < size; i++) {
        if(i % 8 == 0) x = vp_next(x);
        vp_assert(dest[i] == (uint8_t) (x >> (8 * (i % 8))), "byte of the xorshift sequence");
    }
    vp_assert(dest[size] == 0xA5, "nothing is written past the destination");
    return x;
}
#ifdef VP_PROOF
void passgen_random_reload(passgen_random *p) {
    uint64_t x = vp_check_read(p, vp_seed, VP_MAXREAD);
    vp_check_read(p, x, 1);
    p->pos = 0;
    vp_reloads++;
}
#endif
void h_xorshift(void) {
    passgen_random r;
    vp_fill(&r, sizeof(r));
    uint64_t x = vp_seed = vp_u64();
    vp_reloads = 0;
    bool null = vp_bool();
    passgen_random *p = passgen_random_xorshift_open(null ? NULL : &r, vp_seed);
    vp_assert(p && (null || p == &r), "opened");
    vp_assert(p->pos == 0, "fresh buffer");
#ifdef VP_PROOF
    vp_assert(vp_reloads == 1, "the buffer is filled once");
#else
    for(size_t i = 0; i < PASSGEN_RANDOM_BUFFER_LENGTH; i += 8) {
        x = vp_next(x);
        for(size_t j = 0; j < 8; j++) vp_assert(p->buffer[i + j] == (uint8_t) (x >> (8 * j)), "byte of the xorshift sequence");
    }
    x = vp_check_read(p, x, VP_MAXREAD);
    vp_check_read(p, x, 1);
#endif
    p->close(p->context);
    vp_reach("xorshift");
}
