/* The seeded sources: zero, xorshift, ChaCha20 (behaviour of the streams).
 *
 * Everything goes through the public interface: open, seek, and the read
 * function that the opened source carries. The ChaCha20 block function is
 * taken by its contract, which chacha.c proves of the real one: byte i of its
 * output is byte 64 * counter + i of the key stream. One position vp_w of the
 * key stream, chosen arbitrarily, carries the arbitrary byte vp_v. */
#include "vp.h"
#include "passgen/random.h"

static uint8_t vp_key[32], vp_nonce[8];
static uint64_t vp_w; static uint8_t vp_v;
static unsigned vp_called;

#ifdef VP_PROOF
u_int64_t passgen_chacha20_djb(uint8_t *out, const uint8_t *text, size_t size, const uint8_t key[32], const uint8_t nonce[8], uint64_t ctr) {
    vp_called++;
    vp_assert(text == NULL, "the key stream itself is asked for");
    vp_assert(size == 0 || __CPROVER_w_ok(out, size), "the key stream goes to valid memory");
    size_t i = nondet_vp_u64();
    __CPROVER_assume(i < 32);
    vp_assert(key[i] == vp_key[i], "the key is the one given");
    vp_assert(nonce[i % 8] == vp_nonce[i % 8], "the nonce is the one given");
    /* each obligation is about one byte: one arbitrary byte changing
     * arbitrarily stands for the whole output */
    size_t j = nondet_vp_u64();
    if(j < size) out[j] = (uint8_t) nondet_vp_u64();
    if(vp_w / 64 >= ctr && vp_w - 64 * ctr < size) out[vp_w - 64 * ctr] = vp_v;
    return ctr;
}
#endif

#ifdef VP_NATIVE
#define VP_MAXREAD 300
#define VP_POS() (vp_bool() ? vp_range(0, 100000) : vp_range(0, (uint64_t) 1 << 60))
static uint8_t vp_ks(uint64_t pos) {
    uint8_t b[64];
    passgen_chacha20_djb(b, NULL, 64, vp_key, vp_nonce, pos / 64);
    return b[pos % 64];
}
static uint8_t *vp_alloc(size_t n) { uint8_t *p = malloc(n + 1); memset(p, 0xA5, n + 1); return p; }
#define VP_DONE(p, n) vp_assert((p)[n] == 0xA5, "nothing is written past the destination")
#else
#define VP_MAXREAD ((uint64_t) 1 << 40)
#define VP_POS() vp_range(0, (uint64_t) 1 << 60)
#define vp_alloc malloc
#define VP_DONE(p, n)
#endif

/* one read of arbitrary length from an open source standing at position pos */
static uint64_t vp_one_read(passgen_random *r, uint64_t pos) {
    size_t size = vp_range(0, VP_MAXREAD);
    uint8_t *dest = vp_alloc(size);
    size_t got = r->read(r->context, dest, size);
    vp_assert(got == size, "a ChaCha20 source always delivers");
#ifdef VP_NATIVE
    for(size_t i = 0; i < size; i++) vp_assert(dest[i] == vp_ks(pos + i), "byte of the key stream");
#else
    if(vp_w >= pos && vp_w - pos < size) {
        vp_assert(dest[vp_w - pos] == vp_v, "byte of the key stream");
        vp_reach("byte");
    }
#endif
    VP_DONE(dest, size);
    free(dest);
    return pos + size;
}
static void vp_buffer(passgen_random *r, uint64_t pos) {
    vp_assert(r->pos == 0, "the buffer is fresh");
#ifdef VP_NATIVE
    for(size_t i = 0; i < PASSGEN_RANDOM_BUFFER_LENGTH; i++) vp_assert(r->buffer[i] == vp_ks(pos + i), "buffered byte of the key stream");
#else
    if(vp_w >= pos && vp_w - pos < PASSGEN_RANDOM_BUFFER_LENGTH)
        vp_assert(r->buffer[vp_w - pos] == vp_v, "buffered byte of the key stream");
#endif
}
static void vp_inputs(void) {
    for(int i = 0; i < 32; i++) vp_key[i] = vp_u8();
    for(int i = 0; i < 8; i++) vp_nonce[i] = vp_u8();
    vp_w = vp_u64(); vp_v = vp_u8();
}
void h_chacha_open(void) {
    vp_inputs();
    uint8_t key[32], nonce[8];
    memcpy(key, vp_key, 32); memcpy(nonce, vp_nonce, 8);
    passgen_random r, *p = passgen_random_chacha20_open(&r, key, nonce);
    vp_assert(p == &r, "opened");
    /* what the caller does with its own copies does not matter any more */
    key[vp_range(0, 31)] = vp_u8(); nonce[vp_range(0, 7)] = vp_u8();
    vp_buffer(&r, 0);
    vp_one_read(&r, PASSGEN_RANDOM_BUFFER_LENGTH);
    vp_reach("chacha20 open");
}
/* any position: the buffer and one read of any length */
void h_chacha_seek(void) {
    vp_inputs();
    passgen_random r;
    passgen_random_chacha20_open(&r, vp_key, vp_nonce);
    uint64_t pos = VP_POS();
    passgen_random_chacha20_seek(&r, pos);
    vp_buffer(&r, pos);
    vp_one_read(&r, pos + PASSGEN_RANDOM_BUFFER_LENGTH);
    vp_reach("chacha20 seek and read");
}
/* a read of any length leaves the source standing right behind it: the next
 * two bytes are the ones that follow */
void h_chacha_next(void) {
    vp_inputs();
    passgen_random r;
    passgen_random_chacha20_open(&r, vp_key, vp_nonce);
    uint64_t pos = VP_POS();
    passgen_random_chacha20_seek(&r, pos);
    size_t size = vp_range(0, VP_MAXREAD);
    uint8_t *dest = vp_alloc(size), next[2];
    vp_assert(r.read(r.context, dest, size) == size, "a ChaCha20 source always delivers");
    VP_DONE(dest, size);
    pos += PASSGEN_RANDOM_BUFFER_LENGTH + size;
    vp_assert(r.read(r.context, next, 2) == 2, "a ChaCha20 source always delivers");
#ifdef VP_NATIVE
    for(size_t i = 0; i < 2; i++) vp_assert(next[i] == vp_ks(pos + i), "byte of the key stream");
#else
    if(vp_w >= pos && vp_w - pos < 2) vp_assert(next[vp_w - pos] == vp_v, "byte of the key stream");
#endif
    vp_reach("chacha20 next read");
}
void h_chacha_null(void) {
    vp_inputs();
    passgen_random *p = passgen_random_chacha20_open(NULL, vp_key, vp_nonce);
    vp_assert(p != NULL, "opened");
    vp_buffer(p, 0);
    vp_reach("chacha20 open without memory");
}

/* ---- zero ------------------------------------------------------------------------ */
void h_zero(void) {
    passgen_random r;
    vp_fill(&r, sizeof(r));
    bool null = vp_bool();
    passgen_random *p = passgen_random_zero_open(null ? NULL : &r);
    vp_assert(p && (null || p == &r), "opened");
    size_t size = vp_range(0, VP_MAXREAD);
    uint8_t *dest = vp_alloc(size);
    vp_assert(p->read(p->context, dest, size) == size, "a zero source always delivers");
    VP_DONE(dest, size);
    size_t i = vp_u64();
    if(i < size) vp_assert(dest[i] == 0, "zero source delivers zeroes");
    if(i < PASSGEN_RANDOM_BUFFER_LENGTH) vp_assert(p->buffer[i] == 0, "zero source delivers zeroes");
    vp_assert(p->pos == 0, "fresh buffer");
    p->close(p->context);
    vp_reach("zero");
}
