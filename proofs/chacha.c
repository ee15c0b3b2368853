/* ChaCha20 (D. J. Bernstein: 64-bit counter, 64-bit nonce) and the wipe function. */
#define VP_OWN_WIPE
#include "vp.h"

/* ---- specification ------------------------------------------------------------ */
static uint32_t vp_rotl(uint32_t x, unsigned n) { return (x << n) | (x >> (32 - n)); }
static void vp_qr(uint32_t *s, int a, int b, int c, int d) {
    s[a] += s[b]; s[d] = vp_rotl(s[d] ^ s[a], 16);
    s[c] += s[d]; s[b] = vp_rotl(s[b] ^ s[c], 12);
    s[a] += s[b]; s[d] = vp_rotl(s[d] ^ s[a], 8);
    s[c] += s[d]; s[b] = vp_rotl(s[b] ^ s[c], 7);
}
static void vp_two_rounds(uint32_t s[16]) {
    vp_qr(s, 0, 4, 8, 12); vp_qr(s, 1, 5, 9, 13); vp_qr(s, 2, 6, 10, 14); vp_qr(s, 3, 7, 11, 15);
    vp_qr(s, 0, 5, 10, 15); vp_qr(s, 1, 6, 11, 12); vp_qr(s, 2, 7, 8, 13); vp_qr(s, 3, 4, 9, 14);
}
static void vp_rounds(uint32_t s[16]) {
    for(int i = 0; i < 10; i++) vp_two_rounds(s);
}
/* ghost copy of the state in chacha20_rounds */
uint32_t vp_s[16]; unsigned vp_twice;
#define VP_CHACHA_GHOST __CPROVER_object_whole(vp_s), vp_twice
static void vp_double_round(void) { vp_two_rounds(vp_s); vp_twice++; }
#define vp_rounds_invariant(i, a, b, c, d, e, f, g, h, j, k, l, m, n, o, p, q) \
    (vp_twice == (i) && (a) == vp_s[0] && (b) == vp_s[1] && (c) == vp_s[2] && (d) == vp_s[3] && (e) == vp_s[4] && (f) == vp_s[5] && \
     (g) == vp_s[6] && (h) == vp_s[7] && (j) == vp_s[8] && (k) == vp_s[9] && (l) == vp_s[10] && (m) == vp_s[11] && (n) == vp_s[12] && \
     (o) == vp_s[13] && (p) == vp_s[14] && (q) == vp_s[15])
static uint32_t vp_le32(const uint8_t *p) { return p[0] | (uint32_t) p[1] << 8 | (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24; }
static void vp_input_block(uint32_t s[16], const uint8_t key[32], const uint8_t nonce[8], uint64_t ctr) {
    s[0] = 0x61707865; s[1] = 0x3320646e; s[2] = 0x79622d32; s[3] = 0x6b206574;
    for(int i = 0; i < 8; i++) s[4 + i] = vp_le32(key + 4 * i);
    s[12] = (uint32_t) ctr; s[13] = (uint32_t) (ctr >> 32);
    s[14] = vp_le32(nonce); s[15] = vp_le32(nonce + 4);
}

/* ---- ghost state for the loop over whole blocks ---------------------------------- */
uint32_t vp_block[16];      /* input block, counter words aside */
uint64_t vp_ctr;
uint8_t *vp_out; size_t vp_size, vp_k;
/* One byte of the key stream, vp_k, is followed: the word of its block that
 * the rounds produce is vp_kword, and the byte itself is vp_kbyte. */
uint32_t vp_kword; uint8_t vp_kbyte;
/* Whole words of the output are never read back; of what store32_le puts there
 * the proof keeps only the followed byte. */
uint8_t vp_kout;
#define vp_chacha_invariant(cipher_text, input, i) \
    ((cipher_text) == vp_out + 64 * (i) && \
     (input)[12] == (uint32_t) (vp_ctr + (i)) && (input)[13] == (uint32_t) ((vp_ctr + (i)) >> 32) && \
     (input)[0] == vp_block[0] && (input)[1] == vp_block[1] && (input)[2] == vp_block[2] && (input)[3] == vp_block[3] && \
     (input)[4] == vp_block[4] && (input)[5] == vp_block[5] && (input)[6] == vp_block[6] && (input)[7] == vp_block[7] && \
     (input)[8] == vp_block[8] && (input)[9] == vp_block[9] && (input)[10] == vp_block[10] && (input)[11] == vp_block[11] && \
     (input)[14] == vp_block[14] && (input)[15] == vp_block[15] && \
     (!(vp_k < 64 * (i)) || vp_kout == vp_kbyte))

#define vp_chacha_word_invariant(cipher_text, i, j) \
    ((cipher_text) == vp_out + 64 * (i) + 4 * (j) && (!(vp_k < 64 * (i) + 4 * (j)) || vp_kout == vp_kbyte))
#define vp_chacha_tail_invariant(cipher_text, i, nb_blocks) ((cipher_text) == vp_out + 64 * (nb_blocks) && (!(vp_k >= 64 * (nb_blocks) && vp_k < 64 * (nb_blocks) + (i)) || vp_out[vp_k] == vp_kbyte))
#define vp_chacha_tmp_invariant(tmp, i, nb_blocks) (!(vp_k >= 64 * (nb_blocks) && vp_k - 64 * (nb_blocks) < 4 * (i)) || (tmp)[vp_k - 64 * (nb_blocks)] == vp_kbyte) && (!(vp_k < 64 * (nb_blocks)) || vp_kout == vp_kbyte)
#define vp_zero_invariant(i, size) ((i) <= (size) && (!(vp_k < (i)) || vp_out[vp_k] == 0))

#include "src/monocypher.c"

#ifdef VP_PROOF
static void c_rounds_exact(u32 out[16], const u32 in[16])
__CPROVER_requires(vp_twice == 0)
__CPROVER_assigns(__CPROVER_object_upto(out, 64), __CPROVER_object_whole(vp_s), vp_twice)
__CPROVER_ensures(vp_twice == 10)
__CPROVER_ensures(out[0] == vp_s[0] && out[1] == vp_s[1] && out[2] == vp_s[2] && out[3] == vp_s[3] && out[4] == vp_s[4] && out[5] == vp_s[5] &&
                  out[6] == vp_s[6] && out[7] == vp_s[7] && out[8] == vp_s[8] && out[9] == vp_s[9] && out[10] == vp_s[10] && out[11] == vp_s[11] &&
                  out[12] == vp_s[12] && out[13] == vp_s[13] && out[14] == vp_s[14] && out[15] == vp_s[15])
;
#endif
/* the ghost state starts as the input and makes ten double rounds */
void h_rounds(void) {
    uint32_t in[16], out[16];
    for(int i = 0; i < 16; i++) vp_s[i] = in[i] = vp_u32();
    vp_twice = 0;
    chacha20_rounds(out, in);
    vp_reach("rounds");
}
void h_rounds_native(void) {
    uint32_t in[16], out[16], s[16];
    for(int i = 0; i < 16; i++) s[i] = in[i] = vp_u32();
    chacha20_rounds(out, in);
    vp_rounds(s);
    for(int i = 0; i < 16; i++) vp_assert(out[i] == s[i], "twenty rounds of ChaCha");
    vp_reach("rounds");
}

/* ---- the key stream, any length, any counter ---------------------------------------- */
#ifdef VP_PROOF
static uint8_t vp_c_store_out(uint8_t old, size_t off, uint32_t in) {
    return vp_k >= off && vp_k - off < 4 ? (uint8_t) (in >> (8 * (vp_k - off))) : old;
}
static void c_rounds(u32 out[16], const u32 in[16])
__CPROVER_requires(__CPROVER_r_ok(in, 64) && __CPROVER_w_ok(out, 64))
__CPROVER_requires(in[0] == vp_block[0] && in[1] == vp_block[1] && in[2] == vp_block[2] && in[3] == vp_block[3] &&
                   in[4] == vp_block[4] && in[5] == vp_block[5] && in[6] == vp_block[6] && in[7] == vp_block[7] &&
                   in[8] == vp_block[8] && in[9] == vp_block[9] && in[10] == vp_block[10] && in[11] == vp_block[11] &&
                   in[14] == vp_block[14] && in[15] == vp_block[15])
__CPROVER_assigns(__CPROVER_object_upto(out, 64))
__CPROVER_ensures((in[12] + ((uint64_t) in[13] << 32)) != vp_ctr + vp_k / 64 || out[(vp_k % 64) / 4] == vp_kword)
;
static void c_store(u8 out[4], u32 in)
__CPROVER_requires(__CPROVER_w_ok(out, 4))
__CPROVER_assigns(__CPROVER_same_object(out, vp_out): vp_kout; !__CPROVER_same_object(out, vp_out): __CPROVER_object_upto(out, 4))
__CPROVER_ensures(__CPROVER_same_object(out, vp_out) || (out[0] == (in & 255) && out[1] == ((in >> 8) & 255) && out[2] == ((in >> 16) & 255) && out[3] == in >> 24))
__CPROVER_ensures(!__CPROVER_same_object(out, vp_out) || vp_kout == vp_c_store_out(__CPROVER_old(vp_kout), __CPROVER_POINTER_OFFSET(out), in))
;
static void c_loadbuf(u32 *dst, const u8 *src, size_t size)
__CPROVER_requires(size <= 8 && __CPROVER_r_ok(src, 4 * size) && __CPROVER_w_ok(dst, 4 * size))
__CPROVER_assigns(__CPROVER_object_upto(dst, 4 * size))
__CPROVER_ensures(!(size > 0) || dst[0] == (src[0] | (uint32_t) src[1] << 8 | (uint32_t) src[2] << 16 | (uint32_t) src[3] << 24))
__CPROVER_ensures(!(size > 1) || dst[1] == (src[4] | (uint32_t) src[5] << 8 | (uint32_t) src[6] << 16 | (uint32_t) src[7] << 24))
__CPROVER_ensures(!(size > 2) || dst[2] == (src[8] | (uint32_t) src[9] << 8 | (uint32_t) src[10] << 16 | (uint32_t) src[11] << 24))
__CPROVER_ensures(!(size > 3) || dst[3] == (src[12] | (uint32_t) src[13] << 8 | (uint32_t) src[14] << 16 | (uint32_t) src[15] << 24))
__CPROVER_ensures(!(size > 4) || dst[4] == (src[16] | (uint32_t) src[17] << 8 | (uint32_t) src[18] << 16 | (uint32_t) src[19] << 24))
__CPROVER_ensures(!(size > 5) || dst[5] == (src[20] | (uint32_t) src[21] << 8 | (uint32_t) src[22] << 16 | (uint32_t) src[23] << 24))
__CPROVER_ensures(!(size > 6) || dst[6] == (src[24] | (uint32_t) src[25] << 8 | (uint32_t) src[26] << 16 | (uint32_t) src[27] << 24))
__CPROVER_ensures(!(size > 7) || dst[7] == (src[28] | (uint32_t) src[29] << 8 | (uint32_t) src[30] << 16 | (uint32_t) src[31] << 24))
;
void c_wipe(void *secret, size_t size)
__CPROVER_requires(__CPROVER_w_ok(secret, size))
__CPROVER_assigns(__CPROVER_object_upto(secret, size))
;
u64 c_djb(u8 *cipher_text, const u8 *plain_text, size_t text_size, const u8 key[32], const u8 nonce[8], u64 ctr)
__CPROVER_requires(cipher_text == vp_out && text_size == vp_size && ctr == vp_ctr && plain_text == NULL && vp_size <= ((size_t) 1 << 40))
__CPROVER_assigns(__CPROVER_object_upto(cipher_text, text_size), vp_kout)
__CPROVER_ensures(!(vp_k < vp_size) || (vp_k < vp_size / 64 * 64 ? vp_kout : vp_out[vp_k]) == vp_kbyte)
;
#endif
void h_djb(void) {
    uint8_t key[32], nonce[8];
    for(int i = 0; i < 32; i++) key[i] = vp_u8();
    for(int i = 0; i < 8; i++) nonce[i] = vp_u8();
    vp_ctr = vp_u64(); vp_size = vp_range(0, (size_t) 1 << 40); vp_k = vp_range(0, (size_t) 1 << 40);
    uint32_t block[16];
    vp_input_block(vp_block, key, nonce, vp_ctr);
    vp_input_block(block, key, nonce, vp_ctr + vp_k / 64);
    vp_kword = vp_u32();
    vp_kbyte = (uint8_t) ((vp_kword + block[(vp_k % 64) / 4]) >> (8 * (vp_k % 4)));
#ifdef VP_STATICS
    /* the contract instrumentation forgets initial values of static variables;
     * h_constant shows that this is the initial value */
    chacha20_constant = (const uint8_t *) "expand 32-byte k";
#endif
    vp_out = malloc(vp_size);
    passgen_chacha20_djb(vp_out, NULL, vp_size, key, nonce, vp_ctr);
    vp_reach("djb");
}

#ifdef VP_PROOF
/* store32_le writes exactly four bytes */
static void c_store_exact(u8 out[4], u32 in)
__CPROVER_requires(__CPROVER_w_ok(out, 4))
__CPROVER_assigns(__CPROVER_object_upto(out, 4))
__CPROVER_ensures(out[0] == (in & 255) && out[1] == ((in >> 8) & 255) && out[2] == ((in >> 16) & 255) && out[3] == in >> 24)
;
void h_store(void) {
    uint8_t b[4];
    store32_le(b, vp_u32());
    vp_reach("store");
}
#endif
#ifdef VP_STATICS
/* words are read little endian, exactly `size` of them */
void h_loadbuf(void) {
    uint8_t b[32]; uint32_t w[9];
    for(int i = 0; i < 32; i++) b[i] = vp_u8();
    size_t size = vp_range(0, 8);
    memset(w, 0xEE, sizeof(w));
    load32_le_buf(w, b, size);
    for(size_t i = 0; i < 9; i++) vp_assert(w[i] == (i < size ? vp_le32(b + 4 * i) : 0xEEEEEEEE), "little endian words");
    vp_reach("loadbuf");
}
void h_constant(void) {
    vp_assert(memcmp(chacha20_constant, "expand 32-byte k", 16) == 0, "the ChaCha constant");
    vp_reach("constant");
}
#endif

/* whole function against the specification, short outputs (this one runs natively) */
#define VP_MAXTEXT 200
void h_djb_short(void) {
    uint8_t key[32], nonce[8], out[VP_MAXTEXT + 1];
    for(int i = 0; i < 32; i++) key[i] = vp_u8();
    for(int i = 0; i < 8; i++) nonce[i] = vp_u8();
    uint64_t ctr = vp_u64();
    size_t size = vp_range(0, VP_MAXTEXT);
    out[size] = 0xA5;
    passgen_chacha20_djb(out, NULL, size, key, nonce, ctr);
    for(size_t b = 0; b * 64 < size; b++) {
        uint32_t in[16], s[16];
        vp_input_block(in, key, nonce, ctr + b);
        memcpy(s, in, sizeof(s));
        vp_rounds(s);
        for(size_t j = 0; j < 64 && b * 64 + j < size; j++)
            vp_assert(out[b * 64 + j] == (uint8_t) ((s[j / 4] + in[j / 4]) >> (8 * (j % 4))), "key stream byte");
    }
    vp_assert(out[size] == 0xA5, "nothing is written past the output");
    vp_reach("djb short");
}

/* ---- passgen_wipe ------------------------------------------------------------------------ */
#ifdef VP_PROOF
void c_wipe_zero(void *secret, size_t size)
__CPROVER_requires(vp_out == (uint8_t *) secret && __CPROVER_w_ok(secret, size))
__CPROVER_assigns(__CPROVER_object_upto(secret, size))
__CPROVER_ensures(!(vp_k < size) || vp_out[vp_k] == 0)
;
#endif
void h_wipe(void) {
    size_t size = vp_range(0, (size_t) 1 << 40);
    vp_k = vp_u64();
    vp_out = malloc(size);
    passgen_wipe(vp_out, size);
    vp_reach("wipe");
}
void h_wipe_short(void) {
    uint8_t b[40];
    size_t size = vp_range(0, 39);
    memset(b, 0xEE, sizeof(b));
    passgen_wipe(b, size);
    for(size_t i = 0; i < 40; i++) vp_assert(b[i] == (i < size ? 0 : 0xEE), "exactly the given bytes are zeroed");
    vp_reach("wipe short");
}
