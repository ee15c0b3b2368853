/* SipHash-2-4 (Aumasson, Bernstein) with 64- and 128-bit output. */
#include "vp.h"

/* ---- specification -------------------------------------------------------------- */
static uint64_t vp_rotl64(uint64_t x, unsigned n) { return (x << n) | (x >> (64 - n)); }
static void vp_sipround(uint64_t v[4]) {
    v[0] += v[1]; v[1] = vp_rotl64(v[1], 13); v[1] ^= v[0]; v[0] = vp_rotl64(v[0], 32);
    v[2] += v[3]; v[3] = vp_rotl64(v[3], 16); v[3] ^= v[2];
    v[0] += v[3]; v[3] = vp_rotl64(v[3], 21); v[3] ^= v[0];
    v[2] += v[1]; v[1] = vp_rotl64(v[1], 17); v[1] ^= v[2]; v[2] = vp_rotl64(v[2], 32);
}
/* little endian word of the n <= 8 bytes at p */
static uint64_t vp_le(const uint8_t *p, unsigned n) {
    uint64_t x = 0;
    for(unsigned i = 0; i < 8; i++) if(i < n) x |= (uint64_t) p[i] << (8 * i);
    return x;
}
static void vp_compress(uint64_t v[4], uint64_t m) {
    v[3] ^= m; vp_sipround(v); vp_sipround(v); v[0] ^= m;
}
static void vp_start(uint64_t v[4], const uint8_t *key, bool wide) {
    uint64_t k0 = vp_le(key, 8), k1 = vp_le(key + 8, 8);
    v[0] = k0 ^ 0x736f6d6570736575; v[1] = k1 ^ 0x646f72616e646f6d; v[2] = k0 ^ 0x6c7967656e657261; v[3] = k1 ^ 0x7465646279746573;
    if(wide) v[1] ^= 0xee;
}
static uint64_t vp_end(uint64_t v[4], uint64_t rest, bool wide) {
    vp_compress(v, rest);
    v[2] ^= wide ? 0xee : 0xff;
    vp_sipround(v); vp_sipround(v); vp_sipround(v); vp_sipround(v);
    return v[0] ^ v[1] ^ v[2] ^ v[3];
}
static uint64_t vp_end2(uint64_t v[4]) {
    v[1] ^= 0xdd;
    vp_sipround(v); vp_sipround(v); vp_sipround(v); vp_sipround(v);
    return v[0] ^ v[1] ^ v[2] ^ v[3];
}

/* ---- ghost state: the specification's state, round by round --------------------------
 * SipHash is a sequence of rounds: two per eight-byte word of the message (the
 * last word holds the rest and the length), each pair between v3 ^= word and
 * v0 ^= word, four for the first output word, four more for the second. */
uint64_t vp_v[4], vp_first, vp_m; size_t vp_words, vp_len; unsigned vp_phase; bool vp_wide, vp_tail; const uint8_t *vp_in;
#define VP_SIP_GHOST __CPROVER_object_whole(vp_v), vp_words, vp_phase, vp_m, vp_tail
#define VP_BYTE(i) ((uint64_t) vp_in[8 * vp_words + (i)] << (8 * (i)))
#define VP_REST(i) (i < vp_len % 8 ? VP_BYTE(i) : 0)
static void vp_sip_round_start(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
    if(vp_phase == 0) {
        if(!vp_tail) vp_m = VP_BYTE(0) | VP_BYTE(1) | VP_BYTE(2) | VP_BYTE(3) | VP_BYTE(4) | VP_BYTE(5) | VP_BYTE(6) | VP_BYTE(7);
        vp_v[3] ^= vp_m;
    }
    if(vp_phase == 2) vp_v[0] ^= vp_m, vp_v[2] ^= vp_wide ? 0xee : 0xff;
    if(vp_phase == 6) vp_first = vp_v[0] ^ vp_v[1] ^ vp_v[2] ^ vp_v[3], vp_v[1] ^= 0xdd;
    vp_assert(a == vp_v[0] && b == vp_v[1] && c == vp_v[2] && d == vp_v[3], "a round starts from the state of the specification");
}
/* what the code's round yields is what SipHash's round yields: h_round */
static void vp_sip_round_end(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
    vp_v[0] = a; vp_v[1] = b; vp_v[2] = c; vp_v[3] = d;
    vp_phase++;
}
/* Where the code is about to read a word, or the rest: the ghost state has done the same words. */
static const uint8_t *vp_sip_at_word(void) {
    vp_assert(vp_words < vp_len / 8 && vp_phase == 0 && !vp_tail, "a whole word is left");
    vp_phase = 0; vp_tail = false;
    return vp_in + 8 * vp_words;
}
static void vp_sip_word_done(void) { vp_v[0] ^= vp_m; vp_words++; vp_phase -= 2; }
static const uint8_t *vp_sip_at_rest(void) {
    vp_assert(vp_words == vp_len / 8 && vp_phase == 0, "all whole words are done");
    vp_phase = 0; vp_tail = true;
    vp_m = VP_REST(0) | VP_REST(1) | VP_REST(2) | VP_REST(3) | VP_REST(4) | VP_REST(5) | VP_REST(6) | (uint64_t) vp_len << 56;
    return vp_in + 8 * vp_words;
}
#define vp_sip_invariant(ni, v0, v1, v2, v3) \
    (vp_phase == 0 && !vp_tail && vp_words <= vp_len / 8 && (ni) == vp_in + 8 * vp_words && (v0) == vp_v[0] && (v1) == vp_v[1] && (v2) == vp_v[2] && (v3) == vp_v[3])

#include "src/util/siphash.c"

#if defined(VP_PROOF) && !defined(PASSGEN_VERIFY) && defined(VP_STATICS)
/* one round, any state */
void h_round(void) {
    uint64_t v[4], v0 = v[0] = vp_u64(), v1 = v[1] = vp_u64(), v2 = v[2] = vp_u64(), v3 = v[3] = vp_u64();
    SIPROUND;
    vp_sipround(v);
    vp_assert(v0 == v[0] && v1 == v[1] && v2 == v[2] && v3 == v[3], "a round of SipHash");
    vp_reach("round");
}
#endif
#ifdef VP_PROOF
/* every key and data, any length */
void h_siphash(void) {
    size_t inlen = vp_range(0, (size_t) 1 << 40), outlen = vp_bool() ? 8 : 16;
    uint8_t *in = malloc(inlen), key[16], out[24];
    for(int i = 0; i < 16; i++) key[i] = vp_u8();
    vp_start(vp_v, key, outlen == 16);
    vp_len = inlen; vp_wide = outlen == 16; vp_words = 0; vp_phase = 0; vp_tail = false; vp_in = in;
    for(int i = 0; i < 24; i++) out[i] = 0xA5;
    passgen_siphash(in, inlen, key, out, outlen);
    vp_assert(vp_tail && vp_words == vp_len / 8 && vp_phase == (vp_wide ? 10 : 6), "exactly the rounds of SipHash-2-4");
    vp_assert(vp_le(out + (vp_wide ? 8 : 0), 8) == (vp_v[0] ^ vp_v[1] ^ vp_v[2] ^ vp_v[3]), "the last eight bytes of the hash");
    if(vp_wide) vp_assert(vp_le(out, 8) == vp_first, "the first eight bytes of the wide hash");
    for(int i = 0; i < 24; i++) if(i >= outlen) vp_assert(out[i] == 0xA5, "writes exactly the output");
    vp_reach("siphash");
}
#endif
/* short data, without loop contract: also runs natively */
#ifndef VP_MAXSIP
#ifdef VP_NATIVE
#define VP_MAXSIP 1100
#else
#define VP_MAXSIP 33
#endif
#endif
void h_siphash_short(void) {
    static uint8_t buf[VP_MAXSIP];
    size_t inlen = vp_range(0, VP_MAXSIP), outlen = vp_bool() ? 8 : 16;
    uint8_t *in = buf + VP_MAXSIP - inlen, key[16], out[24];
    for(size_t i = 0; i < VP_MAXSIP; i++) if(i < inlen) in[i] = vp_u8();
    for(int i = 0; i < 16; i++) key[i] = vp_u8();
    for(int i = 0; i < 24; i++) out[i] = 0xA5;
    uint64_t v[4];
    vp_start(v, key, outlen == 16);
    for(size_t i = 0; i < VP_MAXSIP / 8; i++) if(i < inlen / 8) vp_compress(v, vp_le(in + 8 * i, 8));
    passgen_siphash(in, inlen, key, out, outlen);
    vp_assert(vp_le(out, 8) == vp_end(v, vp_le(in + inlen / 8 * 8, inlen % 8) | (uint64_t) inlen << 56, outlen == 16), "the hash, or the first half of the wide one");
    if(outlen == 16) vp_assert(vp_le(out + 8, 8) == vp_end2(v), "the second half of the wide hash");
    for(int i = 0; i < 24; i++) if(i >= outlen) vp_assert(out[i] == 0xA5, "writes exactly the output");
    vp_reach("siphash");
}
