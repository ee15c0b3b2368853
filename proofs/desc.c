/* Textual descriptions of randomness sources.
 *
 * The description is a string of any length up to 2^40 in an object of exactly
 * that size. The string functions are taken by their contracts (C standard):
 * strlen gives the distance to the terminator, strchr the first occurrence,
 * strtoull a value, an end and possibly ERANGE. The functions that open the
 * sources record what they were asked for. */
#include "vp.h"
#include <errno.h>
#include "passgen/random.h"

static char *vp_desc; static size_t vp_n;      /* the description and its length */
static size_t vp_j;                              /* one arbitrary index into keys and passphrases */

/* ---- contracts of string functions ---------------------------------------------- */
/* The pieces between colons behind the prefix of length vp_p: [vp_p, vp_pe),
 * [vp_d, vp_de), [vp_t, vp_te). A missing piece is empty and stands at the end. */
static size_t vp_p, vp_pe, vp_d, vp_de, vp_t, vp_te;
/* position of the first ':' at or after a, or the end of the string */
static size_t vp_colon(size_t a) {
#ifdef VP_PROOF
    size_t c = nondet_vp_u64();
    __CPROVER_assume(c >= a && c <= vp_n);
    if(c < vp_n) __CPROVER_assume(vp_desc[c] == ':' && (vp_desc[c + 1] != 0 || c + 1 == vp_n));
    __CPROVER_assume(vp_desc[a] != ':' || c == a);
    return c;
#else
    const char *p = strchr(vp_desc + a, ':');
    return p ? (size_t) (p - vp_desc) : vp_n;
#endif
}
static void vp_pieces(size_t prefix) {
    vp_p = prefix, vp_pe = vp_colon(prefix), vp_d = vp_pe, vp_de = vp_pe, vp_t = vp_pe, vp_te = vp_pe;
    if(vp_pe < vp_n) vp_d = vp_pe + 1, vp_de = vp_t = vp_te = vp_colon(vp_d);
    if(vp_de < vp_n) vp_t = vp_de + 1, vp_te = vp_colon(vp_t);
}
static bool vp_seed_called, vp_seed_ok; static uint64_t vp_seed; 
#ifdef VP_PROOF
static char *vp_strchr(const char *s, int c) {
    vp_assert(__CPROVER_same_object(s, vp_desc) && c == ':', "strchr looks for a colon in the description");
    size_t a = __CPROVER_POINTER_OFFSET(s);
    size_t p = a == vp_p ? vp_pe : a == vp_d ? vp_de : a == vp_t ? vp_te : vp_colon(a);
    return p == vp_n ? NULL : vp_desc + p;
}
static size_t vp_strlen(const char *s) {
    if(__CPROVER_same_object(s, vp_desc)) {
        vp_assert(__CPROVER_POINTER_OFFSET(s) <= vp_n, "strlen of a string");
        return vp_n - __CPROVER_POINTER_OFFSET(s);
    }
    return strlen(s);
}
static unsigned long long vp_strtoull(const char *s, char **end, int base) {
    vp_assert(s == vp_desc + 9 && base == 10, "the number after the prefix, in decimal");
    size_t len = nondet_vp_u64();
    __CPROVER_assume(len <= vp_n - 9 && (vp_desc[9 + len] != 0 || 9 + len == vp_n));
    bool range = nondet_vp_u64() & 1;
    uint64_t v = nondet_vp_u64();
    if(len == 0) v = 0, range = false;
    if(range) { v = UINT64_MAX; errno = ERANGE; }
    if(end) *end = vp_desc + 9 + len;
    vp_seed_called = true; vp_seed = v; vp_seed_ok = 9 + len == vp_n && !range && v != 0;
    return v;
}
/* memcpy by its contract; of long pieces the proof follows byte vp_j and lets
 * one other arbitrary byte of the destination change arbitrarily, which
 * stands for all others because each obligation is about one place */
static bool vp_follow;
static void *vp_memcpy(void *dst, const void *src, size_t n) {
    if(!vp_follow) return memcpy(dst, src, n);
    vp_assert(n == 0 || (__CPROVER_r_ok(src, n) && __CPROVER_w_ok(dst, n)), "memcpy stays inside its source and destination");
    size_t j = nondet_vp_u64();
    if(j < n) ((uint8_t *) dst)[j] = (uint8_t) nondet_vp_u64();
    if(vp_j < n) ((uint8_t *) dst)[vp_j] = ((const uint8_t *) src)[vp_j];
    return dst;
}
#define memcpy vp_memcpy
#define strchr vp_strchr
#define strlen vp_strlen
#define strtoull vp_strtoull
#endif
#include "src/random/random.c"
#undef strchr
#undef memcpy
#undef strlen
#undef strtoull

/* ---- the sources ------------------------------------------------------------------- */
enum { NONE, ZERO, PATH, XORSHIFT, SYSTEM, CHACHA, ARGON };
static int vp_kind; static passgen_random *vp_given, *vp_result;
static const char *vp_path; static uint64_t vp_seed_given;
static uint8_t vp_kj, vp_nj; static bool vp_starts_argon;
static passgen_random *vp_opened(int kind, passgen_random *r) {
    vp_assert(vp_kind == NONE, "at most one source is opened");
    vp_kind = kind; vp_given = r;
    return vp_result;
}
passgen_random *passgen_random_zero_open(passgen_random *r) { return vp_opened(ZERO, r); }
passgen_random *passgen_random_path_open(passgen_random *r, const char *p) { vp_path = p; return vp_opened(PATH, r); }
passgen_random *passgen_random_xorshift_open(passgen_random *r, uint64_t s) { vp_seed_given = s; return vp_opened(XORSHIFT, r); }
passgen_random *passgen_random_system_open(passgen_random *r) { return vp_opened(SYSTEM, r); }
passgen_random *passgen_random_chacha20_open(passgen_random *r, const uint8_t k[32], const uint8_t iv[8]) {
    vp_kj = k[vp_j % 32]; vp_nj = iv[vp_j % 8];
    return vp_opened(CHACHA, r);
}
/* the string s is exactly the piece [a, b); a description has no zero bytes */
static void vp_same_string(const uint8_t *s, size_t a, size_t b) {
    vp_assert(s != NULL, "a string");
    vp_assert(s[b - a] == 0, "not longer than spelled out");
    if(vp_j < b - a) {
        vp_assert(s[vp_j] == (uint8_t) vp_desc[a + vp_j], "every character as spelled out");
    }
}
passgen_random *passgen_random_chacha20_argon2_open(passgen_random *r, const uint8_t *p, const uint8_t *d, const uint8_t *t, passgen_argon2_config *c) {
    vp_assert(vp_starts_argon, "only for this prefix");
    vp_assert(vp_pe - vp_p <= 127 && vp_de - vp_d <= 127 && vp_te - vp_t <= 127 && vp_te == vp_n, "only if everything fits");
    vp_same_string(p, vp_p, vp_pe); vp_same_string(d, vp_d, vp_de); vp_same_string(t, vp_t, vp_te);
    vp_assert(c == NULL, "the default hardness");
    return vp_opened(ARGON, r);
}

static bool vp_is(const char *word) {
    size_t i = 0;
    for(; word[i]; i++) if(i >= vp_n || vp_desc[i] != word[i]) return false;
    return vp_n == i;
}
static bool vp_starts(const char *word) {
    for(size_t i = 0; word[i]; i++) if(i >= vp_n || vp_desc[i] != word[i]) return false;
    return true;
}
/* byte i of the piece [a, b) of the description, zero behind it */
static uint8_t vp_piece(size_t a, size_t b, size_t i) { return i < b - a ? (uint8_t) vp_desc[a + i] : 0; }

static void vp_check_desc(void) {
    passgen_random mem, *r = vp_bool() ? &mem : NULL;
    static passgen_random other;
    vp_result = vp_bool() ? &other : NULL;
    vp_kind = NONE; vp_p = vp_pe = vp_d = vp_de = vp_t = vp_te = -1; vp_seed_called = false;
    vp_starts_argon = vp_starts("chacha20-argon2:");
    if(vp_starts("chacha20:")) vp_pieces(9);
    if(vp_starts_argon) vp_pieces(16);
    passgen_random *got = passgen_random_open(r, vp_desc);
    int want = NONE;
    bool known = true;
    if(vp_is("zero")) want = ZERO;
    else if(vp_is("system")) want = SYSTEM;
    else if(vp_starts("file:")) {
        want = PATH;
        if(vp_kind == PATH) vp_assert(vp_path == vp_desc + 5, "the path after the prefix");
    } else if(vp_starts("xorshift:")) {
#ifdef VP_PROOF
        want = vp_seed_called && vp_seed_ok ? XORSHIFT : NONE;
#else
        size_t i = 9;
        uint64_t v = 0;
        bool fits = true;
        for(; vp_desc[i] >= '0' && vp_desc[i] <= '9'; i++) {
            unsigned __int128 next = (unsigned __int128) v * 10 + (vp_desc[i] - '0');
            if(next > UINT64_MAX) fits = false;
            v = next;
        }
        if(vp_desc[9] == '-' || vp_desc[9] == '+' || vp_desc[9] == ' ' || (vp_desc[9] >= 9 && vp_desc[9] <= 13)) known = false;
        vp_seed = v;
        want = vp_desc[i] == 0 && fits && v != 0 ? XORSHIFT : NONE;
#endif
        if(known && vp_kind == XORSHIFT) vp_assert(vp_seed_given == vp_seed, "exactly the seed that is spelled out");
    } else if(vp_starts("chacha20:")) {
        size_t c = vp_pe;
        if(c - 9 > 32) want = NONE;
        else {
            want = CHACHA;
            if(vp_kind == CHACHA) {
                vp_assert(vp_kj == vp_piece(9, c, vp_j % 32), "exactly the key that is spelled out, padded with zeroes");
                vp_assert(vp_nj == (c == vp_n ? (uint8_t) "passgen"[vp_j % 8] : vp_piece(c + 1, vp_n, vp_j % 8)), "exactly the nonce, or the default one");
            }
        }
    } else if(vp_starts("chacha20-argon2:")) {
        want = vp_pe - vp_p > 127 || vp_de - vp_d > 127 || vp_te - vp_t > 127 || vp_te != vp_n ? NONE : ARGON;
    }
    if(known) {
        vp_assert(vp_kind == want, "the description opens what it names, or is rejected");
        if(want == NONE) vp_assert(got == NULL, "rejected");
        else vp_assert(vp_given == r && got == vp_result, "the source is opened in place and its result returned");
    }
    vp_reach("description");
}

#ifdef VP_PROOF
static void vp_any_desc(void) {
    vp_n = vp_range(0, (size_t) 1 << 40);
    vp_desc = malloc(vp_n + 1);
    __CPROVER_assume(vp_desc[vp_n] == 0);
    for(size_t i = 0; i < 20; i++) if(i < vp_n) __CPROVER_assume(vp_desc[i] != 0);
    vp_j = vp_u64();
}
void h_desc_any(void) {
    vp_any_desc();
    vp_assume(!vp_starts("chacha20-argon2:"));
    vp_follow = false;
    vp_check_desc();
}
void h_desc_argon(void) {
    vp_any_desc();
    vp_assume(vp_starts("chacha20-argon2:"));
    vp_follow = true;
    vp_check_desc();
}
#endif
void h_desc_null(void) {
    passgen_random mem, *r = vp_bool() ? &mem : NULL;
    static passgen_random other;
    vp_result = vp_bool() ? &other : NULL;
    vp_kind = NONE;
    vp_assert(passgen_random_open(r, NULL) == vp_result && vp_kind == SYSTEM && vp_given == r, "without a description the system source is opened");
    vp_reach("no description");
}

/* short descriptions built from pieces that matter (runs natively) */
static void vp_append(char *s, size_t max, const char *t) { size_t l = strlen(s); while(*t && l < max) s[l++] = *t++; s[l] = 0; }
static void vp_letters(char *s, size_t max, size_t n) { for(size_t i = 0; i < n; i++) { char c[2] = {"0123456789abcxyz"[vp_range(0, 15)], 0}; vp_append(s, max, c); } }
void h_desc_short(void) {
    static const char *heads[] = {"zero", "system", "file:", "xorshift:", "chacha20:", "chacha20-argon2:", "", "xorshift", "chacha20", "file", "chacha20-argon2", "System", "zer", "sys"};
    char s[520] = "";
    vp_append(s, 512, heads[vp_range(0, 13)]);
    size_t pieces = vp_range(0, 4);
    for(size_t i = 0; i < pieces; i++) {
        switch(vp_range(0, 6)) {
            case 0: vp_append(s, 512, ":"); break;
            case 1: vp_letters(s, 512, vp_range(0, 40)); break;
            case 2: vp_letters(s, 512, vp_range(120, 135)); break;
            case 3: { char num[30]; snprintf(num, sizeof(num), "%llu", (unsigned long long) vp_u64()); vp_append(s, 512, num); break; }
            case 4: vp_letters(s, 512, vp_range(30, 34)); break;
            case 5: { size_t n = vp_range(1, 24); for(size_t k = 0; k < n; k++) { char d[2] = {'0' + vp_range(0, 9), 0}; vp_append(s, 512, d); } break; }
            case 6: { char o[2] = {vp_range(1, 255), 0}; vp_append(s, 512, o); break; }
        }
    }
    vp_n = strlen(s); vp_desc = malloc(vp_n + 1);
    memcpy(vp_desc, s, vp_n + 1);
    vp_j = vp_range(0, 140);
    vp_check_desc();
    free(vp_desc);
}
