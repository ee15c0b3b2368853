/* UTF-8 decoder and encoder against the Unicode Standard, table 3-7. */
#include "vp.h"

/* ---- specification: the automaton of well-formed UTF-8 (table 3-7) -------- */
struct vp_utf8 {
    unsigned need;          /* continuation bytes still expected */
    uint8_t lo, hi;         /* range of the next continuation byte */
    uint32_t cp;            /* bits collected so far */
    unsigned width;         /* bytes of the current character so far */
    bool bad;               /* an ill-formed sequence was met */
};

static inline bool vp_utf8_start(struct vp_utf8 g) { return g.need == 0 && g.width == 0 && !g.bad; }

/* one byte; afterwards need == 0 && !bad means that a character is complete,
 * its code point is cp and it took `width` bytes. */
static inline struct vp_utf8 vp_utf8_step(struct vp_utf8 g, uint8_t b) {
    struct vp_utf8 n = g;
    if(g.bad) return n;
    if(g.need == 0) {
        n.width = 1; n.lo = 0x80; n.hi = 0xBF; n.need = 0; n.cp = 0;
        if(b <= 0x7F) n.cp = b;
        else if(b >= 0xC2 && b <= 0xDF) { n.need = 1; n.cp = b - 0xC0; }
        else if(b == 0xE0) { n.need = 2; n.lo = 0xA0; n.cp = 0; }
        else if(b >= 0xE1 && b <= 0xEC) { n.need = 2; n.cp = b - 0xE0; }
        else if(b == 0xED) { n.need = 2; n.hi = 0x9F; n.cp = 0xD; }
        else if(b >= 0xEE && b <= 0xEF) { n.need = 2; n.cp = b - 0xE0; }
        else if(b == 0xF0) { n.need = 3; n.lo = 0x90; n.cp = 0; }
        else if(b >= 0xF1 && b <= 0xF3) { n.need = 3; n.cp = b - 0xF0; }
        else if(b == 0xF4) { n.need = 3; n.hi = 0x8F; n.cp = 4; }
        else n.bad = true;
        return n;
    }
    if(b < g.lo || b > g.hi) { n.bad = true; return n; }
    n.need = g.need - 1; n.lo = 0x80; n.hi = 0xBF;
    n.cp = g.cp * 64 + (b - 0x80);
    n.width = g.width + 1;
    return n;
}

/* ---- ghost state of a decoding run ----------------------------------------- */
struct vp_utf8 vp_g;        /* automaton after the bytes consumed so far */
size_t vp_pos, vp_out;      /* bytes consumed, characters completed */
size_t vp_k;                /* an arbitrary character index */
uint32_t vp_kcp; uint8_t vp_kw; /* that character and its width, once seen */
const uint8_t *vp_input;
size_t vp_last;             /* input position after the last complete character */

/* relation between the state of the code's automaton and the specification's */
#define VP_UTF8_REL(state, cp_, g) \
    ((g).bad ? (state) == 1 : (g).need == 0 ? (state) == 0 : \
     ((g).width >= 1 && (g).width <= 3 && (g).need + (g).width <= 4 && \
      (cp_) == (g).cp && \
      (((state) == 2 && (g).need == 1 && (g).lo == 0x80 && (g).hi == 0xBF) || \
       ((state) == 3 && (g).need == 2 && (g).lo == 0x80 && (g).hi == 0xBF) || \
       ((state) == 4 && (g).need == 2 && (g).lo == 0xA0 && (g).hi == 0xBF) || \
       ((state) == 5 && (g).need == 2 && (g).lo == 0x80 && (g).hi == 0x9F) || \
       ((state) == 6 && (g).need == 3 && (g).lo == 0x90 && (g).hi == 0xBF) || \
       ((state) == 7 && (g).need == 3 && (g).lo == 0x80 && (g).hi == 0xBF) || \
       ((state) == 8 && (g).need == 3 && (g).lo == 0x80 && (g).hi == 0x8F))))
static inline bool vp_utf8_rel(uint32_t state, uint32_t cp, struct vp_utf8 g) { return VP_UTF8_REL(state, cp, g); }

#define VP_UTF8_GHOST vp_g, vp_pos, vp_out, vp_kcp, vp_kw, vp_last
#define vp_utf8_decode_invariant(state, cp_, width_, in, out, output, widths) \
    (VP_UTF8_REL(state, cp_, vp_g) && !vp_g.bad && (in) == vp_pos && (out) == vp_out && \
     (width_) == (vp_g.need ? vp_g.width : 0) && vp_out <= vp_pos && vp_g.width <= 4 && \
     (vp_g.need == 0 ? vp_last == vp_pos : vp_last + vp_g.width == vp_pos) && \
     (!(vp_k < vp_out) || ((output)[vp_k] == vp_kcp && (!(widths) || (widths)[vp_k] == vp_kw))))

#include "src/util/utf8.c"

/* Contract of the decoder's step function. The ghost part records what the
 * specification says about the byte; that the code's own state agrees with it
 * is what h_step proves for every state and byte. */
static uint32_t c_step(uint32_t *state, uint32_t *codep, uint32_t byte)
__CPROVER_requires(byte == vp_input[vp_pos] && byte <= 255)
__CPROVER_requires(vp_utf8_rel(*state, *codep, vp_g) && !vp_g.bad)
__CPROVER_assigns(*state, *codep, vp_g, vp_pos, vp_out, vp_kcp, vp_kw, vp_last)
__CPROVER_ensures(vp_pos == __CPROVER_old(vp_pos) + 1)
__CPROVER_ensures(__CPROVER_return_value == *state)
__CPROVER_ensures(vp_c_step_post(*state, *codep, __CPROVER_old(vp_g), __CPROVER_old(vp_out), __CPROVER_old(vp_kcp), __CPROVER_old(vp_kw), __CPROVER_old(vp_last), (uint8_t) byte))
;
static bool vp_c_step_post(uint32_t state, uint32_t cp, struct vp_utf8 og, size_t oout, uint32_t okcp, uint8_t okw, size_t olast, uint8_t byte) {
    struct vp_utf8 n = vp_utf8_step(og, byte);
    bool done = n.need == 0 && !n.bad;
    if(vp_g.need != n.need || vp_g.lo != n.lo || vp_g.hi != n.hi || vp_g.cp != n.cp || vp_g.width != n.width || vp_g.bad != n.bad) return false;
    if(!vp_utf8_rel(state, cp, n)) return false;
    if(done && cp != n.cp) return false;
    if(vp_out != oout + (done ? 1 : 0)) return false;
    if(vp_last != (done ? vp_pos : olast)) return false;
    if(done && oout == vp_k) return vp_kcp == n.cp && vp_kw == n.width;
    return vp_kcp == okcp && vp_kw == okw;
}

/* Every state, every byte: the code's automaton follows the specification's. */
void h_step(void) {
    struct vp_utf8 g;
    g.need = vp_range(0, 3); g.lo = vp_u8(); g.hi = vp_u8();
    g.cp = vp_u32(); g.width = vp_range(0, 4); g.bad = false;
    uint32_t state = vp_range(0, 8), cp = vp_u32();
    uint8_t b = vp_u8();
    vp_assume(vp_utf8_rel(state, cp, g));
    uint32_t r = utf8_decode(&state, &cp, b);
    struct vp_utf8 n = vp_utf8_step(g, b);
    vp_assert(r == state, "step returns the new state");
    vp_assert(vp_utf8_rel(state, cp, n), "state follows table 3-7");
    vp_assert(n.bad || n.need || cp == n.cp, "completed code point is the one encoded");
    vp_reach("step");
}

/* The decode loop, for every input and output length (loop contract). */
int c_decode(uint32_t **output, size_t output_len, uint8_t *output_widths, const uint8_t **input, size_t input_len)
__CPROVER_requires(vp_utf8_start(vp_g) && vp_pos == 0 && vp_out == 0 && vp_last == 0)
__CPROVER_requires(vp_input == *input)
__CPROVER_assigns(*output, *input, vp_g, vp_pos, vp_out, vp_kcp, vp_kw, vp_last;
                  output_len: __CPROVER_object_upto(*output, output_len * sizeof(uint32_t));
                  output_widths && output_len: __CPROVER_object_upto(output_widths, output_len))
__CPROVER_ensures(__CPROVER_return_value == PASSGEN_UTF8_INVALID_CHAR || __CPROVER_return_value == PASSGEN_UTF8_SUCCESS || __CPROVER_return_value == PASSGEN_UTF8_OUTPUT_SIZE)
__CPROVER_ensures((__CPROVER_return_value == PASSGEN_UTF8_INVALID_CHAR) == (vp_g.bad || (vp_pos == input_len && vp_g.need != 0)))
__CPROVER_ensures(__CPROVER_return_value != PASSGEN_UTF8_SUCCESS || (vp_pos == input_len && vp_g.need == 0))
__CPROVER_ensures(__CPROVER_return_value != PASSGEN_UTF8_OUTPUT_SIZE || (vp_pos < input_len && vp_out == output_len && vp_g.need == 0))
__CPROVER_ensures(__CPROVER_return_value == PASSGEN_UTF8_INVALID_CHAR || (*output == __CPROVER_old(*output) + vp_out && *input == __CPROVER_old(*input) + vp_pos))
__CPROVER_ensures(__CPROVER_return_value == PASSGEN_UTF8_INVALID_CHAR || !(vp_k < vp_out) || (__CPROVER_old(*output)[vp_k] == vp_kcp && (!output_widths || output_widths[vp_k] == vp_kw)))
;
void h_decode(void) {
    size_t in_len = vp_range(0, 1u << 28), out_len = vp_range(0, 1u << 28);
    uint8_t *in = malloc(in_len ? in_len : 1);
    uint32_t *out = malloc(out_len ? out_len * sizeof(uint32_t) : 1);
    uint8_t *w = vp_bool() ? malloc(out_len ? out_len : 1) : NULL;
    uint32_t *po = out; const uint8_t *pi = in;
    struct vp_utf8 z = {0};
    vp_g = z; vp_pos = 0; vp_out = 0; vp_last = 0; vp_k = vp_u64(); vp_input = in;
    passgen_utf8_decode(&po, out_len, w, &pi, in_len);
    vp_reach("decode");
}

/* Whole function, short inputs, no loop contract: also the native harness. */
#ifndef VP_MAXIN
#define VP_MAXIN 6
#endif
void h_decode_short(void) {
    uint8_t in[VP_MAXIN]; uint32_t out[VP_MAXIN + 1]; uint8_t w[VP_MAXIN + 1];
    size_t in_len = vp_range(0, VP_MAXIN), out_len = vp_range(0, VP_MAXIN);
    bool widths = vp_bool();
    for(size_t i = 0; i < VP_MAXIN; i++) in[i] = vp_u8();
    for(size_t i = 0; i <= VP_MAXIN; i++) { out[i] = 0xAAAAAAAA; w[i] = 0xAA; }
    /* specification run */
    struct vp_utf8 g = {0};
    uint32_t ecp[VP_MAXIN]; uint8_t ew[VP_MAXIN]; size_t n = 0, pos = 0;
    for(size_t i = 0; i < VP_MAXIN; i++) {
        if(!(i < in_len) || g.bad || n == out_len) continue;
        g = vp_utf8_step(g, in[i]);
        pos = i + 1;
        if(!g.bad && g.need == 0) { ecp[n] = g.cp; ew[n] = g.width; n++; }
    }
    bool bad = g.bad || (pos == in_len && g.need);
    uint32_t *po = out; const uint8_t *pi = in;
    int ret = passgen_utf8_decode(&po, out_len, widths ? w : NULL, &pi, in_len);
    vp_assert((ret == PASSGEN_UTF8_INVALID_CHAR) == bad, "rejected exactly when ill-formed");
    if(!bad) {
        vp_assert(ret == (pos == in_len ? PASSGEN_UTF8_SUCCESS : PASSGEN_UTF8_OUTPUT_SIZE), "result code");
        vp_assert(po == out + n && pi == in + pos, "consumed and produced exactly this much");
        for(size_t i = 0; i < VP_MAXIN; i++)
            if(i < n) {
                vp_assert(out[i] == ecp[i], "decoded code point");
                vp_assert(!widths || w[i] == ew[i], "width of the character");
            }
    }
    for(size_t i = 0; i <= VP_MAXIN; i++)
        if(i >= out_len) vp_assert(out[i] == 0xAAAAAAAA && w[i] == 0xAA, "nothing written past the output");
    vp_reach("decode short");
}

/* ---- encoder --------------------------------------------------------------- */
static inline bool vp_scalar(uint32_t cp) { return cp <= 0x10FFFF && !(cp >= 0xD800 && cp <= 0xDFFF); }

/* run the specification automaton over n bytes; the result must be one character */
static bool vp_is_encoding(const uint8_t *b, int n, uint32_t cp) {
    struct vp_utf8 g = {0};
    if(n < 1 || n > 4) return false;
    for(int i = 0; i < 4; i++)
        if(i < n) {
            if(i && g.need == 0) return false; /* complete before the end */
            g = vp_utf8_step(g, b[i]);
        }
    return !g.bad && g.need == 0 && g.cp == cp;
}

int c_encode_codepoint(uint8_t *out, uint32_t utf)
__CPROVER_requires(__CPROVER_w_ok(out, 4))
__CPROVER_assigns(vp_scalar(utf): __CPROVER_object_upto(out, 4))
__CPROVER_ensures(vp_scalar(utf) ? vp_is_encoding(out, __CPROVER_return_value, utf) : __CPROVER_return_value < 0)
;
void h_encode_codepoint(void) {
    uint8_t out[6], before[6];
    for(int i = 0; i < 6; i++) before[i] = out[i] = vp_u8();
    uint32_t cp = vp_u32();
    int n = passgen_utf8_encode_codepoint(out + 1, cp);
    if(vp_scalar(cp)) {
        vp_assert(n >= 1 && n <= 4, "length of an encoding");
        vp_assert(vp_is_encoding(out + 1, n, cp), "encoding is the well-formed sequence of the code point");
    } else {
        vp_assert(n < 0, "non-scalar value is refused");
        n = 0;
    }
    for(int i = 0; i < 6; i++)
        if(i < 1 || i > n) vp_assert(out[i] == before[i], "nothing else is written");
    vp_reach("encode codepoint");
}

/* encode then decode gives the code point back, for all scalar values */
void h_roundtrip(void) {
    uint32_t cp = vp_range(0, 0x10FFFF);
    vp_assume(vp_scalar(cp));
    uint8_t b[4]; uint32_t out[1]; uint8_t w[1];
    int n = passgen_utf8_encode_codepoint(b, cp);
    uint32_t *po = out; const uint8_t *pi = b;
    vp_assert(n >= 1 && n <= 4, "encodable");
    int r = passgen_utf8_decode(&po, 1, w, &pi, n);
    vp_assert(r == PASSGEN_UTF8_SUCCESS && po == out + 1 && pi == b + n, "decodes as one character");
    vp_assert(out[0] == cp && w[0] == n, "round trip");
    vp_reach("roundtrip");
}

/* sequence encoder: the ghost run counts what was written and read */
size_t vp_eo, vp_ei;   /* output bytes and input code points accounted for */
size_t vp_ek; uint8_t vp_eb; /* arbitrary output index and the byte that belongs there */
bool vp_ebad;
#ifndef VP_MAXENC
#define VP_MAXENC 3
#endif
void h_encode_short(void) {
    uint32_t in[VP_MAXENC]; uint8_t out[4 * VP_MAXENC + 6], before[4 * VP_MAXENC + 6];
    size_t cap = 4 * VP_MAXENC + 6;
    size_t in_len = vp_range(0, VP_MAXENC), out_len = vp_range(0, 4 * VP_MAXENC + 5);
    for(size_t i = 0; i < VP_MAXENC; i++) in[i] = vp_u32();
    for(size_t i = 0; i < cap; i++) before[i] = out[i] = vp_u8();
    size_t op0 = vp_range(0, 6), ip0 = vp_range(0, VP_MAXENC);
    vp_assume(op0 <= out_len && ip0 <= in_len);
    size_t op = op0, ip = ip0;
    int ret = passgen_utf8_encode(out, out_len, &op, in, in_len, &ip);
    vp_assert(op >= op0 && op <= out_len && ip >= ip0 && ip <= in_len, "positions stay inside");
    /* what was written is exactly the encodings of what was consumed */
    size_t pos = op0;
    for(size_t i = 0; i < VP_MAXENC; i++) {
        if(i < ip0 || i >= ip) continue;
        uint8_t e[4];
        vp_assert(vp_scalar(in[i]), "only scalar values are consumed");
        struct vp_utf8 g = {0};
        do {
            vp_assert(pos < op, "encoding complete");
            g = vp_utf8_step(g, out[pos++]);
        } while(!g.bad && g.need);
        vp_assert(!g.bad && g.cp == in[i], "encodings in order");
    }
    vp_assert(pos == op, "nothing but the encodings");
    vp_assert((ret == PASSGEN_UTF8_SUCCESS) == (ip == in_len), "success means everything was encoded");
    vp_assert(ret == PASSGEN_UTF8_SUCCESS || ret == PASSGEN_UTF8_OUTPUT_SIZE || (ret < 0 && !vp_scalar(in[ip])), "error only for a non-scalar value");
    vp_assert(ret != PASSGEN_UTF8_OUTPUT_SIZE || out_len - op <= 4, "gives up only when a character might not fit");
    for(size_t i = 0; i < cap; i++)
        if(i < op0 || i >= out_len || (i > op)) vp_assert(out[i] == before[i], "nothing else is written");
    vp_assert(op >= out_len || ret < 0 || out[op] == 0, "terminated when there is room");
    vp_reach("encode short");
}
