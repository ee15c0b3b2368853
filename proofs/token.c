/* The tokenizer: one step from every state that can occur, for every code
 * point, against the specification's automaton; plus whole token strings. */
#include "vp.h"
#include "src/parser/token.c"

#define ESCAPED ((uint32_t) 1 << 30)
/* the specification: what a token in progress looks like */
enum vp_mode { PLAIN, AFTER_BACKSLASH, AFTER_U, IN_BRACES, BAD };
struct vp_tok { enum vp_mode mode; unsigned digits; uint32_t value; size_t chars, bytes, start_char, start_byte; bool done; uint32_t token; };

static int vp_hex(uint32_t c) {
    if(c >= '0' && c <= '9') return c - '0';
    if(c >= 'a' && c <= 'f') return c - 'a' + 10;
    if(c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
static struct vp_tok vp_next(struct vp_tok s, uint32_t c, uint8_t width) {
    if(s.mode == BAD) { s.done = false; return s; }
    if(s.mode == PLAIN) s.start_char = s.chars, s.start_byte = s.bytes;
    s.chars++; s.bytes += width; s.done = false;
    switch(s.mode) {
    case PLAIN:
        if(c == '\\') s.mode = AFTER_BACKSLASH;
        else s.done = true, s.token = c;
        break;
    case AFTER_BACKSLASH:
        if(c == 'u') { s.mode = AFTER_U; break; }
        s.done = true; s.mode = PLAIN;
        s.token = c == 'a' ? 7 : c == 'b' ? 8 : c == 'e' ? 27 : c == 'f' ? 12 : c == 'n' ? 10 : c == 'r' ? 13 : c == 't' ? 9 : c == 'v' ? 11 : c == '\\' ? '\\' : (c | ESCAPED);
        break;
    case AFTER_U:
        s.mode = c == '{' ? IN_BRACES : BAD;
        s.digits = 0; s.value = 0;
        break;
    case IN_BRACES:
        if(c == '}') s.done = true, s.token = s.value, s.mode = PLAIN;
        else if(s.digits == 6 || vp_hex(c) < 0) s.mode = BAD;
        else s.value = s.value * 16 + vp_hex(c), s.digits++;
        break;
    default: break;
    }
    return s;
}
/* the code's data against the specification's */
static void vp_related(passgen_token_parser *p, passgen_token *t, struct vp_tok *s, int ret, const char *when) {
    vp_assert(ret == p->state || when, "the state is returned");
    switch(s->mode) {
    case PLAIN: vp_assert(p->state == PASSGEN_TOKEN_INIT, "a token is complete"); break;
    case AFTER_BACKSLASH: vp_assert(p->state == PASSGEN_TOKEN_ESCAPED, "a backslash starts an escape"); break;
    case AFTER_U: vp_assert(p->state == PASSGEN_TOKEN_UNICODE, "backslash u starts a unicode literal"); break;
    case IN_BRACES:
        vp_assert(p->state == PASSGEN_TOKEN_UNICODE_PAYLOAD, "inside a unicode literal");
        vp_assert(p->data.unicode_payload.length == s->digits && p->data.unicode_payload.codepoint == s->value, "the digits so far");
        break;
    default: vp_assert(p->state < 0, "an error"); break;
    }
    if(s->mode != BAD) {
        vp_assert(p->offset == s->chars && p->byte_offset == s->bytes, "characters and bytes are counted");
        vp_assert(t->offset == s->start_char && t->byte_offset == s->start_byte, "the token's position is where it started");
    }
    if(s->done) vp_assert(t->codepoint == s->token, "the token's value");
}

void h_token_step(void) {
    passgen_token_parser p; passgen_token t; struct vp_tok s;
    vp_fill(&p, sizeof p); vp_fill(&t, sizeof t); vp_fill(&s, sizeof s);
    s.mode = vp_range(PLAIN, BAD); s.digits = vp_range(0, 6); s.value = vp_u32(); s.done = false; s.token = 0;
    vp_assume(s.value >> (4 * s.digits) == 0);
    s.chars = vp_u64(); s.bytes = vp_u64(); s.start_char = vp_u64(); s.start_byte = vp_u64();
    p.offset = s.chars; p.byte_offset = s.bytes; t.offset = s.start_char; t.byte_offset = s.start_byte; t.codepoint = vp_u32();
    int err = vp_range(1, 3);
    switch(s.mode) {
    case PLAIN: p.state = PASSGEN_TOKEN_INIT; break;
    case AFTER_BACKSLASH: p.state = PASSGEN_TOKEN_ESCAPED; break;
    case AFTER_U: p.state = PASSGEN_TOKEN_UNICODE; break;
    case IN_BRACES: p.state = PASSGEN_TOKEN_UNICODE_PAYLOAD; p.data.unicode_payload.length = s.digits; p.data.unicode_payload.codepoint = s.value; break;
    default: p.state = (enum passgen_token_state) -err; break;
    }
    int before = p.state;
    uint32_t c = vp_range(0, 0x10FFFF); uint8_t w = vp_u8();
    int ret = passgen_token_parse(&p, &t, w, c);
    if(s.mode == BAD) vp_assert(ret == before && p.state == before, "an error sticks");
    s = vp_next(s, c, w);
    vp_assert((ret == PASSGEN_TOKEN_INIT) == s.done, "a token is reported exactly when one is complete");
    vp_assert((ret < 0) == (s.mode == BAD), "an error is reported exactly when there is one");
    vp_assert(ret >= 0 || passgen_token_parse_error_str(ret) != NULL, "errors have a message");
    vp_related(&p, &t, &s, ret, NULL);
    vp_reach("step");
}
void h_token_init(void) {
    passgen_token_parser p; passgen_token t; struct vp_tok s = {0};
    vp_fill(&p, sizeof p); vp_fill(&t, sizeof t);
    passgen_token_parser_init(&p);
    vp_assert(p.state == PASSGEN_TOKEN_INIT && p.offset == 0 && p.byte_offset == 0, "ready at the start");
    vp_reach("init");
}
/* whole strings, natively */
void h_token_string(void) {
    passgen_token_parser p; passgen_token t = {0}; struct vp_tok s = {0};
    passgen_token_parser_init(&p);
    static const uint32_t alphabet[] = {'\\', '\\', '\\', 'u', 'u', '{', '}', 'a', 'b', 'e', 'f', 'n', 'r', 't', 'v', '0', '9', 'A', 'F', 'G', 'g', '/', ':', '@', '[', '|', 0x1F600, 0xE4, 0x10FFFF, 0, 0x15C, 0x17D};
    for(int i = vp_range(1, 40); i; i--) {
        uint32_t c = vp_bool() ? alphabet[vp_range(0, 31)] : vp_range(0, 0x10FFFF);
        uint8_t w = vp_range(1, 4);
        int ret = passgen_token_parse(&p, &t, w, c);
        s = vp_next(s, c, w);
        vp_assert((ret == PASSGEN_TOKEN_INIT) == s.done && (ret < 0) == (s.mode == BAD), "tokens and errors where they belong");
        vp_related(&p, &t, &s, ret, NULL);
    }
}
