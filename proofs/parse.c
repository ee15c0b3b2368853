/* passgen_parse: the whole text is decoded, tokenised and parsed, in order; it
 * is accepted exactly if each of the parts accepts it. The parts are taken by
 * their contracts (C05, C07, and the other harnesses of C08). */
#include "vp.h"
#include "passgen/passgen.h"
#include "passgen/parser/parser.h"
#include "passgen/parser/token.h"
#include "passgen/util/utf8.h"
uint32_t *vp_buf; uint8_t *vp_widths; size_t vp_n, vp_fed, vp_consumed, vp_total; bool vp_pending, vp_error, vp_done; int vp_tstate;
const uint8_t *vp_string; static passgen_pattern vp_pattern; const passgen_parser *vp_parser; static unsigned vp_inits, vp_frees, vp_finished; static int vp_finish_ret;
#define VP_PARSE_GHOST vp_buf, vp_widths, vp_n, vp_fed, vp_consumed, vp_pending, vp_error, vp_done, vp_tstate, vp_frees
#define VP_FEED_GHOST vp_fed, vp_pending, vp_error, vp_tstate, vp_frees
#define VP_PARSE_ROUND (pattern_raw_pos == vp_consumed && vp_fed == vp_n && !vp_pending && !vp_error && !vp_done && (int) token_parser.state == vp_tstate && vp_frees == 0)
#define VP_PARSE_FED(i) (vp_fed == i && !vp_pending && !vp_error && (int) token_parser.state == vp_tstate && vp_frees == 0)
#ifdef VP_PROOF
#define passgen_parser_init vp_parser_init
#define passgen_parser_free vp_parser_free
#define passgen_utf8_decode vp_decode
#define passgen_token_parse vp_token_parse
#define passgen_parse_token vp_parse_token
#define passgen_parse_finish vp_parse_finish
#define strlen vp_strlen
void vp_parser_init(passgen_parser *p, passgen_pattern *pattern);
passgen_pattern *vp_parser_free(passgen_parser *p);
int vp_decode(uint32_t **output, size_t output_len, uint8_t *widths, const uint8_t **input, size_t input_len);
int vp_token_parse(passgen_token_parser *tp, passgen_token *token, uint8_t width, uint32_t codepoint);
int vp_parse_token(passgen_parser *p, passgen_token *token);
int vp_parse_finish(passgen_parser *p);
size_t vp_strlen(const char *s);
#include "src/passgen.c"
void vp_parser_init(passgen_parser *p, passgen_pattern *pattern) { vp_parser = p; vp_inits++; vp_assert(pattern == &vp_pattern, "into the caller's pattern"); }
passgen_pattern *vp_parser_free(passgen_parser *p) { vp_assert(p == vp_parser, "the parser"); vp_frees++; return &vp_pattern; }
size_t vp_strlen(const char *s) { vp_assert((const uint8_t *) s == vp_string, "the caller's string"); return vp_total; }
int vp_decode(uint32_t **output, size_t output_len, uint8_t *widths, const uint8_t **input, size_t input_len) {
    vp_assert(!vp_error && !vp_done && vp_fed == vp_n && !vp_pending, "the next part when the part before is done");
    vp_assert(*input == vp_string + vp_consumed && input_len == vp_total - vp_consumed, "the rest of the string");
    vp_assert(__CPROVER_w_ok(*output, output_len * sizeof(uint32_t)) && __CPROVER_w_ok(widths, output_len), "room for the characters");
    vp_buf = *output; vp_widths = widths;
    int ret = (int) vp_range(0, 2) - 1;
    vp_n = vp_range(0, output_len); vp_fed = 0;
    if(ret > 0) vp_assume(vp_n > 0);
    size_t k = vp_range(0, input_len);
    vp_assume(k >= vp_n && (ret != 0 || k == input_len));
    vp_consumed += k; *input += k; *output += vp_n;
    if(ret < 0) vp_error = true;
    vp_done = ret == 0;
    return ret;
}
int vp_token_parse(passgen_token_parser *tp, passgen_token *token, uint8_t width, uint32_t codepoint) {
    vp_assert(!vp_pending && !vp_error && (int) tp->state == vp_tstate, "in turns");
    vp_assert(vp_fed < vp_n && codepoint == vp_buf[vp_fed] && width == vp_widths[vp_fed], "every character, in order");
    vp_fed++;
    int ret = (int) vp_range(0, 9) - 4;
    if(ret < 0) { vp_error = true; return ret; }
    vp_tstate = ret; tp->state = (enum passgen_token_state) ret; vp_pending = ret == PASSGEN_TOKEN_INIT;
    token->codepoint = vp_u32();
    return ret;
}
int vp_parse_token(passgen_parser *p, passgen_token *token) {
    vp_assert(p == vp_parser && vp_pending, "every token, once");
    vp_pending = false;
    int ret = vp_bool() ? 0 : (int) vp_u32();
    if(ret) vp_error = true;
    return ret;
}
int vp_parse_finish(passgen_parser *p) {
    vp_assert(p == vp_parser && !vp_pending && !vp_error && vp_done && vp_fed == vp_n && !vp_frees, "at the end");
    vp_finished++;
    return vp_finish_ret;
}
void passgen_error_init_raw(passgen_error *error, const char *message) { error->message = message; }
void passgen_error_offset_set(passgen_error *error, size_t codepoint, size_t byte) {}
void passgen_error_source_set(passgen_error *error, const char *file, size_t line) {}
const char *passgen_token_parse_error_str(int ret) { return "token"; }
const char *passgen_utf8_error(int ret) { return "text"; }
void h_parse(void) {
    vp_total = vp_range(0, 1 << 20);
    vp_string = malloc(vp_total + 1);
    vp_n = vp_fed = vp_consumed = 0; vp_pending = vp_error = vp_done = false; vp_tstate = 0; vp_inits = vp_frees = vp_finished = 0;
    vp_finish_ret = (int) vp_u32();
    static passgen_error error;
    int ret = passgen_parse(&vp_pattern, &error, (const char *) vp_string);
    vp_assert(vp_inits == 1 && vp_frees == 1, "the parser is initialised and released, once");
    vp_assert((ret == 0) == (!vp_error && vp_done && vp_fed == vp_n && vp_tstate == 0 && vp_finished && vp_finish_ret == 0), "accepted if all of it is");
    vp_assert(ret != 0 || (!vp_pending && vp_consumed == vp_total), "the whole text");
    if(ret) vp_reach("rejected"); else vp_reach("accepted");
}
#endif
