/* Common vocabulary of all proof units.
 *
 * One harness text serves three uses:
 *   - goto-cc / cbmc  (VP_PROOF defined): inputs are nondeterministic,
 *     vp_assume restricts them, vp_assert is an obligation;
 *   - native replay of a verifier counterexample: inputs are the values listed
 *     in a file, in the order in which they are asked for;
 *   - native search for a failing input, only after a proof failed: inputs are
 *     pseudo-random; a case whose assumptions do not hold is skipped.
 */
#ifndef VP_H
#define VP_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_PROOF

#define vp_assume(c)      __CPROVER_assume(c)
#define vp_assert(c, msg) __CPROVER_assert((c), msg)
/* Expected to be reported as violated: shows that the harness reaches this
 * point, i.e. that the assumptions and preconditions are satisfiable. */
#define vp_reach(msg)     __CPROVER_assert(0, "VP_REACH " msg)

uint64_t nondet_vp_u64(void);
static inline uint64_t vp_range(uint64_t lo, uint64_t hi) {
    uint64_t vp_input_value = nondet_vp_u64();
    __CPROVER_assume(vp_input_value >= lo && vp_input_value <= hi);
    return vp_input_value;
}

#else /* native */

void vp_native_assume(int c);
void vp_native_assert(int c, const char *msg, const char *file, int line);
void vp_native_reach(const char *msg);
uint64_t vp_native_input(uint64_t lo, uint64_t hi);
#define vp_assume(c)      vp_native_assume(!!(c))
#define vp_assert(c, msg) vp_native_assert(!!(c), msg, __FILE__, __LINE__)
#define vp_reach(msg)     vp_native_reach(msg)
static inline uint64_t vp_range(uint64_t lo, uint64_t hi) {
    return vp_native_input(lo, hi);
}
/* contract clauses mean nothing to the C compiler */
#define __CPROVER_assigns(...)
#define __CPROVER_requires(...)
#define __CPROVER_ensures(...)
#define __CPROVER_frees(...)
#endif

static inline uint64_t vp_u64(void) { return vp_range(0, UINT64_MAX); }
static inline uint32_t vp_u32(void) { return (uint32_t) vp_range(0, UINT32_MAX); }
static inline uint8_t vp_u8(void) { return (uint8_t) vp_range(0, 255); }
static inline bool vp_bool(void) { return vp_range(0, 1) != 0; }

/* memory whose contents do not matter: arbitrary in a proof, a fixed pattern natively */
static inline void vp_fill(void *p, size_t n) {
#ifdef VP_PROOF
    (void) p; (void) n;
#else
    for(size_t i = 0; i < n; i++) ((uint8_t *) p)[i] = (uint8_t) (i * 167 + 13 + (i >> 8) * 31);
#endif
}

/* The library's wipe function by its contract (which C23 proves of the real
 * one in monocypher.c). */
#ifndef VP_OWN_WIPE
void passgen_wipe(void *secret, size_t size) {
    memset(secret, 0, size);
}
#endif

/* The library's debug assertion: by default a failed one is a failed
 * obligation. A unit that defines VP_ASSERT_STOPS treats it as a clean stop
 * of the program (for properties that allow refusing to go on). */
#ifndef VP_OWN_ASSERT_FAIL
void passgen_assert_fail(const char *cond, const char *file, const char *func, size_t line) {
    (void) cond; (void) file; (void) func; (void) line;
#ifndef VP_ASSERT_STOPS
    vp_assert(0, "debug assertion of the library holds");
#endif
    vp_assume(0);
}
#endif
#endif
