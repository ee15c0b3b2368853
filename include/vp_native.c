/* Native driver for a harness: replay of a counterexample, or random search.
 *   prog replay FILE            values in FILE, one decimal number per line
 *   prog search SEED SECONDS LOG   the inputs of the current case are kept in
 *                               LOG (shared mapping), so they survive a crash
 * exit 0: nothing failed; 1: an obligation failed (message on stdout);
 * 4: the replayed inputs do not satisfy the assumptions. A sanitizer report or
 * a signal ends with another code. */
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

void VP_ENTRY(void);
#define MAXIN 4096
struct shared { uint64_t n; uint64_t v[MAXIN]; };
static struct shared *in;
static struct shared local;
static uint64_t replay_n, replay_pos;
static int mode; /* 0 replay, 1 search */
static uint64_t rng;
static jmp_buf skip;
static int skipped;
static uint64_t cases, reached;

static uint64_t next(void) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1DULL;
}
static uint64_t pick(uint64_t lo, uint64_t hi) {
    uint64_t span = hi - lo, r = next();
    if(span == 0) return lo;
    switch(r % 8) {
        case 0: return lo;
        case 1: return hi;
        case 2: case 3: { uint64_t m = span < 16 ? span : 16; return lo + (r >> 8) % (m + 1); }
        case 4: { uint64_t m = span < 8 ? span : 8; return hi - (r >> 8) % (m + 1); }
        case 5: { /* around a power of two, or an ASCII character */
            uint64_t v = (r >> 8) & 1 ? 33 + (r >> 16) % 94 : (1ULL << ((r >> 16) % 64)) + (r >> 32) % 5 - 2;
            if(v >= lo && v <= hi) return v; }
        /* fall through */
        default: { uint64_t q = next(); q >>= (r >> 8) % 64; if(span != UINT64_MAX) q %= span + 1; return lo + q; }
    }
}
uint64_t vp_native_input(uint64_t lo, uint64_t hi) {
    if(mode == 0) {
        uint64_t v = replay_pos < replay_n ? in->v[replay_pos] : lo;
        replay_pos++;
        if(v < lo || v > hi) { skipped = 1; longjmp(skip, 1); }
        return v;
    }
    uint64_t v = pick(lo, hi);
    if(in->n < MAXIN) in->v[in->n++] = v;
    return v;
}
void vp_native_assume(int c) { if(!c) { skipped = 1; longjmp(skip, 1); } }
void vp_native_assert(int c, const char *msg, const char *file, int line) {
    if(c) return;
    printf("FAILED OBLIGATION: %s (%s:%d)\n", msg, file, line);
    printf("INPUTS:");
    uint64_t n = mode ? in->n : replay_n;
    for(uint64_t i = 0; i < n; i++) printf(" %llu", (unsigned long long) in->v[i]);
    printf("\n");
    fflush(stdout);
    _exit(1);
}
void vp_native_reach(const char *msg) { (void) msg; reached++; }
static void on_alarm(int s) { (void) s; static const char m[] = "FAILED OBLIGATION: call does not return\n"; (void)!write(1, m, sizeof(m) - 1); _exit(5); }

int main(int argc, char **argv) {
    signal(SIGALRM, on_alarm);
    if(argc >= 3 && !strcmp(argv[1], "replay")) {
        in = &local; mode = 0;
        FILE *f = fopen(argv[2], "r");
        unsigned long long v;
        while(f && replay_n < MAXIN && fscanf(f, "%llu", &v) == 1) local.v[replay_n++] = v;
        alarm(20);
        if(!setjmp(skip)) VP_ENTRY();
        if(skipped) { printf("inputs do not satisfy the assumptions\n"); return 4; }
        printf("no obligation failed\n");
        return 0;
    }
    if(argc >= 5 && !strcmp(argv[1], "search")) {
        mode = 1;
        rng = strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
        double secs = atof(argv[3]);
        int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0600);
        if(fd < 0 || ftruncate(fd, sizeof(struct shared))) return 9;
        in = mmap(NULL, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        struct timespec a, b;
        clock_gettime(CLOCK_MONOTONIC, &a);
        for(;;) {
            in->n = 0;
            alarm(10);
            if(!setjmp(skip)) VP_ENTRY();
            cases++;
            if((cases & 63) == 0) {
                clock_gettime(CLOCK_MONOTONIC, &b);
                if((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) / 1e9 > secs) break;
            }
        }
        printf("cases=%llu reached=%llu\n", (unsigned long long) cases, (unsigned long long) reached);
        return 0;
    }
    return 9;
}
