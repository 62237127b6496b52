/* Native runtime: replays recorded values against the real build.
 * Exit codes: 0 completed, 77 an assumption did not hold, 78 assertion
 * violated, 79 input exhausted/mismatch; anything else is a crash. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"

static FILE *in;

uint64_t vp_sym(unsigned bits, const char *name)
{
    char line[512], n[256];
    unsigned b;
    unsigned long long v;
    do {
        if (!fgets(line, sizeof line, in)) {
            /* inputs the counterexample never reached */
            fprintf(stderr, "VP: input exhausted at %s\n", name);
            exit(79);
        }
    } while (line[0] == '#' || line[0] == '\n');
    if (sscanf(line, "%255s %u %llx", n, &b, &v) != 3 || strcmp(n, name) || b != bits) {
        fprintf(stderr, "VP: input mismatch: wanted %s/%u, got %s", name, bits, line);
        exit(79);
    }
    return bits < 64 ? v & ((1ULL << bits) - 1) : v;
}
void vp_assume_(int cond) { if (!cond) { printf("VP-ASSUME-FAILED\n"); exit(77); } }
void vp_assert_(int cond, const char *msg) { if (!cond) { printf("VP-ASSERT-FAILED %s\n", msg); exit(78); } }
void vp_cover_(const char *label) { printf("VP-COVER %s\n", label); }
uint64_t vp_concrete(uint64_t v) { return v; }
uint64_t vp_urem(uint64_t a, uint64_t b) { return a % b; }
int main(int argc, char **argv)
{
    in = fopen(argv[1], "r");
    if (!in) { perror(argv[1]); return 99; }
    setvbuf(stdout, NULL, _IOLBF, 0);
    vp_main();
    printf("VP-DONE\n");
    return 0;
}
