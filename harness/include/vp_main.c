#include "vp.h"
#ifdef VP_REPLAY
static FILE *vp_f;
uint64_t vp_next(void) {
    unsigned long long v = 0;
    if (!vp_f || fscanf(vp_f, "%llu", &v) != 1) return 0;
    return (uint64_t) v;
}
void vp_fail(const char *msg) { fprintf(stderr, "VP_FAIL: %s\n", msg); fflush(NULL); _Exit(42); }
int main(int argc, char **argv) {
    vp_f = argc > 1 ? fopen(argv[1], "r") : NULL;
    vp_harness();
    return 0;
}
#else
uint64_t vp_log;
int main(void) {
    vp_harness();
    VP_WITNESS("end of harness reached");
    return 0;
}
#endif
