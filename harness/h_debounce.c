/* C09/C10. Model input i drives every physical bit b with map[b] == i; all bits of one model input must agree. */
#include "hx.h"
#ifdef PULSE
#include "gel/debounce/pulsecounter.h"
#define NB PULSE_NUM
static HX_TLS pulse_filter_t *f;
#else
#include "gel/debounce/debounce.h"
#define NB NUM_INPUTS
static HX_TLS debounce_filter_t *f;
#endif
static HX_TLS int n, map[64], d;

static unsigned to_mask(void) {
    int k = hx_int(), v[64];
    if (k != n) hx_die("width");
    for (int i = 0; i < k; i++) v[i] = hx_int();
    unsigned m = 0;
    for (int b = 0; b < NB; b++) if (v[map[b]]) m |= 1u << b;
    return m;
}
/* value of each model input, -5 if its physical bits disagree */
static void collapse(long long *phys) {
    printf("[");
    for (int i = 0; i < n; i++) {
        long long v = -6;
        for (int b = 0; b < NB; b++) if (map[b] == i) v = v == -6 || v == phys[b] ? phys[b] : -5;
        printf("%s%lld", i ? "," : "", v);
    }
    printf("]");
}
static void collapse_mask(unsigned m) { long long p[64]; for (int b = 0; b < NB; b++) p[b] = (m >> b) & 1; collapse(p); }
static void levels(void) {
    long long p[64];
#ifdef PULSE
    for (int b = 0; b < NB; b++) p[b] = pulse_level(f, b);
    collapse(p);
    printf(",\"n\":");
    for (int b = 0; b < NB; b++) p[b] = pulse_count(f, b);
    collapse(p);
#else
    for (int b = 0; b < NB; b++) { p[b] = debounce_read(f, b); if (p[b] != ((debounce_value(f) >> b) & 1)) p[b] = -7; }
    collapse(p);
#endif
}
int main(int argc, char **argv) {
    n = atoi(argv[1]);
    for (int b = 0; b < NB; b++) map[b] = argv[2][b] == '-' ? b : argv[2][b] - '0';
    if (argv[2][0] == '-') for (int b = 0; b < NB; b++) map[b] = b;
    while (hx_next()) {
        char *op = hx_word();
        if (HX_IS("reset")) { free(f); f = hx_exact(sizeof(*f), atoi(argv[3])); printf("0"); hx_end(); continue; }
#ifdef PULSE
        if (HX_IS("init")) { d = hx_int(); int ty = strcmp(hx_word(), "low") == 0; pulse_filter_init(f, ty ? COUNT_LOW_PULSE : COUNT_HIGH_PULSE, to_mask()); printf("{\"c\":0,\"l\":"); }
        else if (HX_IS("filter")) { int r = pulse_filter(f, to_mask(), d); printf("{\"c\":%d,\"l\":", r); }
        else if (HX_IS("hold")) { unsigned m = to_mask(); int k = hx_int(), c = 0; while (k-- > 0) c += pulse_filter(f, m, d) != 0; printf("{\"c\":%d,\"l\":", c); }
        else if (HX_IS("train")) { /* k times: d + 1 samples with the given inputs high, d + 1 with all low */
            unsigned m = to_mask(); int k = hx_int(), c = 0;
            while (k-- > 0) { for (int i = 0; i <= d; i++) c += pulse_filter(f, m, d) != 0; for (int i = 0; i <= d; i++) c += pulse_filter(f, 0, d) != 0; }
            printf("{\"c\":%d,\"l\":", c);
        }
        else if (HX_IS("clear")) { int i = hx_int() - 1; for (int b = 0; b < NB; b++) if (map[b] == i) pulse_clear(f, b); printf("{\"c\":0,\"l\":"); }
        else if (HX_IS("outside")) {
            int bad = 0, ix[] = {-1, NB, NB + 1, -2147483647 - 1, 2147483647, -NB, 2 * NB, 1000, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, -128, -256, -32768, 0x10000001};
            pulse_filter_t keep = *f;
            for (size_t i = 0; i < sizeof ix / sizeof *ix; i++) { if (pulse_level(f, ix[i]) != -1 || pulse_count(f, ix[i]) != -1) bad = 1; pulse_clear(f, ix[i]); }
            if (memcmp(&keep, f, sizeof keep)) bad = 1;
            printf("%d", bad ? -2 : -1); hx_end(); continue;
        }
#else
        if (HX_IS("init")) { d = hx_int(); debounce_filter_init(f); printf("{\"c\":"); collapse_mask(0); printf(",\"l\":"); }
        else if (HX_IS("set")) { d = hx_int(); debounce_filter_set(f, to_mask()); printf("{\"c\":"); collapse_mask(0); printf(",\"l\":"); }
        else if (HX_IS("filter")) { unsigned r = debounce_filter(f, to_mask(), d); printf("{\"c\":"); collapse_mask(r); printf(",\"l\":"); }
        else if (HX_IS("hold")) { /* at which of the k calls each input changed */
            unsigned m = to_mask(); int k = hx_int(); long long at[64] = {0};
            for (int i = 1; i <= k; i++) { unsigned r = debounce_filter(f, m, d); for (int b = 0; b < NB; b++) if (r >> b & 1) at[b] = at[b] ? -9 : i; }
            printf("{\"c\":"); collapse(at); printf(",\"l\":");
        }
        else if (HX_IS("single")) {
            int i = hx_int() - 1, v = hx_int(); unsigned r = 0, hi[] = {1, 2, 0x80000000u, 255};
            for (int b = 0; b < NB; b++) if (map[b] == i) { unsigned x = debounce_filter_single(f, v ? hi[b & 3] : 0, b, d); if (x & ~(1u << b)) x = 0xFFFFFFFF; r |= x; }
            printf("{\"c\":"); collapse_mask(r); printf(",\"l\":");
        } else if (HX_IS("outside")) {
            int bad = 0; size_t ix[] = {NB, NB + 1, (size_t)-1, 1000, 64, 0x100000000ull, 2 * NB, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, (size_t)-256, (size_t)1 << 63};
            for (size_t i = 0; i < sizeof ix / sizeof *ix; i++) if (debounce_read(f, ix[i]) != -1) bad = 1;
            printf("%d", bad ? -2 : -1); hx_end(); continue;
        }
#endif
        else hx_die(op);
        levels();
        printf("}");
        hx_end();
    }
    return 0;
}
