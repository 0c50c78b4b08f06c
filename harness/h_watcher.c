/* C15. args: unit, base timestamp, then per watcher: flavour:size:delay */
#include "hx.h"
#include "gel/data_structures/watcher.h"
#include "gel/timer/timecheck.h"
void x_watcher_trigger_all_cb(watcher_t *list) __asm__("watcher_trigger_all_cb");
#define watcher_trigger_all_cb x_watcher_trigger_all_cb
#define MAXN 700
static HX_TLS int           N, flav[MAXN], size[MAXN];
static HX_TLS timestamp_t   F, base, now;
static HX_TLS unsigned long delay[MAXN];
static HX_TLS uint8_t      *blk[MAXN], *shadow[MAXN];
static HX_TLS watcher_t    *list;
static HX_TLS int           cbs[4096], ncb, bad, si, sj, sv, tag[MAXN];

/* content v: zero bytes except one whose position and value depend on v */
static void put(uint8_t *p, int n, int v) {
    memset(p, 0x30, n);
    if (v > 0) {
        int order = (v - 1) % n, pos = order == 0 ? n - 1 : order == 1 ? 0 : order == 2 ? n / 2 : order == n / 2 ? 2 % n : order == n - 1 ? 1 % n : order;
        p[pos] ^= 1 + (v - 1) / n;
    }
}
static void set(int i, int v) { put(blk[i], size[i], v); put(shadow[i], size[i], v); }
static void cb(void *mem, void *data) {
    HX_PAUSE();
    int i = (int *)data - tag;
    if (i < 0 || i >= N || mem != blk[i] || memcmp(blk[i], shadow[i], size[i])) { bad = 1; return; }
    if (ncb < 4096) cbs[ncb++] = i + 1;
    if (si == i + 1) set(sj - 1, sv);
    HX_PAUSE();
}
static void fresh(void) {
#if GEL_MALLOC_AVAILABLE
    if (list) for (int i = 0; i < N; i++) free(list[i].old);
#endif
    free(list);
    list = hx_exact(sizeof(watcher_t) * (N + 1), 0x5A);
    for (int i = 0; i < N; i++) {
        free(blk[i]); free(shadow[i]);
        blk[i] = hx_exact(size[i], 0); shadow[i] = hx_exact(size[i], 0);
        set(i, 0);
        void *b = blk[i], *d = &tag[i];
        watcher_t t;
        switch (flav[i]) {
            case 0: t = delay[i] ? WATCHER_DELAYED_ARRAY((uint8_t *)b, size[i], cb, d, delay[i]) : WATCHER_ARRAY((uint8_t *)b, size[i], cb, d); break;
            case 1: t = delay[i] ? WATCHER_DELAYED((uint32_t *)b, cb, d, delay[i]) : WATCHER((uint32_t *)b, cb, d); break;
            case 2: t = delay[i] ? WATCHER_DELAYED_ARRAY((uint16_t *)b, size[i] / 2, cb, d, delay[i]) : WATCHER_ARRAY((uint16_t *)b, size[i] / 2, cb, d); break;
            case 3: t = delay[i] ? WATCHER_DELAYED((struct { uint8_t x[7]; } *)b, cb, d, delay[i]) : WATCHER((struct { uint8_t x[7]; } *)b, cb, d); break;
            default: t = delay[i] ? WATCHER_DELAYED((uint8_t *)b, cb, d, delay[i]) : WATCHER((uint8_t *)b, cb, d); break;
        }
        list[i] = t;
    }
    watcher_t z = WATCHER_NULL;
    list[N] = z;
    watcher_list_init(list);
    now = base;
}
int main(int argc, char **argv) {
    F = strtoul(argv[1], 0, 0); base = strtoul(argv[2], 0, 0);
    N = argc - 3;
    for (int i = 0; i < N; i++) {
        unsigned long d;
        if (sscanf(argv[3 + i], "%d:%d:%lu", &flav[i], &size[i], &d) != 3) hx_die("args");
        delay[i] = d * F;
    }
    while (hx_next()) {
        char *op = hx_word();
        int   r = 0;
        ncb = bad = si = 0;
        if (HX_IS("reset")) { fresh(); printf("0"); hx_end(); continue; }
        else if (HX_IS("mod")) { int i = hx_int(); set(i - 1, hx_int()); }
        else if (HX_IS("process")) { now += F * hx_int(); si = hx_int(); sj = hx_int(); sv = hx_int(); r = watcher_process_changes(list, now); }
        else if (HX_IS("check")) r = watcher_check_for_changes(list);
        else if (HX_IS("clear")) { now += F * hx_int(); watcher_clear_changes(list, now); }
        else if (HX_IS("trig")) watcher_trigger_cb(list, (int)hx_int() - 1);
        else if (HX_IS("trigall")) watcher_trigger_all(list);
        else if (HX_IS("trigallcb")) watcher_trigger_all_cb(list);
        else hx_die(op);
        for (int i = 0; i < N; i++) if (memcmp(blk[i], shadow[i], size[i])) bad = 1;
        printf("[%d,[", r);
        for (int i = 0; i < ncb; i++) printf("%s%d", i ? "," : "", cbs[i]);
        printf("],%d]", bad);
        hx_end();
    }
    return 0;
}
