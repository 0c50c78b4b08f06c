/* C06: event log over a simulated storage of exactly cap*es bytes. Event value v is spread over es bytes. */
#include "hx.h"
#include "gel/circular_event_log/circular_event_log.h"
static HX_TLS uint8_t *store;
static HX_TLS size_t   cap, es, seq;
static HX_TLS int      save_err, bad_slot = -1, bad_code, oob;
static HX_TLS circular_event_log_t *lg;

static void put_v(uint8_t *p, int v) { p[0] = v & 0xFF; for (size_t i = 1; i < es; i++) p[i] = (uint8_t)((i == 1 ? v >> 8 : v * 7) + i * 3); }
static int  get_v(uint8_t *p) {
    if (es == 1) return p[0];
    int v = p[0] | ((uint8_t)(p[1] - 3) << 8);
    for (size_t i = 2; i < es; i++) if (p[i] != (uint8_t)(v * 7 + i * 3)) return -999;
    return v;
}
static int save(uint8_t *e, size_t pos) {
    HX_PAUSE();
    if (pos >= cap) { oob++; return -99; }
    if (save_err) return save_err;
    memcpy(store + pos * es, e, es);
    HX_PAUSE();
    return 0;
}
static int load(uint8_t *e, size_t n, size_t start) {
    HX_PAUSE();
    if (start > cap || n > cap || start + n > cap) { oob++; return -99; }
    if (bad_slot >= 0 && start <= (size_t)bad_slot && (size_t)bad_slot < start + n) return bad_code;
    memcpy(e, store + start * es, n * es);
    HX_PAUSE();
    return (int)n;
}
static void make(size_t np, int full) {
    circular_event_log_t t = {.next_position = np, .max_events = cap, .event_size = es, .full_circle = full, .save_new_event = save, .load_events = load};
    free(lg);
    lg = hx_exact(sizeof(t), 0xA5);
    memcpy(lg, &t, sizeof(t));
}
static void out(int r, int *d, int n) {
    if (oob) r = -7777; /* the storage was accessed outside [0, cap) */
    printf("{\"r\":%d,\"d\":[", r);
    for (int i = 0; i < n; i++) printf("%s%d", i ? "," : "", d[i]);
    printf("],\"total\":%lld}", (long long)circular_event_log_total_events(*lg));
    hx_end();
}
static size_t big(long long x) { return x < 0 ? (size_t)0 - (size_t)(-x) : (size_t)x; }
int main(int argc, char **argv) {
    es = argc > 1 ? atoi(argv[1]) : 8;
    while (hx_next()) {
        char *op = hx_word();
        if (HX_IS("reset")) { oob = 0; seq = 0; save_err = 0; bad_slot = -1; printf("0"); hx_end(); }
        else if (HX_IS("new")) { cap = hx_int(); seq = 0; free(store); store = hx_exact(cap * es, 0xA5); make(0, 0); out(0, 0, 0); }
        else if (HX_IS("save")) {
            int v = hx_int(); save_err = hx_int();
            uint8_t *e = hx_exact(es, 0);
            put_v(e, v);
            int r = circular_event_log_new_event(lg, e);
            if (get_v(e) != v) r = -1000;
            save_err = 0; free(e); out(r, 0, 0);
        } else if (HX_IS("restore")) { /* any non-zero value is a flag that is up */ make(lg->next_position, lg->full_circle ? (int)(1u << (lg->next_position * 7 + 1) % 32) : 0); out(0, 0, 0); }
        else if (HX_IS("break")) { bad_slot = hx_int(); bad_code = hx_int(); out(0, 0, 0); }
        else if (HX_IS("load")) {
            size_t number = big(hx_int()), jump = big(hx_int()), total = circular_event_log_total_events(*lg);
            size_t room = jump > total ? 0 : number > total - jump ? total - jump : number;
            if (room > cap) room = cap;
            uint8_t *b = hx_exact(room * es, 0xEE);
            int r = circular_event_log_load_last_events(*lg, b, number, jump), *d = malloc(sizeof(int) * (room + 1)), n = 0;
            for (int i = 0; i < r && i < (int)room; i++) d[n++] = get_v(b + i * es);
            out(r, d, n); free(b); free(d);
        } else if (HX_IS("saven")) { /* es = 4: the k-th event ever saved is the number k */
            int k = hx_int(), r = 0;
            while (k-- > 0) {
                uint32_t v = ++seq;
                uint8_t e[4]; memcpy(e, &v, 4);
                int x = circular_event_log_new_event(lg, e);
                if (x) r = x;
                if (circular_event_log_total_events(*lg) != (seq < cap ? seq : cap)) r = -1001;
            }
            out(r, 0, 0);
        } else if (HX_IS("loadn")) {
            size_t number = big(hx_int()), jump = big(hx_int()), total = circular_event_log_total_events(*lg);
            size_t room = jump > total ? 0 : number > total - jump ? total - jump : number;
            if (room > cap) room = cap;
            uint8_t *b = hx_exact(room * 4, 0xEE);
            int r = circular_event_log_load_last_events(*lg, b, number, jump), d[2];
            uint32_t first = 0, v;
            for (int i = 0; i < r && i < (int)room; i++) { memcpy(&v, b + 4 * i, 4); if (i == 0) first = v; else if (v != first + i) { r = -1002; } }
            d[0] = first; d[1] = v;
            out(r, d, r > 0 && room > 0 ? 2 : 0); free(b);
        } else hx_die(op);
    }
    return 0;
}
