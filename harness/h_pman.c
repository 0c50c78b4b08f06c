/* C22. PTYPES 0: integers, 1: pointers and no view (as in the template configuration).
   PAGES: for each page its id and the letters of its callbacks, e.g. {1,"cokdu"}. */
#include "hx.h"
#include "gel/pagemanager/page_manager.h"
#define AS(T, v) ((T)(long)(v))
#define INT(v) ((long)(v))
static HX_TLS page_manager_t *pm;
static HX_TLS long            nextdata, lastview;
static HX_TLS char            logb[1 << 16];
static HX_TLS int             nlog;
static void rec(const char *what, int p, long m, long d, long x, long ev) {
    HX_PAUSE();
    if (strlen(logb) < sizeof logb - 200) sprintf(logb + strlen(logb), "%s[\"%s\",%d,%ld,%ld,%ld,%ld]", nlog++ ? "," : "", what, p, m, d, x, ev);
    HX_PAUSE();
}
#if PTYPES
#define RETV(v) { lastview = (v); return; }
#define CALLV(c) ((c), lastview)
#define VOID_UPD
#else
#define RETV(v) { return (v); }
#define CALLV(c) ((long)(c))
#endif
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
#define UPD(P) static pman_view_t update##P(pman_model_t m, pman_page_data_t d) { rec("update", P, INT(m), INT(d), 0, 0); RETV(1000 + INT(d)) }
#else
#define UPD(P)
#endif
#define PAGE(P)                                                                                                                        \
    static pman_page_data_t create##P(pman_model_t m, void *x) { rec("create", P, INT(m), 0, INT(x), 0); return AS(pman_page_data_t, nextdata); } \
    static void destroy##P(pman_page_data_t d, void *x) { rec("destroy", P, 0, INT(d), INT(x), 0); }                                    \
    static void open##P(pman_model_t m, pman_page_data_t d) { rec("open", P, INT(m), INT(d), 0, 0); }                                  \
    static void close##P(pman_page_data_t d) { rec("close", P, 0, INT(d), 0, 0); }                                                     \
    UPD(P)                                                                                                                             \
    static pman_message_t event##P(pman_model_t m, pman_page_data_t d, pman_event_t e) { rec("event", P, INT(m), INT(d), 0, INT(e)); return AS(pman_message_t, 2000 + INT(e)); }
PAGE(1) PAGE(2) PAGE(3) PAGE(4) PAGE(5) PAGE(6) PAGE(7) PAGE(8) PAGE(9) PAGE(10) PAGE(11) PAGE(12) PAGE(13)
static struct { int id; const char *cb; } conf[] = {PAGES};
static pman_page_t describe(int p) {
    pman_page_t d;
    const char *c = conf[p - 1].cb;
    memset(&d, 0, sizeof d);
    d.data = AS(pman_page_data_t, 999); d.extra = AS(void *, 998);   /* whatever the caller left there is not used */
    d.id = conf[p - 1].id;
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
#define U(P) if (strchr(c, 'u')) d.update = update##P;
#else
#define U(P)
#endif
#define D(P) if (p == P) { if (strchr(c, 'c')) d.create = create##P; if (strchr(c, 'o')) d.open = open##P; if (strchr(c, 'k')) d.close = close##P; \
                           if (strchr(c, 'd')) d.destroy = destroy##P; U(P) d.process_event = event##P; }
    D(1) D(2) D(3) D(4) D(5) D(6) D(7) D(8) D(9) D(10) D(11) D(12) D(13)
    return d;
}
int main(void) {
    while (hx_next()) {
        char *op = hx_word();
        long  r = 0;
        int   found = 77;
        uint8_t f = 77;
        if (HX_IS("reset")) { free(pm); pm = hx_exact(sizeof *pm, 0x5A); pman_init(pm); printf("0"); hx_end(); continue; }
        logb[0] = 0; nlog = 0; lastview = 0;
        if (HX_IS("init")) pman_init(pm);
        else if (HX_IS("change") || HX_IS("swap") || HX_IS("rebase")) {
            int p = hx_int(); long d = hx_int(), x = hx_int(), m = hx_int();
            pman_page_t pg = describe(p);
            pman_model_t mm = AS(pman_model_t, m);
            nextdata = d;
            if (x) { void *xx = AS(void *, x); r = *op == 'c' ? CALLV(pman_change_page_extra(pm, mm, pg, xx)) : *op == 's' ? CALLV(pman_swap_page_extra(pm, mm, pg, xx)) : CALLV(pman_rebase_page_extra(pm, mm, pg, xx)); }
            else r = *op == 'c' ? CALLV(pman_change_page(pm, mm, pg)) : *op == 's' ? CALLV(pman_swap_page(pm, mm, pg)) : CALLV(pman_rebase_page(pm, mm, pg));
            memset(&pg, 0xDD, sizeof pg);
        }
        else if (HX_IS("back")) r = CALLV(pman_back(pm, AS(pman_model_t, hx_int())));
        else if (HX_IS("resetto")) { int id = hx_int(); r = CALLV(pman_reset_to_page(pm, AS(pman_model_t, hx_int()), id, &f)); }
        else if (HX_IS("event")) { long ev = hx_int(); r = INT(pman_process_page_event(pm, AS(pman_model_t, hx_int()), AS(pman_event_t, ev))); }
        else if (HX_IS("update")) r = CALLV(pman_page_update(pm, AS(pman_model_t, hx_int())));
        else hx_die(op);
        found = f;
        printf("[[%s],%ld,%d]", logb, r, found);
        hx_end();
    }
    return 0;
}
