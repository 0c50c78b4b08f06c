/* C25. NS states, M machines, KIND 0: int events, 1: struct events, 2: pointer events, 3: char events. */
#include "hx.h"
#include "gel/state_machine/state_machine.h"
#ifndef NS
#define NS 3
#endif
#define M 2
#define TABS 2
typedef struct node { int i, ev, res, ns; struct node *sub[4]; } node_t;   /* an event, and those its handler sends */
typedef struct { int id; node_t *at; long log[24][4]; int n; int nested[24], nn; } model_t;
#if KIND == 1
typedef struct { char pad; long long v; char more[30]; } event_t;
static event_t mk(int v) { event_t e; memset(&e, 0x11, sizeof e); e.v = v; return e; }
#define EV(e) ((long)(e).v)
#elif KIND == 2
typedef const int *event_t;
static event_t mk(int v) { int *p = malloc(sizeof *p); *p = v; return p; }
#define EV(e) ((long)*(e))
#elif KIND == 3
typedef signed char event_t;
static event_t mk(int v) { return v; }
#define EV(e) ((long)(e))
#else
typedef int event_t;
static event_t mk(int v) { return v; }
#define EV(e) ((long)(e))
#endif
DEFINE_STATE_MACHINE(demo, event_t, model_t)
DECLARE_STATE_MACHINE(demo, event_t, model_t)
static HX_TLS demo_state_machine_t *sm[M];
static HX_TLS model_t *models[3];
static int handle(int tab, int h, model_t *p, event_t ev) {
    HX_PAUSE();
    node_t *me = p->at;
    if (p->n < 24) { p->log[p->n][0] = tab; p->log[p->n][1] = h; p->log[p->n][2] = p->id; p->log[p->n][3] = EV(ev); }
    if (++p->n >= 24) return -1;
    for (int k = 0; k < me->ns; k++) {
        p->at = me->sub[k];
        int r = demo_sm_send_event(sm[p->at->i], p, mk(p->at->ev));
        if (p->nn < 24) p->nested[p->nn++] = r;
        p->at = me;
    }
    HX_PAUSE();
    return me->res;
}
static node_t *parse(int i) {   /* machine (unless given), event, result, number of events, these as lists of four */
    node_t *n = calloc(1, sizeof *n);
    n->i = i >= 0 ? i : hx_int() - 1; n->ev = hx_int(); n->res = hx_int();
    for (int k = hx_int(); k > 0; k--) { hx_int(); n->sub[n->ns++] = parse(-1); }
    return n;
}
static void drop(node_t *n) { for (int k = 0; k < n->ns; k++) drop(n->sub[k]); free(n); }
#define H1(T, I) static int h_##T##_##I(model_t *p, event_t e) { return handle(T, I, p, e); }
#define ALL(X) X(0, 0) X(0, 1) X(0, 2) X(0, 3) X(0, 4) X(0, 5) X(1, 0) X(1, 1) X(1, 2) X(1, 3) X(1, 4) X(1, 5)
ALL(H1)
/* the last state is called through an index that needs more than one byte when NS is large */
static int h_last0(model_t *p, event_t e) { return handle(0, NS - 1, p, e); }
static int h_last1(model_t *p, event_t e) { return handle(1, NS - 1, p, e); }
#define SPECIAL(X) X(0, 127) X(0, 128) X(0, 255) X(0, 256) X(0, 32767) X(0, 32768) X(0, 65535) X(0, 65536) X(1, 127) X(1, 128) X(1, 255) X(1, 256) X(1, 32767) X(1, 32768) X(1, 65535) X(1, 65536)
SPECIAL(H1)
static int h_bad(model_t *p, event_t e) { return handle(9, 999, p, e); }
static demo_event_manager_t tables[TABS][NS];
static void setup(void) {
    static const demo_event_manager_t a[2][6] = {{h_0_0, h_0_1, h_0_2, h_0_3, h_0_4, h_0_5}, {h_1_0, h_1_1, h_1_2, h_1_3, h_1_4, h_1_5}};
    for (int t = 0; t < TABS; t++) for (int i = 0; i < NS; i++) tables[t][i] = i < 6 ? a[t][i] : i == NS - 1 ? (t ? h_last1 : h_last0) : h_bad;
#define PUT(T, I) if (I < NS - 1) tables[T][(I) < NS ? (I) : 0] = h_##T##_##I;
    if (NS > 6) { SPECIAL(PUT) }
}
int main(void) {
    setup();
    while (hx_next()) {
        char *op = hx_word();
        if (HX_IS("reset")) {
            for (int i = 0; i < M; i++) { free(sm[i]); sm[i] = hx_exact(sizeof *sm[i], 0); sm[i]->managers = tables[0]; }
            for (int i = 0; i < 3; i++) { free(models[i]); models[i] = hx_exact(sizeof(model_t), 0); models[i]->id = i; }
            printf("0"); hx_end(); continue;
        }
        int i = hx_int() - 1, r = 0;
        for (int k = 0; k < 3; k++) models[k]->n = models[k]->nn = 0;
        if (HX_IS("table")) sm[i]->managers = tables[hx_int()];
        else if (HX_IS("state")) sm[i]->state = hx_int();
        else if (HX_IS("send")) {
            model_t *p = models[hx_int()];
            node_t *n = parse(i);
            p->at = n;
            r = demo_sm_send_event(sm[i], p, mk(n->ev));
            drop(n);
        } else hx_die(op);
        printf("[%d,[", r);
        int f = 0;
        for (int k = 0; k < 3; k++) for (int j = 0; j < models[k]->n && j < 24; j++) printf("%s[%ld,%ld,%ld,%ld]", f++ ? "," : "", models[k]->log[j][0], models[k]->log[j][1], models[k]->log[j][2], models[k]->log[j][3]);
        printf("],[");
        for (int k = 0; k < M; k++) printf("%s%u", k ? "," : "", sm[k]->state);
        printf("],[");
        f = 0;
        for (int k = 0; k < 3; k++) for (int j = 0; j < models[k]->nn; j++) printf("%s%d", f++ ? "," : "", models[k]->nested[j]);
        printf("]]");
        hx_end();
    }
    return 0;
}
