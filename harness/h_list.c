/* C05: intrusive lists. Element x carries three links (first, middle, last member); list l uses link l % G. */
#include "hx.h"
#include <stddef.h>
#include "gel/collections/listx.h"
#define MAXN 64
#ifndef FAR
#define FAR 0   /* bytes before the first link, and more of them before the others */
#endif
typedef struct {
#if FAR
    char             pad0[FAR];
#endif
    struct list_head l0;
    char             pad1[3 + FAR * 3];
    int              id;
    struct list_head l1;
    char             pad2[13];
    double           x;
    struct list_head l2;
} elem_t;
static HX_TLS elem_t          *el[MAXN];
static HX_TLS struct list_head *hd[MAXN];
static HX_TLS int               NL, NE, G, ready[MAXN];

static struct list_head *link_of(elem_t *e, int g) { return g == 0 ? &e->l0 : g == 1 ? &e->l1 : &e->l2; }
static int               id_of(struct list_head *n, int l) {
    int g = l % G;
    if (n == NULL)
        return -2;
    if (n == hd[l])
        return 0;
    elem_t *e = g == 0 ? container_of(n, elem_t, l0) : g == 1 ? container_of(n, elem_t, l1) : container_of(n, elem_t, l2);
    return e->id;
}
static void ids(int *v, int k) {
    printf("[");
    for (int i = 0; i < k; i++)
        printf("%s%d", i ? "," : "", v[i]);
    printf("]");
}
static void obs(void) {
    printf("[");
    for (int l = 1; l <= NL; l++) {
        if (l > 1)
            printf(",");
        if (!ready[l]) {
            printf("{\"f\":[],\"b\":[],\"empty\":-1,\"hn\":-1,\"hp\":-1,\"q\":[]}");
            continue;
        }
        int               f[MAXN + 2], b[MAXN + 2], fe[MAXN + 2], be[MAXN + 2], nf = 0, nb = 0, nfe = 0, nbe = 0;
        struct list_head *it, *nodes[MAXN + 2];
        elem_t           *e;
        list_for_each(it, hd[l]) { if (nf > MAXN) break; nodes[nf] = it; f[nf++] = id_of(it, l); }
        list_for_each_prev(it, hd[l]) { if (nb > MAXN) break; b[nb++] = id_of(it, l); }
#define ENT(M)                                                                            \
    list_for_each_entry(e, hd[l], M) { if (nfe > MAXN) break; fe[nfe++] = e->id; }         \
    list_for_each_entry_reverse(e, hd[l], M) { if (nbe > MAXN) break; be[nbe++] = e->id; }
        if (l % G == 0) { ENT(l0) } else if (l % G == 1) { ENT(l1) } else { ENT(l2) }
        if (nfe != nf || memcmp(f, fe, nf * sizeof(int)) || nbe != nb || memcmp(b, be, nb * sizeof(int)))
            f[nf++] = -888; /* entry traversals disagree with the link traversals */
        printf("{\"f\":");
        ids(f, nf);
        printf(",\"b\":");
        ids(b, nb);
        printf(",\"empty\":%d,\"hn\":%d,\"hp\":%d,\"q\":[", !!list_empty(hd[l]), id_of(list_next(hd[l]), l), id_of(list_prev(hd[l]), l));
        for (int i = 0; i < nf && f[i] != -888; i++)
            printf("%s[%d,%d,%d]", i ? "," : "", !!list_is_last(nodes[i], hd[l]), id_of(list_next(nodes[i]), l), id_of(list_prev(nodes[i]), l));
        printf("]}");
    }
    printf("]");
    hx_end();
}
int main(int argc, char **argv) {
    NL = atoi(argv[1]); NE = atoi(argv[2]); G = atoi(argv[3]);
    for (int i = 1; i <= NL; i++) hd[i] = hx_exact(sizeof(struct list_head), 0xA5);
    for (int i = 1; i <= NE; i++) { el[i] = hx_exact(sizeof(elem_t), 0xA5); el[i]->id = i; }
    LIST_HEAD(other);
    struct list_head third = LIST_HEAD_INIT(third);
    while (hx_next()) {
        char *op = hx_word();
        if (!list_empty(&other) || !list_empty(&third)) { fprintf(stderr, "a statically initialised list is not empty\n"); abort(); }
        if (HX_IS("reset")) {
            for (int i = 1; i <= NL; i++) { memset(hd[i], 0xA5, sizeof(struct list_head)); ready[i] = 0; }
            printf("0"); hx_end();
            continue;
        }
        int l = hx_int();
        if (HX_IS("init")) {
            if (l % 2) INIT_LIST_HEAD(hd[l]);
            else { struct list_head t = LIST_HEAD_INIT(*hd[l]); *hd[l] = t; }
            ready[l] = 1;
        }
        else if (HX_IS("add")) list_add(link_of(el[hx_int()], l % G), hd[l]);
        else if (HX_IS("addt")) list_add_tail(link_of(el[hx_int()], l % G), hd[l]);
        else if (HX_IS("del")) list_del(link_of(el[hx_int()], l % G));
        else hx_die(op);
        obs();
    }
    return 0;
}
