/* C16 (STEP), C17 (TABLE), C18 (CONV). */
#include "hx.h"
#include "gel/parameter/parameter.h"
#include <inttypes.h>
#include <math.h>
typedef __int128 i128;

#define INTS8(X)  X(U8, uint8_t, u8, PARAMETER_TYPE_UINT8) X(I8, int8_t, i8, PARAMETER_TYPE_INT8)
#define INTS16(X) X(U16, uint16_t, u16, PARAMETER_TYPE_UINT16) X(I16, int16_t, i16, PARAMETER_TYPE_INT16)
#define INTS32(X) X(U32, uint32_t, u32, PARAMETER_TYPE_UINT32) X(I32, int32_t, i32, PARAMETER_TYPE_INT32)
#if GEL_PARAMETER_MAX_SIZE < 2
#undef INTS16
#define INTS16(X)
#endif
#if GEL_PARAMETER_MAX_SIZE < 4
#undef INTS32
#define INTS32(X)
#define FLT(X)
#else
#define FLT(X) X(F32, float, f, PARAMETER_TYPE_FLOAT)
#endif
#if GEL_PARAMETER_MAX_SIZE >= 8
#define INTS64(X) X(U64, uint64_t, u64, PARAMETER_TYPE_UINT64) X(I64, int64_t, i64, PARAMETER_TYPE_INT64)
#define DBL(X)    X(F64, double, d, PARAMETER_TYPE_DOUBLE)
#else
#define INTS64(X)
#define DBL(X)
#endif
#define FLTS(X) FLT(X) DBL(X)
#define INTS(X) INTS8(X) INTS16(X) INTS32(X) INTS64(X)
#define ALL(X)  INTS(X) FLTS(X)

#define E(n, T, f, K) T_##n,
enum { ALL(E) NTYPES };
#define E2(n, T, f, K) #n,
static const char *tnames[] = {ALL(E2)};
static int         tsize(int t) {
    switch (t) {
#define SZ(n, T, f, K) case T_##n: return sizeof(T);
        ALL(SZ)
    }
    hx_die("type");
    return 0;
}
static int tfind(const char *s) {
    for (int i = 0; i < NTYPES; i++) if (!strcmp(s, tnames[i])) return i;
    hx_die("unknown type");
    return 0;
}
static i128 parse(const char *s) {
    int  neg = *s == '-';
    i128 v   = 0;
    for (s += neg; *s; s++) v = v * 10 + (*s - '0');
    return neg ? -v : v;
}
/* storage with guards on both sides */
#define GUARD 16
typedef struct { uint8_t *m; int n; uint8_t g; } cell_t;
/* guards differ between neighbouring cells, so that bytes copied from one to another show */
static cell_t cell(int n) { static uint8_t g; g += 13; cell_t c = {hx_exact(n + 2 * GUARD, g), n, g}; return c; }
static int cell_bad(cell_t c) {
    for (int i = 0; i < GUARD; i++) if (c.m[i] != c.g || c.m[GUARD + c.n + i] != c.g) return 1;
    return 0;
}
#define P(c) ((void *)((c).m + GUARD))

#ifdef STEP
static HX_TLS int    type;
static HX_TLS i128   off, unit, munit = 1;   /* munit: unit of the multipliers (of steps: its inverse) */
static HX_TLS double foff, funit;
static HX_TLS cell_t cv, cmin, cmax;
static HX_TLS parameter_handle_t *h;
static void put(void *p, long x, int isstep) {
    switch (type) {
#define PU(n, T, f, K) case T_##n: { T v = (T)((isstep ? 0 : off) + (i128)x * unit / (isstep ? munit : 1)); memcpy(p, &v, sizeof v); break; }
#define PF(n, T, f, K) case T_##n: { T v = (T)((isstep ? 0 : foff) + x * funit / (isstep ? (double)munit : 1)); memcpy(p, &v, sizeof v); break; }
        INTS(PU) FLTS(PF)
    }
}
static long get(void *p) {
    switch (type) {
#define GU(n, T, f, K) case T_##n: { T v; memcpy(&v, p, sizeof v); i128 d = (i128)v - off; return d % unit ? -777777 : (long)(d / unit); }
#define GF(n, T, f, K) case T_##n: { T v; memcpy(&v, p, sizeof v); double d = ((double)v - foff) / funit; return d == (long)d ? (long)d : -777777; }
        INTS(GU) FLTS(GF)
    }
    return 0;
}
static void declare(int flav, long min, long max, long def, long step, int hasmin, int hasmax) {
    uint8_t b[5][8];
    put(b[0], min, 0); put(b[1], max, 0); put(b[2], def, 0); put(b[3], step, 1);
    void *pmin = hasmin ? P(cmin) : 0, *pmax = hasmax ? P(cmax) : 0;
    free(h);
    h = hx_exact(sizeof *h, 0x5A);
    switch (type) {
#define DE(n, T, f, K)                                                                                                                 \
    case T_##n: {                                                                                                                      \
        T mi, ma, de, st, *v = P(cv), *pair = (T *)P(cv) - 1;                                                                          \
        memcpy(&mi, b[0], sizeof(T)); memcpy(&ma, b[1], sizeof(T)); memcpy(&de, b[2], sizeof(T)); memcpy(&st, b[3], sizeof(T));        \
        if (flav == 0) *h = PARAMETER_FULL(v, pmin, pmax, mi, ma, de, st, 1, 0, NULL, NULL);                                           \
        else if (flav == 1 && st == (T)1 && !hasmin && !hasmax) *h = PARAMETER(v, mi, ma, de, 0, 1);                                   \
        else if (flav == 2 && !hasmin && !hasmax) *h = PARAMETER_STEP(v, mi, ma, de, st, 0, 1);                                        \
        else if (flav == 3 && st == (T)1) *h = PARAMETER_DLIMITS(v, pmin, pmax, mi, ma, de, 0, 1);                                     \
        else if (flav == 4) *h = PARAMETER_C99(K, v, pmin, pmax, mi, ma, de, st, 1, 0, NULL, NULL);                                    \
        else if (flav == 5) *h = PARAMETER_FULL(pair + 1, pmin, pmax, mi, ma, de, st, 1, 0, NULL, NULL);                               \
        else *h = PARAMETER_FULL(v, pmin, pmax, mi + 0, ma | (T)0, 0 + de, st, 1, 0, NULL, NULL);                                      \
        break;                                                                                                                         \
    }
#define DF(n, T, f, K)                                                                                                                 \
    case T_##n: {                                                                                                                      \
        T mi, ma, de, st, *v = P(cv), *pair = (T *)P(cv) - 1;                                                                          \
        memcpy(&mi, b[0], sizeof(T)); memcpy(&ma, b[1], sizeof(T)); memcpy(&de, b[2], sizeof(T)); memcpy(&st, b[3], sizeof(T));        \
        if (flav == 1 && st == (T)1 && !hasmin && !hasmax) *h = PARAMETER(v, mi, ma, de, 0, 1);                                        \
        else if (flav == 2 && !hasmin && !hasmax) *h = PARAMETER_STEP(v, mi, ma, de, st, 0, 1);                                        \
        else if (flav == 3 && st == (T)1) *h = PARAMETER_DLIMITS(v, pmin, pmax, mi, ma, de, 0, 1);                                     \
        else if (flav == 4) *h = PARAMETER_C99(K, v, pmin, pmax, mi, ma, de, st, 1, 0, NULL, NULL);                                    \
        else if (flav == 5) *h = PARAMETER_FULL(pair + 1, pmin, pmax, mi, ma, de, st, 1, 0, NULL, NULL);                               \
        else *h = PARAMETER_FULL(v, pmin, pmax, mi, ma, de, st, 1, 0, NULL, NULL);                                                     \
        break;                                                                                                                         \
    }
        INTS(DE) FLTS(DF)
    }
}
int main(int argc, char **argv) {
    type = tfind(argv[1]);
    if (argv[1][0] == 'F') { funit = strtod(argv[2], 0); foff = strtod(argv[3], 0); } else { unit = parse(argv[2]); off = parse(argv[3]); }
    if (argc > 4) munit = parse(argv[4]);
    while (hx_next()) {
        char *op = hx_word();
        int   r  = 0;
        if (HX_IS("reset")) {
            free(cv.m); free(cmin.m); free(cmax.m);
            cv = cell(tsize(type)); cmin = cell(tsize(type)); cmax = cell(tsize(type));
            free(h); h = 0;
            printf("0"); hx_end(); continue;
        } else if (HX_IS("decl")) {
            int  flav = hx_int();
            long a = hx_int(), b = hx_int(), d = hx_int(), s = hx_int(); int hm = hx_int(), hM = hx_int();
            put(P(cmin), hx_int(), 0); put(P(cmax), hx_int(), 0); put(P(cv), hx_int(), 0);
            declare(flav, a, b, d, s, hm, hM);
        } else if (HX_IS("set")) put(P(cv), hx_int(), 0);
        else if (HX_IS("setlim")) { put(P(cmin), hx_int(), 0); put(P(cmax), hx_int(), 0); }
        else if (HX_IS("step")) r = parameter_operator(h, (int)(hx_int() * (long)munit));
        else if (HX_IS("null")) r = parameter_operator(NULL, 1);
        else if (HX_IS("dflt")) parameter_reset_to_defaults(h, 1);
        else if (HX_IS("check")) r = parameter_check_ranges(h, 1);
        else hx_die(op);
        printf("[%d,%ld,%d]", r, get(P(cv)), cell_bad(cv) | cell_bad(cmin) | cell_bad(cmax));
        hx_end();
    }
    return 0;
}
#endif

#ifdef TABLE
#define MAXN 700
static HX_TLS int    N, ty[MAXN], rt[MAXN], def[MAXN], bad, guard[MAXN];
static HX_TLS cell_t cv[MAXN], cmin[MAXN], cmax[MAXN];
static HX_TLS struct { unsigned lvl; int max; } next[MAXN];
static HX_TLS parameter_handle_t *tab;
#define NR 7
/* rank -> value of the type, strictly increasing */
static void rank_put(int t, void *p, int r) {
    switch (t) {
#define RU(n, T, f, K) case T_##n: { int sg = (T)-1 < 0; T top = sg ? (T)((1ull << (sizeof(T) * 8 - 1)) - 1) : (T)-1, bot = sg ? (T)(-top - 1) : 0;      \
        T v[NR] = {bot, (T)(bot + 1), (T)(bot / 2 + 2), (T)(sg ? 0 : top / 2), (T)(top / 2 + 1), (T)(top - 1), top}; memcpy(p, &v[r], sizeof(T)); break; }
#define RF(n, T, f, K) case T_##n: { T v[NR] = {-1000.5, -2, -0.25, 0, 0.125, 7, 1e6}; memcpy(p, &v[r], sizeof(T)); break; }
        INTS(RU) FLTS(RF)
    }
}
static int rank_get(int t, void *p) {
    uint8_t b[8];
    for (int r = 0; r < NR; r++) { rank_put(t, b, r); if (!memcmp(b, p, tsize(t))) return r; }
    return -1;
}
static int direct_max(int i) { return i % 3 == 1; } /* these entries use pointed-to limits */
static void put_max(int i, int r) {
    if (direct_max(i)) rank_put(ty[i], P(cmax[i]), r);
    else rank_put(ty[i], &tab[i].max, r);
}
static void runtime(parameter_handle_t *h, void *arg) {
    HX_PAUSE();
    int i = arg ? (int *)arg - guard : h - tab;
    if (!arg && i % 4 != 2) bad = 1;
    if (i < 0 || i >= N || h != &tab[i]) { bad = 1; return; }
    h->access_level = next[i].lvl;
    put_max(i, next[i].max);
    HX_PAUSE();
}
static void fresh(void) {
    free(tab);
    tab = hx_exact(sizeof *tab * N, 0x5A);
    for (int i = 0; i < N; i++) {
        free(cv[i].m); free(cmin[i].m); free(cmax[i].m);
        cv[i] = cell(tsize(ty[i])); cmin[i] = cell(tsize(ty[i])); cmax[i] = cell(tsize(ty[i]));
        rank_put(ty[i], P(cv[i]), def[i]); rank_put(ty[i], P(cmin[i]), 0); rank_put(ty[i], P(cmax[i]), def[i]);
        uint8_t z[8], d[8];
        rank_put(ty[i], z, 0); rank_put(ty[i], d, def[i]);
        void *pm = direct_max(i) ? P(cmin[i]) : 0, *pM = direct_max(i) ? P(cmax[i]) : 0;
        switch (ty[i]) {
#define TD(n, T, f, K) case T_##n: { T a, b; memcpy(&a, z, sizeof(T)); memcpy(&b, d, sizeof(T)); tab[i] = PARAMETER_FULL((T *)P(cv[i]), pm, pM, a, b, b, 1, 0, i, rt[i] ? runtime : NULL, i % 4 == 2 ? NULL : &guard[i]); /* some callbacks need no argument */ break; }
            ALL(TD)
        }
        next[i].lvl = 0; next[i].max = def[i];
    }
}
static unsigned bits(void) {
    int n = hx_int(); unsigned v = 0;
    for (int i = 0; i < n; i++) v |= 1u << hx_int();
    return v;
}
int main(int argc, char **argv) {
    N = argc - 1;
    for (int i = 0; i < N; i++) {
        char nm[16];
        if (sscanf(argv[1 + i], "%[^:]:%d:%d", nm, &rt[i], &def[i]) != 3) hx_die("args");
        ty[i] = tfind(nm);
    }
    while (hx_next()) {
        char *op = hx_word();
        long  r  = 0;
        bad = 0;
        if (HX_IS("reset")) { fresh(); printf("0"); hx_end(); continue; }
        else if (HX_IS("set")) { int i = hx_int() - 1; rank_put(ty[i], P(cv[i]), hx_int()); }
        else if (HX_IS("setall")) { int v = hx_int(); for (int i = 0; i < N; i++) rank_put(ty[i], P(cv[i]), v); }
        else if (HX_IS("conf")) {
            int i = hx_int() - 1; unsigned l = bits(); int mi = hx_int(), ma = hx_int();
            if (direct_max(i)) rank_put(ty[i], P(cmin[i]), mi); else rank_put(ty[i], &tab[i].min, mi);
            if (rt[i]) { next[i].lvl = l; next[i].max = ma; } else { tab[i].access_level = l; put_max(i, ma); }
        } else if (HX_IS("count")) r = parameter_get_count(tab, N, bits());
        else if (HX_IS("get")) {
            int n = hx_int();
            parameter_handle_t *h = parameter_get_handle(tab, N, n, bits());
            r = h ? (h - tab) + 1 : 0;
            if (h && parameter_get_user_data(h) != (GEL_PARAMETER_USER_DATA)(long)(h - tab)) bad = 1;
        } else if (HX_IS("defaults")) parameter_reset_to_defaults(tab, N);
        else if (HX_IS("check")) r = parameter_check_ranges(tab, N);
        else hx_die(op);
        printf("[%ld,[", r);
        for (int i = 0; i < N; i++) { printf("%s%d", i ? "," : "", rank_get(ty[i], P(cv[i]))); bad |= cell_bad(cv[i]) | cell_bad(cmin[i]) | cell_bad(cmax[i]); }
        printf("],%d]", bad);
        hx_end();
    }
    return 0;
}
#endif

#ifdef CONV
typedef struct { parameter_handle_t *h; cell_t v, lo, hi; int t; } par_t;
static HX_TLS par_t a, b;
static int   turn;
static void bytes(void *p, int n) {
    int k = hx_int();
    for (int i = 0; i < k; i++) { int x = hx_int(); if (i < n) ((uint8_t *)p)[i] = x; }
}
static void load(par_t *q, int t) {
    free(q->h); free(q->v.m); free(q->lo.m); free(q->hi.m);
    q->t = t;
    q->v = cell(tsize(t)); q->lo = cell(tsize(t)); q->hi = cell(tsize(t));
    q->h = hx_exact(sizeof *q->h, 0);
}
static void describe(par_t *q) {
    int   k = turn++;
    void *pm = k & 1 ? P(q->lo) : 0, *pM = k & 2 ? P(q->hi) : 0;
    switch (q->t) {
#define CD(n, T, f, K) case T_##n: { T mi, ma; memcpy(&mi, P(q->lo), sizeof(T)); memcpy(&ma, P(q->hi), sizeof(T)); \
        if (pm) mi = 3; if (pM) ma = 5;                                                                             \
        *q->h = PARAMETER_FULL((T *)P(q->v), pm, pM, mi, ma, mi, 1, 7, k, NULL, (void *)(long)k); break; }
        ALL(CD)
    }
}
static int find(int n, int sg) {
    static const char *nm[3][9] = {{0, "U8", "U16", 0, "U32", 0, 0, 0, "U64"}, {0, "I8", "I16", 0, "I32", 0, 0, 0, "I64"}, {0, 0, 0, 0, "F32", 0, 0, 0, "F64"}};
    return tfind(nm[sg][n]);
}
static void lst(void *p, int n) { printf("["); for (int i = 0; i < n; i++) printf("%s%d", i ? "," : "", ((uint8_t *)p)[i]); printf("]"); }
int main(int argc, char **argv) {
    while (hx_next()) {
        char *op = hx_word();
        int   r = 0, bad = 0, conv = 0;
        if (HX_IS("reset")) {
            turn = 0;
            for (int i = 0; i < 2; i++) { par_t *q = i ? &b : &a; load(q, T_U8); *(uint8_t *)P(q->v) = 0; *(uint8_t *)P(q->lo) = 0; *(uint8_t *)P(q->hi) = 255; describe(q); }
            printf("0"); hx_end(); continue;
        } else if (HX_IS("load")) {
            par_t *q = hx_int() == 1 ? &a : &b; int n = hx_int(), sg = hx_int();
            load(q, find(n, sg)); bytes(P(q->v), n); bytes(P(q->lo), n); bytes(P(q->hi), n); describe(q);
        } else if (HX_IS("put")) { par_t *q = hx_int() == 1 ? &a : &b; bytes(P(q->v), q->v.n); }
        else if (HX_IS("conv") || HX_IS("null")) {
            parameter_handle_t *h = HX_IS("conv") ? a.h : NULL;
            uint8_t *m = P(a.v); int n = a.v.n, sg = tnames[a.t][0] == 'I';
            long l = parameter_to_long(h); size_t ix = parameter_to_index(h); int bo = parameter_to_bool(h); size_t tot = parameter_get_total_values(h);
            if (h && n == 8 && !sg && m[7] >= 128) l = 0;  /* beyond long: nothing promised */
            if (h && sg && m[n - 1] >= 128) ix = 0;        /* negative: no index promised */
            printf("["); hx_out_limbs(l, 8); printf(","); hx_out_limbs(ix, 8); printf(",%d,", bo); hx_out_limbs(tot, 8); printf(",");
            conv = 1;
        } else if (HX_IS("text")) {
            /* the conversion that matches the type, as a user of printf writes it */
            static const char *ifmt[] = {"<%" PRIu8 ">", "<%" PRId8 ">", "<%" PRIu16 ">", "<%" PRId16 ">", "<%" PRIu32 ">", "<%" PRId32 ">", "<%" PRIu64 ">", "<%" PRId64 ">"};
            char fmt[16], *s = hx_exact(64, 0x7E);
            int  n = a.v.n, isf = tnames[a.t][0] == 'F';
            double x = 0; float y = 0;
            if (isf) { if (n == 4) { memcpy(&y, P(a.v), 4); x = y; } else memcpy(&x, P(a.v), 8); strcpy(fmt, "%a"); }
            else strcpy(fmt, ifmt[(n == 1 ? 0 : n == 2 ? 2 : n == 4 ? 4 : 6) + (tnames[a.t][0] == 'I')]);
            parameter_to_string_format(a.h, s, fmt);
            printf("["); conv = 1;
            if (!isf) { s[63] = 0; lst(s, strlen(s)); }
            else if (!isfinite(x)) printf("[]");
            else { x = strtod(s, NULL); y = x; lst(n == 4 ? (void *)&y : (void *)&x, n); }
            printf(",");
            free(s);
        } else if (HX_IS("textnull")) {
            char s[8] = "abc";
            parameter_to_string_format(NULL, s, "%d");
            if (strcmp(s, "abc")) bad = 1;
            printf("[[],"); conv = 1;
        } else if (HX_IS("copy")) {
            parameter_handle_t s = *a.h, d = *b.h;
            r = parameter_copy_value(b.h, a.h);
            bad = memcmp(&s, a.h, sizeof s) || memcmp(&d, b.h, sizeof d);
        } else if (HX_IS("copynull")) {
            int k = turn++ % 3;
            r = parameter_copy_value(k == 0 ? NULL : b.h, k == 1 ? NULL : k == 2 ? NULL : a.h);
            parameter_clone(k == 0 ? NULL : b.h, k == 1 ? NULL : a.h, k == 2 ? NULL : P(b.v));
        } else if (HX_IS("clone") || HX_IS("clonebuf")) {
            parameter_handle_t s = *a.h, want = s;
            par_t c = {0};
            load(&c, a.t);
            memcpy(P(c.lo), P(a.lo), a.v.n); memcpy(P(c.hi), P(a.hi), a.v.n);
            want.pointer = P(c.v);
            if (HX_IS("clone")) { memset(c.h, 0x77, sizeof *c.h); parameter_clone(c.h, a.h, P(c.v)); }
            else *c.h = parameter_clone_with_buffer(a.h, P(c.v));
            bad = memcmp(&s, a.h, sizeof s) || c.h->type != want.type || c.h->pointer != want.pointer || c.h->pmin != want.pmin || c.h->pmax != want.pmax ||
                  memcmp(&c.h->min, &want.min, 8) || memcmp(&c.h->max, &want.max, 8) || memcmp(&c.h->defaultv, &want.defaultv, 8) || memcmp(&c.h->step, &want.step, 8) ||
                  c.h->access_level != want.access_level || c.h->data != want.data || c.h->runtime != want.runtime || c.h->arg != want.arg;
            free(b.h); free(b.v.m); free(b.lo.m); free(b.hi.m);
            b = c;
            if (b.h->pmin) b.h->pmin = P(b.lo);
            if (b.h->pmax) b.h->pmax = P(b.hi);
        } else hx_die(op);
        bad |= cell_bad(a.v) | cell_bad(b.v) | cell_bad(a.lo) | cell_bad(a.hi) | cell_bad(b.lo) | cell_bad(b.hi);
        if (!conv) printf("[%d,", r);
        lst(P(a.v), a.v.n); printf(","); lst(P(b.v), b.v.n); printf(",%d]", bad);
        hx_end();
    }
    return 0;
}
#endif
