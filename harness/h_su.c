/* C26. BIG: a structure beyond 64 KiB; argv[1] = layout prints the layout. */
#include "hx.h"
size_t __sanitizer_get_current_allocated_bytes(void);
#include "gel/data_structures/struct_update.h"
#ifndef INSTS
#define INSTS 2
#define UPS 2
#endif
typedef struct { unsigned char x, y; } pair_t;
typedef struct {
#if SMALL
    uint8_t a;
    uint8_t g[1];
    uint16_t b;
    uint8_t w[2];
#else
    uint8_t  a;
    uint16_t b;
    uint32_t c;
    uint64_t d;
    double   e;
    uint8_t  g[5];
    uint16_t w[4];
    uint64_t l[3];
    struct { uint8_t k; pair_t p; pair_t q[3]; } n;
    pair_t   p;
    void    *ptr;
    uint8_t  z;
#endif
} __attribute__((packed)) rec_t;
#ifndef CELL
#define CELL 1
#define S sizeof(rec_t)
#else
#define S ((size_t)CELL * 8)   /* a large structure, seen as cells of CELL equal bytes */
#endif
static HX_TLS rec_t          *src, *inst[INSTS];
static HX_TLS struct_update_t up[UPS];
static HX_TLS int             live[UPS];
static HX_TLS long            held;   /* bytes the updates hold */
#define HOLD(X) { size_t b_ = __sanitizer_get_current_allocated_bytes(); X; held += (long)__sanitizer_get_current_allocated_bytes() - (long)b_; }
#define GUARD 16
/* every record between guards of its own */
static HX_TLS struct { rec_t *r; unsigned char g; } known[INSTS + 8];
static HX_TLS int    nk;
static rec_t *alloc(int fill) {
    unsigned char g = 0x83 + 17 * (nk % (INSTS + 8)), *p = hx_exact(S + 2 * GUARD, g);
    memset(p + GUARD, fill, S);
    for (int i = 0; i < INSTS + 8; i++) if (known[i].r == (rec_t *)(p + GUARD)) known[i].r = 0;
    while (known[nk % (INSTS + 8)].r) nk++;
    known[nk % (INSTS + 8)].r = (rec_t *)(p + GUARD); known[nk % (INSTS + 8)].g = g;
    nk++;
    return (rec_t *)(p + GUARD);
}
static void drop(rec_t *r) { for (int i = 0; i < INSTS + 8; i++) if (known[i].r == r) known[i].r = 0; free((char *)r - GUARD); }
static int guards(rec_t *r) {
    unsigned char *p = (unsigned char *)r - GUARD, g = 0;
    int n = 1;
    for (int i = 0; i < INSTS + 8; i++) if (known[i].r == r) { g = known[i].g; n = 0; }
    for (int i = 0; i < GUARD; i++) n += (p[i] != g) + (p[GUARD + S + i] != g);
    return n;
}
static void out_bytes(const void *v, size_t n) { const uint8_t *p = v; printf("["); for (size_t i = 0; i < n; i += CELL) { int v = p[i]; for (size_t k = 1; k < CELL && i + k < n; k++) if (p[i + k] != p[i]) v = -1; printf("%s%d", i ? "," : "", v); } printf("]"); }
#if SMALL
#define FIELDS(X) X(a) X(b)
#define ARRAYS(X) X(g) X(w)
#else
#define FIELDS(X) X(a) X(b) X(c) X(d) X(e) X(n.k) X(n.p) X(p) X(ptr) X(z)
#define ARRAYS(X) X(g) X(w) X(l) X(n.q)
#endif
static struct_update_t mk_field(int f) {
    /* the value from a variable, from a temporary that dies, or from the source itself */
    static int style;
    int        k = 1, st = style++ % 3;
    rec_t      tmp = *src, obj = *src, *ptr = src;
    struct_update_t u;
#define X(F) if (k++ == f) { if (st == 0) u = STRUCT_UPDATE(tmp, F, src->F); else if (st == 1) u = STRUCT_UPDATE(obj, F, tmp.F); else u = STRUCT_UPDATE(ptr[0], F, ptr->F); memset(&tmp, 0xDD, sizeof tmp); return u; }
    FIELDS(X)
#undef X
    hx_die("field");
    return u;
}
/* a value of another type than the field, computed exactly once */
static HX_TLS int conv_count;
static struct_update_t mk_conv(int f, long w) {
    static int style;
    int        k = 1, st = style++ % 5, i = w;
    rec_t      obj; memset(&obj, 0x5B, sizeof obj);
    struct_update_t u;
    conv_count = 0;
#define X(F) if (k++ == f) { \
    if (st == 0 || (st == 2 && (w < 0 || w > 255)) || (st == 3 && (w < -128 || w > 127))) u = STRUCT_UPDATE(obj, F, (conv_count++, i)); \
    else if (st == 1) { long x = w; u = STRUCT_UPDATE(obj, F, (conv_count++, x)); } \
    else if (st == 2) { uint8_t x = w; u = STRUCT_UPDATE(obj, F, (conv_count++, x)); } \
    else if (st == 3) { signed char x = w; u = STRUCT_UPDATE(obj, F, (conv_count++, x)); } \
    else { long long x = w; u = STRUCT_UPDATE(obj, F, x + (conv_count++)); } return u; }
#if SMALL
    X(a) X(b)
#else
    X(a) X(b) X(c) X(d) k++; X(n.k) k += 3; X(z)
#endif
#undef X
    hx_die("conv");
    return u;
}
static struct_update_t mk_array(int f, int n) {
    static int style;
    int        k = 1, st = style++ % 4;
    rec_t      tmp = *src;
    struct_update_t u;
#define COUNT(F) +1
    k += 0 FIELDS(COUNT);
#define X(F) if (k++ == f) { int m = n - 1; if (st == 0) u = STRUCT_UPDATE_ARRAY(tmp, F, src->F, n) else if (st == 1) u = STRUCT_UPDATE_ARRAY(tmp, F, tmp.F, m + 1) else if (st == 2) u = STRUCT_UPDATE_ARRAY(tmp, F, tmp.F, n > 0 ? n : 0) else u = STRUCT_UPDATE_ARRAY(tmp, F, (&tmp.F[0]), 2 * n - n) memset(&tmp, 0xDD, sizeof tmp); return u; }
    ARRAYS(X)
#undef X
    hx_die("array");
    return u;
}
int main(int c, char **v) {
    if (c > 1 && strcmp(v[1], "layout") == 0) {
        rec_t *r = 0;
        printf("[%ld,[", (long)S);
        int n = 0;
#define X(F) printf("%s[%ld,%ld,0]", n++ ? "," : "", (long)offsetof(rec_t, F), (long)sizeof(r->F));
        FIELDS(X)
#undef X
#define X(F) printf("%s[%ld,%ld,%ld]", n++ ? "," : "", (long)offsetof(rec_t, F), (long)sizeof(r->F), (long)sizeof(r->F[0]));
        ARRAYS(X)
        printf("]]\n");
        return 0;
    }
    while (hx_next()) {
        char *op = hx_word();
        if (HX_IS("reset")) {
            if (!src) src = alloc(0);
            memset(src, 0, S);
            for (int i = 0; i < INSTS; i++) { if (inst[i]) drop(inst[i]); inst[i] = alloc(101 + i); }
            for (int i = 0; i < UPS; i++) { HOLD(if (live[i]) struct_update_free(up[i])) live[i] = 0; }
            /* what was freed must not pile up */
            if (held > 4096) { fprintf(stderr, "freed updates still hold %ld bytes\n", held); abort(); }
            printf("0"); hx_end(); continue;
        }
        if (HX_IS("poke")) { int i = hx_int(), n = hx_int(); for (int k = 0; k < n; k++) memset((uint8_t *)src + (size_t)(i + k) * CELL, hx_int(), CELL); }
        else if (HX_IS("field")) { int u = hx_int() - 1; HOLD(up[u] = mk_field(hx_int())) live[u] = 1; }
        else if (HX_IS("array")) { int u = hx_int() - 1, f = hx_int(); HOLD(up[u] = mk_array(f, hx_int())) live[u] = 1; }
        else if (HX_IS("conv")) { int u = hx_int() - 1, f = hx_int(); HOLD(up[u] = mk_conv(f, hx_int())) live[u] = 1; if (conv_count != 1) { fprintf(stderr, "value computed %d times\n", conv_count); abort(); }; }
        else if (HX_IS("raw")) {
            int u = hx_int() - 1; size_t at = hx_int() * CELL, off = hx_int() * CELL, n = hx_int() * CELL;
            uint8_t *copy = hx_exact(n, 0); memcpy(copy, (uint8_t *)src + at, n);
            HOLD(up[u] = struct_update_from_data(off, copy, n)) live[u] = 1;
            memset(copy, 0xDD, n); free(copy);
        }
        else if (HX_IS("apply")) { int u = hx_int() - 1; struct_update_t x = up[u]; struct_update_apply(inst[hx_int() - 1], x); }
        else if (HX_IS("free")) { int u = hx_int() - 1; HOLD(struct_update_free(up[u])) live[u] = 0; }
        else hx_die(op);
        int bad = guards(src);
        printf("[[");
        for (int i = 0; i < INSTS; i++) { if (i) printf(","); out_bytes(inst[i], S); bad += guards(inst[i]); }
        printf("],"); out_bytes(src, S); printf(",[");
        for (int i = 0; i < UPS; i++) {
            printf("%s[", i ? "," : "");
            if (live[i]) {   /* observed by what it does to two scratch records: the bytes it makes equal */
                static HX_TLS rec_t *t1, *t2;
                if (!t1) { t1 = alloc(0); t2 = alloc(0); }
                memset(t1, 0xAA, S); memset(t2, 0x55, S);
                struct_update_apply(t1, up[i]); struct_update_apply(t2, up[i]);
                uint8_t *p = (uint8_t *)t1, *q = (uint8_t *)t2;
                long     off = -1, end = -1;
                for (size_t k = 0; k < S; k++) if (p[k] == q[k]) { if (off < 0) off = k; end = k + 1; }
                printf("%ld,", off < 0 || off % CELL ? off : off / CELL); out_bytes(p + (off < 0 ? 0 : off), off < 0 ? 0 : end - off);
                for (long k = off < 0 ? 0 : off; k < end; k++) bad += p[k] != q[k];
                for (size_t k = 0; k < S; k++) bad += p[k] != q[k] && (p[k] != 0xAA || q[k] != 0x55);
                bad += guards(t1) + guards(t2);
            }
            printf("]");
        }
        printf("],%d]", bad);
        hx_end();
    }
    return 0;
}
