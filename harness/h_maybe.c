/* C27. KIND: 0 int, 1 char, 2 double, 3 pointer, 4 struct, 5 unsigned long long; V values, mapped to awkward ones of the type. */
#include "hx.h"
#include "gel/data_structures/maybe.h"
#define R 3
#define V 8
#if KIND == 0
typedef int T;
static const T tab[V] = {0, 1, -1, 2147483647, -2147483647 - 1, 256, 65536, 42};
#elif KIND == 1
typedef signed char T;
static const T tab[V] = {0, 1, -1, 127, -128, 7, 64, 42};
#elif KIND == 2
typedef double T;
static const T tab[V] = {0.0, 1.0, -1.0, 1e300, -1e-300, 0.1, 4294967296.0, 1.0 / 0.0};
#elif KIND == 3
static char mem[V];
typedef char *T;
static T tab[V];
#elif KIND == 4
typedef struct { char a; int nothing; long long just; char z[21]; } T;
static T tab[V];
#else
typedef unsigned long long T;
static const T tab[V] = {0, 1, 0xFFFFFFFFFFFFFFFFull, 0x100000000ull, 0x8000000000000000ull, 256, 65536, 42};
#endif
MAYBE_DECLARATION(T)
MAYBE_DEFINITION(T)
#if KIND == 4
#define EQ(x, y) ((x).a == (y).a && (x).nothing == (y).nothing && (x).just == (y).just && memcmp((x).z, (y).z, sizeof (x).z) == 0)
#else
#define EQ(x, y) ((x) == (y))
#endif
static int idx(T v) { for (int i = 0; i < V; i++) if (EQ(v, tab[i])) return i; return -77; }
static void setup(void) {
#if KIND == 3
    for (int i = 1; i < V; i++) tab[i] = mem + i - 1;
#elif KIND == 4
    for (int i = 0; i < V; i++) { memset(&tab[i], i * 31, sizeof(T)); tab[i].nothing = i & 1; tab[i].a = i; }
#endif
}
static HX_TLS int calls[8], nc, bad;
/* the functions use optional values of their own while they run */
static T in_last(T v) { (void)v; return tab[V - 1]; }
static MAYBE(T) in_none(T v) { (void)v; return maybe_T_nothing(); }
static MAYBE(T) in_one(T v) { (void)v; return maybe_T_return(tab[1]); }
static int no(MAYBE(T) m) { return !maybe_T_is_just(&m) && EQ(maybe_T_with_default(&m, tab[2]), tab[2]); }
static int has(MAYBE(T) m, int i) { return maybe_T_is_just(&m) && EQ(maybe_T_with_default(&m, tab[2]), tab[i]); }
static int enter(T v) {
    static int n;
    HX_PAUSE();
    int        x = idx(v);
    switch (n++ % 7) {
        case 0: bad += !no(maybe_T_map(maybe_T_nothing(), in_last)); break;
        case 1: bad += !has(maybe_T_map(maybe_T_return(tab[1]), in_last), V - 1); break;
        case 2: bad += !no(maybe_T_bind(maybe_T_nothing(), in_one)); break;
        case 3: bad += !no(maybe_T_bind(maybe_T_return(tab[4]), in_none)); break;
        case 4: bad += !has(maybe_T_bind(maybe_T_return(tab[5]), in_one), 1); break;
        case 5: bad += !no(maybe_T_map(maybe_T_bind(maybe_T_return(tab[3]), in_none), in_last)); break;
    }
    if (nc < 8) calls[nc] = x;
    nc++;
    return x < 0 ? 0 : x;
}
static T inc(T v) { return tab[(enter(v) + 1) % V]; }
static T zero(T v) { enter(v); return tab[0]; }
static T same(T v) { return tab[enter(v)]; }
static T neg(T v) { return tab[V - 1 - enter(v)]; }
static MAYBE(T) bret(T v) { return maybe_T_return(tab[enter(v)]); }
static MAYBE(T) bnone(T v) { enter(v); return maybe_T_nothing(); }
static MAYBE(T) bhalf(T v) { int x = enter(v); return x % 2 ? maybe_T_nothing() : maybe_T_return(tab[x / 2]); }
static MAYBE(T) bsucc(T v) { int x = enter(v); if (x == V - 1) return (MAYBE(T))MAYBE_NOTHING; return maybe_T_return(tab[x + 1]); }
int main(void) {
    static HX_TLS MAYBE(T) r[R];
    setup();
    while (hx_next()) {
        char *op = hx_word();
        int   out = 0;
        nc = 0;
        if (HX_IS("reset")) { for (int i = 0; i < R; i++) r[i] = maybe_T_nothing(); printf("0"); hx_end(); continue; }
        int i = hx_int() - 1;
        if (HX_IS("ret")) r[i] = maybe_T_return(tab[hx_int()]);
        else if (HX_IS("nothing")) { if (hx_int()) { MAYBE(T) x = MAYBE_NOTHING; r[i] = x; } else r[i] = maybe_T_nothing(); }
        else if (HX_IS("copy")) r[hx_int() - 1] = r[i];
        else if (HX_IS("map")) { int j = hx_int() - 1; char *f = hx_word(); r[j] = maybe_T_map(r[i], *f == 'i' ? inc : *f == 'z' ? zero : *f == 's' ? same : neg); }
        else if (HX_IS("bind")) { int j = hx_int() - 1; char *f = hx_word(); r[j] = maybe_T_bind(r[i], *f == 'r' ? bret : *f == 'n' ? bnone : *f == 'h' ? bhalf : bsucc); }
        else if (HX_IS("is")) out = maybe_T_is_just(&r[i]) ? 1 : 0;
        else if (HX_IS("default")) out = idx(maybe_T_with_default(&r[i], tab[hx_int()]));
        else hx_die(op);
        if (bad) out = -8888;   /* an optional value used inside a function came out wrong */
        printf("[%d,[", out);
        for (int k = 0; k < nc; k++) printf("%s%d", k ? "," : "", calls[k]);
        printf("],[");
        for (int k = 0; k < R; k++) { printf("%s[", k ? "," : ""); if (maybe_T_is_just(&r[k])) printf("%d", idx(maybe_T_with_default(&r[k], tab[3]))); printf("]"); }
        printf("]]");
        hx_end();
    }
    return 0;
}
