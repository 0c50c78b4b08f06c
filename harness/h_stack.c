/* C04: stack macros, several capacities and item types. Item value v is spread over the whole item. */
#include "hx.h"
#include "gel/collections/stack.h"

typedef struct { int a; long long b; char c; } rec_t;
typedef struct { unsigned char x[5]; } odd_t;

#define INST(NAME, TYPE, CAP)              \
    STACK_DECLARATION(NAME, TYPE, CAP)     \
    STACK_DEFINITION(NAME, TYPE)

static void to_u8(uint8_t *p, int v) { *p = v; }
static int  of_u8(uint8_t *p) { return *p; }
static void to_u16(uint16_t *p, int v) { *p = v; }
static int  of_u16(uint16_t *p) { return *p; }
static void to_int(int *p, int v) { *p = v; }
static int  of_int(int *p) { return *p; }
static void to_rec(rec_t *p, int v) { memset(p, 0, sizeof(*p)); p->a = v; p->b = -3LL * v - 7; p->c = (char)(v ^ 0x55); }
static int  of_rec(rec_t *p) { return (p->b == -3LL * p->a - 7 && p->c == (char)(p->a ^ 0x55)) ? p->a : -999; }
static void to_odd(odd_t *p, int v) { for (int i = 0; i < 5; i++) p->x[i] = (unsigned char)(v + 17 * i); }
static int  of_odd(odd_t *p) { for (int i = 0; i < 5; i++) if (p->x[i] != (unsigned char)(p->x[0] + 17 * i)) return -999; return p->x[0]; }

typedef struct { unsigned char x[700]; } big_t;
static void to_big(big_t *p, int v) { for (int i = 0; i < 700; i++) p->x[i] = (unsigned char)(i == 0 ? v : i == 1 ? v >> 8 : v * (1 + i % 3) + i); }
static int  of_big(big_t *p) { big_t t; int v = p->x[0] | p->x[1] << 8; to_big(&t, v); return memcmp(&t, p, sizeof t) ? -999 : v; }

#define ALL(X) X(s33, big_t, 33, big) X(s1, int, 1, int) X(s2, rec_t, 2, rec) X(s3, uint8_t, 3, u8) X(s5, odd_t, 5, odd) X(s8, rec_t, 8, rec) X(s64, int, 64, int) \
    X(s1000, rec_t, 1000, rec) X(s40000, uint16_t, 40000, u16) X(s65535, uint8_t, 65535, u8)

#define DEF(NAME, TYPE, CAP, CV)                                                                                       \
    INST(NAME, TYPE, CAP)                                                                                              \
    static HX_TLS struct NAME *p_##NAME;                                                                                      \
    static int          NAME##_do(int what, int v) {                                                                   \
        TYPE it, keep;                                                                                                 \
        int  r;                                                                                                        \
        switch (what) {                                                                                                \
            case 0: free(p_##NAME); p_##NAME = hx_exact(sizeof(struct NAME), 0xA5); NAME##_init(p_##NAME); return 0;   \
            case 1: NAME##_init(p_##NAME); return 0;                                                                   \
            case 2: memset(&it, 0, sizeof(it)); to_##CV(&it, v); keep = it; r = NAME##_push(p_##NAME, &it);            \
                    return of_##CV(&keep) == of_##CV(&it) ? (r == PUSH_RESULT_SUCCESS ? 0 : r == PUSH_RESULT_FULL ? 1 : 50 + r) : -1000; \
            case 3: case 9:                                                                                            \
                    memset(&it, 0x77, sizeof(it)); memset(&keep, 0x77, sizeof(it));                                    \
                    r = what == 3 ? NAME##_pop(p_##NAME, &it) : NAME##_peek(p_##NAME, &it);                            \
                    if (r != POP_RESULT_SUCCESS) return memcmp(&it, &keep, sizeof(it)) ? -1000 : -1;                   \
                    return of_##CV(&it);                                                                               \
            case 4: return NAME##_pop(p_##NAME, NULL) == POP_RESULT_SUCCESS ? 0 : 1;                                   \
            case 5: return NAME##_peek(p_##NAME, NULL) == POP_RESULT_SUCCESS ? 0 : 1;                                  \
            case 6: NAME##_dequeue(p_##NAME); return 0;                                                                \
            case 7: return !!NAME##_is_empty(p_##NAME);                                                                \
            case 8: return !!NAME##_is_full(p_##NAME);                                                                 \
        }                                                                                                              \
        return -5000;                                                                                                  \
    }
ALL(DEF)

static HX_TLS int (*call)(int, int);

static void head(int r) { printf("{\"r\":%d,\"d\":[", r); }
static void foot(void) {
    printf("],\"empty\":%d,\"full\":%d}", call(7, 0), call(8, 0));
    hx_end();
}

int main(void) {
    while (hx_next()) {
        char *op = hx_word();
        if (HX_IS("reset")) { printf("0"); hx_end(); }
        else if (HX_IS("init")) {
            int c = hx_int();
            int (*prev)(int, int) = call;
#define PICK(NAME, TYPE, CAP, CV) if (c == CAP) call = NAME##_do;
            call = NULL;
            ALL(PICK)
            if (!call) hx_die("capacity");
            call(prev == call ? 1 : 0, 0);
            head(0); foot();
        } else if (HX_IS("push")) { head(call(2, hx_int())); foot(); }
        else if (HX_IS("pop") || HX_IS("peek")) {
            int pk = HX_IS("peek");
            if (hx_int()) { int r = call(pk ? 9 : 3, 0); head(r == -1 ? 1 : r < 0 ? r : 0); if (r >= 0) printf("%d", r); foot(); }
            else { head(call(pk ? 5 : 4, 0)); foot(); }
        } else if (HX_IS("bottom")) { head(call(6, 0)); foot(); }
        else if (HX_IS("pushn")) {
            int v = hx_int(), n = hx_int(), r = 0;
            for (int i = 0; i < n; i++) if (call(2, v + i) == 0) r++;
            head(r); foot();
        } else if (HX_IS("popn")) {
            int n = hx_int(), k = 0, *d = malloc(sizeof(int) * (n + 1));
            for (int i = 0; i < n; i++) { int v = call(3, 0); if (v == -1) break; d[k++] = v; }
            head(k);
            for (int i = 0; i < k; i++) printf("%s%d", i ? "," : "", d[i]);
            free(d);
            foot();
        } else hx_die(op);
    }
    return 0;
}
