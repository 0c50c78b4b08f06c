/* C03: queue macros, several capacities and item types. Item value v is spread over the whole item. */
#include "hx.h"
#include "gel/collections/queue.h"

typedef struct { int a; long long b; char c; } rec_t;
typedef struct { unsigned char x[5]; } odd_t;

#define INST(NAME, TYPE, CAP)              \
    QUEUE_DECLARATION(NAME, TYPE, CAP)     \
    QUEUE_DEFINITION(NAME, TYPE)

static void to_u8(uint8_t *p, int v) { *p = v; }
static int  of_u8(uint8_t *p) { return *p; }
static void to_u16(uint16_t *p, int v) { *p = v; }
static int  of_u16(uint16_t *p) { return *p; }
static void to_int(int *p, int v) { *p = v; }
static int  of_int(int *p) { return *p; }
static void to_rec(rec_t *p, int v) { memset(p, 0, sizeof(*p)); p->a = v; p->b = -3LL * v - 7; p->c = (char)(v ^ 0x55); }
static int  of_rec(rec_t *p) { return (p->b == -3LL * p->a - 7 && p->c == (char)(p->a ^ 0x55)) ? p->a : -999; }
static void to_odd(odd_t *p, int v) { for (int i = 0; i < 5; i++) p->x[i] = (unsigned char)(v + 17 * i); }
static int  of_odd(odd_t *p) { for (int i = 0; i < 5; i++) if (p->x[i] != (unsigned char)(p->x[0] + 17 * i)) return -999; return p->x[0]; }

typedef struct { unsigned char x[700]; } big_t;
static void to_big(big_t *p, int v) { for (int i = 0; i < 700; i++) p->x[i] = (unsigned char)(i == 0 ? v : i == 1 ? v >> 8 : v * (1 + i % 3) + i); }
static int  of_big(big_t *p) { big_t t; int v = p->x[0] | p->x[1] << 8; to_big(&t, v); return memcmp(&t, p, sizeof t) ? -999 : v; }

#define ALL(X) X(q64, big_t, 64, big) X(q1, int, 1, int) X(q2, rec_t, 2, rec) X(q4, uint8_t, 4, u8) X(q8, rec_t, 8, rec) X(q16, odd_t, 16, odd) \
    X(q128, int, 128, int) X(q256, uint8_t, 256, u8) X(q1024, rec_t, 1024, rec) X(q16384, uint16_t, 16384, u16) X(q32768, uint16_t, 32768, u16)

#define DEF(NAME, TYPE, CAP, CV)                                                                                       \
    INST(NAME, TYPE, CAP)                                                                                              \
    static HX_TLS struct NAME *p_##NAME;                                                                                      \
    static long long    NAME##_do(int what, int v) {                                                                   \
        TYPE it, keep;                                                                                                 \
        int  r;                                                                                                        \
        switch (what) {                                                                                                \
            case 0: free(p_##NAME); p_##NAME = hx_exact(sizeof(struct NAME), 0xA5); NAME##_init(p_##NAME); return 0;   \
            case 1: NAME##_init(p_##NAME); return 0;                                                                   \
            case 2: memset(&it, 0, sizeof(it)); to_##CV(&it, v); keep = it; r = NAME##_enqueue(p_##NAME, &it);         \
                    return of_##CV(&keep) == of_##CV(&it) ? (r == ENQUEUE_RESULT_SUCCESS ? 0 : r == ENQUEUE_RESULT_FULL ? 1 : 50 + r) : -1000;                                          \
            case 3: memset(&it, 0x77, sizeof(it)); memset(&keep, 0x77, sizeof(it)); r = NAME##_dequeue(p_##NAME, &it); \
                    if (r != DEQUEUE_RESULT_SUCCESS) return memcmp(&it, &keep, sizeof(it)) ? -1000 : -1;               \
                    return of_##CV(&it);                                                                               \
            case 4: return NAME##_dequeue(p_##NAME, NULL) == DEQUEUE_RESULT_SUCCESS ? 0 : 1;                           \
            case 5: return NAME##_drop(p_##NAME) == DEQUEUE_RESULT_SUCCESS ? 0 : 1;                                    \
            case 6: return (long long)NAME##_count(p_##NAME);                                                          \
            case 7: return !!NAME##_is_empty(p_##NAME);                                                                \
            case 8: return !!NAME##_is_full(p_##NAME);                                                                 \
        }                                                                                                              \
        return -5000;                                                                                                  \
    }
ALL(DEF)

static HX_TLS long long (*call)(int, int);

static void head(int r) { printf("{\"r\":%d,\"d\":[", r); }
static void foot(void) {
    long long c = call(6, 0);
    printf("],\"count\":%d,\"empty\":%lld,\"full\":%lld}", c < 0 || c > 1000000 ? -77 : (int)c, call(7, 0), call(8, 0));
    hx_end();
}

int main(void) {
    while (hx_next()) {
        char *op = hx_word();
        if (HX_IS("reset")) { printf("0"); hx_end(); }
        else if (HX_IS("init")) {
            int c = hx_int();
            long long (*prev)(int, int) = call;
#define PICK(NAME, TYPE, CAP, CV) if (c == CAP) call = NAME##_do;
            call = NULL;
            ALL(PICK)
            if (!call) hx_die("capacity");
            call(prev == call ? 1 : 0, 0);
            head(0); foot();
        } else if (HX_IS("fresh")) { call(0, 0); head(0); foot(); }
        else if (HX_IS("enq")) { int r = call(2, hx_int()); head(r); foot(); }
        else if (HX_IS("deq")) {
            if (hx_int()) { int r = call(3, 0); head(r == -1 ? 1 : r < 0 ? r : 0); if (r >= 0) printf("%d", r); foot(); }
            else { head(call(4, 0)); foot(); }
        } else if (HX_IS("drop")) { head(call(5, 0)); foot(); }
        else if (HX_IS("spin")) {
            int k = hx_int(), bad = 0, n0 = call(6, 0);
            for (int i = 0; i < k; i++) {
                if (n0 == 0) { if (call(2, i & 63) != 0) bad++; if (call(3, 0) != (i & 63)) bad++; }
                else { int v = call(3, 0); if (v < 0) bad++; if (call(2, v) != 0) bad++; }
                if (call(6, 0) != n0) bad++;
            }
            head(bad); foot();
        } else if (HX_IS("enqn")) {
            int v = hx_int(), n = hx_int(), r = 0;
            for (int i = 0; i < n; i++) if (call(2, v + i) == 0) r++;
            head(r); foot();
        } else if (HX_IS("deqn")) {
            int n = hx_int(), k = 0, *d = malloc(sizeof(int) * (n + 1));
            for (int i = 0; i < n; i++) { int v = call(3, 0); if (v == -1) break; d[k++] = v; }
            head(k);
            for (int i = 0; i < k; i++) printf("%s%d", i ? "," : "", d[i]);
            free(d);
            foot();
        } else hx_die(op);
    }
    return 0;
}
