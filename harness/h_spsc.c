/* C02. The ring is compiled unmodified with -fsanitize=thread -O0 and linked against the hooks below instead of the
   sanitizer's runtime: every access to the indices and the cells becomes a scheduling point between two coroutines, the
   producer and the consumer. Commands on stdin (one configuration each, all part of one graph):
     graph N H0 FILL np {f len}... nc {f len}...          every schedule, states identified by memory and what each
                                                          call has read so far
     run SEED BURST N H0 FILL np {f len}... nc {f len}...       one random schedule
   f: 0 puts 1 putc 2 size 3 empty 4 full | 10 gets 11 getc 12 peek 13 drop 14 getc without destination, 2 3 4.
   Output: one JSON line per edge: [from, to, event]. */
#include "hx.h"
#include "gel/collections/circular_buffer.h"

/* ---------------------------------------------------------------- coroutines */
void sw(void **save, void *load);
__asm__(".text\n.globl sw\nsw:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n"
        " pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
#define STK 65536
#define MAXN 600
#define MAXOP 4000
#define PAD 64
typedef struct { int f, len; } op_t;
enum { P_CALL, P_ACC, P_RET, P_DONE };
typedef struct {
    char     *stk;
    void     *sp;
    int       op, point, steps;
    uint64_t  hash;
    const void *rd; size_t rdn;      /* pending read */
    int       r, nd, val;
    uint8_t   data[MAXN];
    op_t      ops[MAXOP];
    int       nops;
} thr_t;
static thr_t          T[2];
static void          *mainsp;
static int            cur = -1;
static circular_buf_t ring;
static uint8_t        arena[MAXN + 2 * PAD], *cells = arena + PAD;
static int            N, H0, FILL, oob, limit;
static uint8_t        next_in;

static void yield(int point) { T[cur].point = point; sw(&T[cur].sp, mainsp); }
static int  shared(const void *a) {
    const uint8_t *p = a;
    if (p >= arena && p < arena + sizeof arena) return 1;
    if (p == (uint8_t *)&ring.head || p == (uint8_t *)&ring.tail) return 1;
    return p >= (uint8_t *)&ring && p < (uint8_t *)(&ring + 1) ? 2 : 0;
}
static void mix(uint64_t v) { T[cur].hash = ((T[cur].hash + 0x632BE59BD9B4E019ull) ^ v) * 0x9E3779B97F4A7C15ull; T[cur].hash ^= T[cur].hash >> 29; }
static void access_(const void *a, size_t n, int write) {
    if (cur < 0) return;
    int s = shared(a);
    if (!s || (s == 2 && !write)) return;
    const uint8_t *p = a;
    T[cur].steps++;
    yield(P_ACC);
    if (p >= arena && p < arena + sizeof arena && (p < cells || p + n > cells + N)) oob = 1;
    if (!write) { uint64_t v = 0; memcpy(&v, a, n < 8 ? n : 8); mix(v + 1); } else mix(0x77);
}
#define RW(S) void __tsan_read##S(void *a) { access_(a, S, 0); } void __tsan_write##S(void *a) { access_(a, S, 1); } \
              void __tsan_unaligned_read##S(void *a) { access_(a, S, 0); } void __tsan_unaligned_write##S(void *a) { access_(a, S, 1); } \
              void __tsan_read_write##S(void *a) { access_(a, S, 0); access_(a, S, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(B, U) U __tsan_atomic##B##_load(const volatile U *a, int o) { access_((void *)a, B / 8, 0); return *a; } \
                 void __tsan_atomic##B##_store(volatile U *a, U v, int o) { access_((void *)a, B / 8, 1); *a = v; } \
                 U __tsan_atomic##B##_exchange(volatile U *a, U v, int o) { access_((void *)a, B / 8, 1); U x = *a; mix(x); *a = v; return x; } \
                 U __tsan_atomic##B##_fetch_add(volatile U *a, U v, int o) { access_((void *)a, B / 8, 1); U x = *a; mix(x); *a += v; return x; } \
                 U __tsan_atomic##B##_fetch_sub(volatile U *a, U v, int o) { access_((void *)a, B / 8, 1); U x = *a; mix(x); *a -= v; return x; } \
                 int __tsan_atomic##B##_compare_exchange_strong(volatile U *a, U *c, U v, int o, int p) { access_((void *)a, B / 8, 1); U x = *a; mix(x); if (x == *c) { *a = v; return 1; } *c = x; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {}
void __tsan_atomic_signal_fence(int o) {}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    uint8_t *x = d; const uint8_t *y = s;
    for (size_t i = 0; i < n; i++) { access_(y + i, 1, 0); uint8_t v = y[i]; access_(x + i, 1, 1); x[i] = v; }
    return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    uint8_t *x = d; const uint8_t *y = s;
    if (x <= y) return __tsan_memcpy(d, s, n);
    for (size_t i = n; i-- > 0;) { access_(y + i, 1, 0); uint8_t v = y[i]; access_(x + i, 1, 1); x[i] = v; }
    return d;
}
void *__tsan_memset(void *d, int c, size_t n) { uint8_t *x = d; for (size_t i = 0; i < n; i++) { access_(x + i, 1, 1); x[i] = c; } return d; }

/* ---------------------------------------------------------------- the two programs */
static void body(void) {
    for (;;) {
        thr_t *t = &T[cur];
        for (t->op = 0; t->op < t->nops; t->op++) {
            op_t o = t->ops[t->op];
            t->hash = (t->op + 1) * 0xD6E8FEB86659FD93ull; t->steps = 0;
            yield(P_CALL);
            t->nd = 0; t->val = 0;
            switch (o.f) {
                case 0: t->r = circular_buf_puts(&ring, t->data, o.len); break;
                case 1: t->r = circular_buf_putc(&ring, t->data[0]); break;
                case 2: t->r = (int)circular_buf_size(&ring); break;
                case 3: t->r = is_circular_buf_empty(&ring) != 0; break;
                case 4: t->r = is_circular_buf_full(&ring) != 0; break;
                case 10: t->r = circular_buf_gets(&ring, t->data, o.len); t->nd = t->r; break;
                case 11: t->r = circular_buf_getc(&ring, t->data); t->nd = t->r == 0; break;
                case 12: t->r = circular_buf_peek(&ring, t->data, o.len); t->nd = t->r; break;
                case 13: t->r = circular_buf_drop(&ring, o.len); break;
                case 14: t->r = circular_buf_getc(&ring, NULL); break;
                default: hx_die("op");
            }
            yield(P_RET);
        }
        yield(P_DONE);
    }
}
static void resume(int t) { cur = t; sw(&mainsp, T[t].sp); cur = -1; }
static size_t hshadow, tshadow;
static uint8_t cshadow[MAXN + 2 * PAD];
static void start(void) {
    memset(arena, 0xB0, sizeof arena);
    cur = -1;
    circular_buf_init(&ring, cells, N);
    ring.head = (H0 + FILL) % N; ring.tail = H0;
    for (int i = 0; i < FILL; i++) cells[(H0 + i) % N] = 201 + i % 50;
    next_in = 1; oob = 0;
    for (int i = 0; i < 2; i++) {
        if (!T[i].stk) T[i].stk = malloc(STK);
        void **s = (void **)(T[i].stk + STK - 64);
        *--s = 0; *--s = (void *)body;
        for (int k = 0; k < 6; k++) *--s = 0;
        T[i].sp = s;
        resume(i);      /* up to the first call */
    }
    hshadow = ring.head; tshadow = ring.tail; memcpy(cshadow, arena, sizeof arena);
}
static char ev[1 << 16];
static const char *FN[] = {"puts", "putc", "size", "empty", "full", 0, 0, 0, 0, 0, "gets", "getc", "peek", "drop", "getc0"};
/* one step of thread t; leaves the event in ev. A call that makes too many steps is reported as stuck. */
static int step(int t) {
    thr_t *x = &T[t];
    char  *e = ev;
    op_t   o = x->ops[x->op];
    int    point = x->point;
    if (point == P_CALL) {
        e += sprintf(e, "{\"op\":\"call\",\"t\":%d,\"f\":\"%s\",\"n\":%d,\"d\":[", t, FN[o.f], o.f == 1 || o.f == 11 || o.f == 14 ? 1 : o.len);
        if (t == 0 && o.f < 2) for (int i = 0; i < (o.f ? 1 : o.len); i++) { x->data[i] = next_in; e += sprintf(e, "%s%d", i ? "," : "", next_in); next_in = next_in % 199 + 1; }
        sprintf(e, "]}");
        if (t) memset(x->data, 0xEE, sizeof x->data);
    } else if (point == P_RET) {
        e += sprintf(e, "{\"op\":\"ret\",\"t\":%d,\"r\":%d,\"d\":[", t, x->r);
        for (int i = 0; i < x->nd; i++) e += sprintf(e, "%s%d", i ? "," : "", x->data[i]);
        sprintf(e, "]}");
    }
    resume(t);
    int bad = oob || ring.bufsize != (size_t)N || ring.buffer != cells;
    for (size_t i = 0; i < sizeof arena; i++) if ((i < PAD || i >= PAD + N) && arena[i] != cshadow[i]) bad = 1;
    if (point == P_ACC) {
        if (x->point == P_ACC && x->steps > limit) sprintf(ev, "{\"op\":\"stuck\",\"t\":%d}", t);
        else {
            e += sprintf(e, "{\"op\":\"step\",\"t\":%d,\"h\":%ld,\"k\":%ld,\"b\":%d,\"c\":[", t, (long)ring.head, (long)ring.tail, bad);
            int n = 0;
            for (int i = 0; i < N; i++) if (cells[i] != cshadow[PAD + i]) e += sprintf(e, "%s[%d,%d]", n++ ? "," : "", i, cells[i]);
            sprintf(e, "]}");
        }
    } else if (bad || ring.head != hshadow || ring.tail != tshadow) sprintf(ev, "{\"op\":\"step\",\"t\":%d,\"h\":%ld,\"k\":%ld,\"b\":1,\"c\":[]}", t, (long)ring.head, (long)ring.tail);
    hshadow = ring.head; tshadow = ring.tail; memcpy(cshadow, arena, sizeof arena);
    return strncmp(ev, "{\"op\":\"stuck\"", 13) != 0;
}

/* ---------------------------------------------------------------- exploration */
typedef struct { uint64_t k[2]; int parent; char t; } node_t;
static node_t *nodes;
static int     nn, cap, base = 1, *tab, tabsz;
static void key(uint64_t k[2]) {
    uint64_t a = 1469598103934665603ull, b = 88172645463325252ull;
#define IN(v) { uint64_t q = (uint64_t)(v); a = (a ^ q) * 1099511628211ull; a ^= a >> 31; b = (b + q) * 0x9E3779B97F4A7C15ull; b ^= b >> 27; }
    IN(ring.head) IN(ring.tail)
    for (int i = 0; i < N; i++) IN(cells[i])
    for (int i = 0; i < 2; i++) { IN(T[i].op) IN(T[i].point) IN(T[i].steps) IN(T[i].hash) }
    k[0] = a; k[1] = b;
}
static int lookup(int parent, int t) {
    uint64_t k[2];
    key(k);
    if (nn * 2 >= tabsz) {
        tabsz = tabsz ? tabsz * 2 : 4096;
        tab = realloc(tab, tabsz * sizeof *tab);
        memset(tab, 0xFF, tabsz * sizeof *tab);
        for (int i = 0; i < nn; i++) { int j = nodes[i].k[0] % tabsz; while (tab[j] >= 0) j = (j + 1) % tabsz; tab[j] = i; }
    }
    int j = k[0] % tabsz;
    while (tab[j] >= 0) { node_t *x = &nodes[tab[j]]; if (x->k[0] == k[0] && x->k[1] == k[1]) return tab[j]; j = (j + 1) % tabsz; }
    if (nn == cap) nodes = realloc(nodes, (cap = cap ? cap * 2 : 4096) * sizeof *nodes);
    nodes[nn] = (node_t){{k[0], k[1]}, parent, (char)t};
    tab[j] = nn;
    return nn++;
}
static void edge(int a, int b) { printf("[%d,%d,%s]\n", a, b, ev); }
static void begin(int to) {
    printf("[0,%d,{\"op\":\"start\",\"n\":%d,\"h\":%ld,\"k\":%ld,\"c\":[", to, N, (long)ring.head, (long)ring.tail);
    for (int i = 0; i < N; i++) printf("%s%d", i ? "," : "", cells[i]);
    printf("]}]\n");
}
static void go(int n) {  /* to node n by its schedule */
    static char path[1 << 20];
    int m = 0;
    for (int x = n; nodes[x].parent >= 0; x = nodes[x].parent) path[m++] = nodes[x].t;
    start();
    while (m > 0) { int t = path[--m]; step(t); }
}
static void config(void) {
    N = hx_int(); H0 = hx_int(); FILL = hx_int();
    int most = 0;
    for (int t = 0; t < 2; t++) {
        T[t].nops = hx_int();
        for (int i = 0; i < T[t].nops; i++) { T[t].ops[i].f = hx_int(); T[t].ops[i].len = hx_int(); if (T[t].ops[i].len > most) most = T[t].ops[i].len; }
    }
    limit = 120 + 24 * most;
}
int main(void) {
    setvbuf(stdout, NULL, _IOFBF, 1 << 20);
    while (hx_next()) {
        char *op = hx_word();
        alarm(300);
        if (HX_IS("graph")) {
            config();
            nn = 0; if (tab) memset(tab, 0xFF, tabsz * sizeof *tab);
            start();
            lookup(-1, 0);
            begin(base);
            int hang = 0, extra = 0;
            for (int n = 0; n < nn && !hang; n++) {
                alarm(20);
                for (int t = 0; t < 2 && !hang; t++) {
                    go(n);
                    if (T[t].point == P_DONE) continue;
                    hang = !step(t);
                    edge(base + n, hang ? base + n : base + lookup(n, t));
                    if (!hang && T[t].point == P_ACC && T[t].steps > limit / 2 && T[t].steps % 8 == 0) {
                        /* a long call: does it return at all, left alone? */
                        while (T[t].point == P_ACC && !hang) hang = !step(t);
                        if (!hang) continue;
                        go(n); step(t);
                        int at = base + lookup(n, t), ok;
                        do { ok = step(t); extra++; edge(at, base + nn + extra); at = base + nn + extra; } while (ok);
                    }
                }
                if (nn > 2000000) hx_die("too many states");
            }
            base += nn + extra + 1;
            if (hang) break;       /* nothing more needs to be known */
        } else if (HX_IS("run")) {
            uint64_t s = (uint64_t)hx_int() * 2654435761u + 88172645463325252ull;
            int      burst = hx_int();
            config();
            start();
            begin(base);
            int t = 0, left = 0;
            while (T[0].point != P_DONE || T[1].point != P_DONE) {
                s ^= s << 13; s ^= s >> 7; s ^= s << 17;
                if (left-- <= 0) { t = s & 1; left = (s >> 8) % burst; }
                if (T[t].point == P_DONE) t = 1 - t;
                int ok = step(t);
                edge(base, base + 1);
                base++;
                if (!ok) break;
            }
            base++;
        } else hx_die(op);
    }
    fflush(stdout);
    _exit(0);
}
