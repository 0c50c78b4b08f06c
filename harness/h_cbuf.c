/* C01: ring buffer, sequential. Every command also reports size, capacity, empty and full. */
#include "hx.h"
#include "gel/collections/circular_buffer.h"

static HX_TLS circular_buf_t cb;
static HX_TLS GEL_CBUF_TYPE *mem;
static HX_TLS int            N;

static void obs(int r, GEL_CBUF_TYPE *d, int n) {
    printf("{\"r\":%d,\"d\":[", r);
    for (int i = 0; i < n; i++)
        printf("%s%lld", i ? "," : "", (long long)d[i]);
    printf("],\"size\":%lld,\"cap\":%lld,\"empty\":%d,\"full\":%d}", (long long)circular_buf_size(&cb),
           (long long)circular_buf_capacity(&cb), !!is_circular_buf_empty(&cb), !!is_circular_buf_full(&cb));
    hx_end();
}

static void obs2(int r) {
    printf("{\"r\":%d,\"size\":%lld,\"cap\":%lld,\"empty\":%d,\"full\":%d}", r, (long long)circular_buf_size(&cb),
           (long long)circular_buf_capacity(&cb), !!is_circular_buf_empty(&cb), !!is_circular_buf_full(&cb));
    hx_end();
}
/* numbered bytes: the k-th ever accepted is num(k) */
static GEL_CBUF_TYPE num(unsigned k) { return (GEL_CBUF_TYPE)((k * 2654435761u) >> 13); }
static HX_TLS unsigned      accepted;

int main(void) {
    while (hx_next()) {
        char *op = hx_word();
        if (HX_IS("reset")) {
            free(mem);
            mem = NULL;
            memset(&cb, 0xA5, sizeof(cb));
            printf("0");
            hx_end();
        } else if (HX_IS("init")) {
            /* again: sometimes with the memory it already has, after whatever happened to the ring */
            static int turn;
            int        n = hx_int();
            if (mem && n == N && turn++ % 2 == 0) ;
            else {
                free(mem);
                mem = hx_exact(n * sizeof(GEL_CBUF_TYPE), 0x5A);
            }
            N = n;
            obs(circular_buf_init(&cb, mem, N), NULL, 0);
        } else if (HX_IS("badinit")) { /* no memory or no room: refused, nothing changes */
            int how = hx_int();
            obs(!!circular_buf_init(&cb, how ? mem : NULL, how ? 0 : 5), NULL, 0);
        } else if (HX_IS("noring")) { /* the other ring in use must not be affected: seen by the calls that follow */
            int            bare = hx_int(), moved = 0;
            circular_buf_t none, *c = bare ? &none : NULL;
            GEL_CBUF_TYPE  d[3] = {1, 2, 3}, e[3] = {1, 2, 3};
            memset(&none, 0, sizeof none);
            if (!bare) circular_buf_reset(c);
            int r[6];
            r[0] = circular_buf_putc(c, 7); r[1] = circular_buf_puts(c, d, 3); r[2] = circular_buf_getc(c, d);
            r[3] = circular_buf_gets(c, d, 3); r[4] = circular_buf_peek(c, d, 3); r[5] = circular_buf_drop(c, 3);
            moved = memcmp(d, e, sizeof d) != 0;
            printf("{\"xfer\":[%d,%d,%d,%d,%d,%d],\"empty\":%d,\"looks\":[%d,%ld,%ld],\"data\":%d}", r[0], r[1], r[2], r[3], r[4], r[5], is_circular_buf_empty(c),
                   bare ? 0 : is_circular_buf_full(c), bare ? 0 : (long)circular_buf_size(c), bare ? 0 : (long)circular_buf_capacity(c), moved);
            hx_end();
        } else if (HX_IS("clear")) {
            circular_buf_reset(&cb);
            obs(0, NULL, 0);
        } else if (HX_IS("putc")) {
            obs(circular_buf_putc(&cb, (GEL_CBUF_TYPE)hx_int()), NULL, 0);
        } else if (HX_IS("puts")) {
            int            n = hx_int();
            GEL_CBUF_TYPE *d = hx_exact(n * sizeof(*d), 0), *c = hx_exact(n * sizeof(*d), 0);
            for (int i = 0; i < n; i++)
                d[i] = c[i] = (GEL_CBUF_TYPE)hx_int();
            int r = circular_buf_puts(&cb, d, n);
            if (memcmp(d, c, n * sizeof(*d)))
                r = -1000; /* the caller's buffer was modified */
            free(d);
            free(c);
            obs(r, NULL, 0);
        } else if (HX_IS("getc")) {
            int            want = hx_int();
            GEL_CBUF_TYPE *d    = hx_exact(sizeof(*d), 0xEE);
            int            r    = circular_buf_getc(&cb, want ? d : NULL);
            obs(r, d, want && r == 0);
            free(d);
        } else if (HX_IS("gets") || HX_IS("peek")) {
            int            len = hx_int(), want = hx_int();
            size_t         room = len < 2 * N + 64 ? len : N; /* a ring of N never holds more */
            GEL_CBUF_TYPE *d = hx_exact(room * sizeof(*d), 0xEE);
            int r = HX_IS("gets") ? circular_buf_gets(&cb, want ? d : NULL, len) : circular_buf_peek(&cb, want ? d : NULL, len);
            for (size_t i = r < 0 ? 0 : r; i < room; i++)
                for (size_t j = 0; j < sizeof(*d); j++)
                    if (((unsigned char *)&d[i])[j] != 0xEE)
                        r = -2000; /* bytes delivered beyond the reported count */
            obs(r, d, want && r > 0 && r <= (int)room ? r : 0);
            free(d);
        } else if (HX_IS("bigring")) {
            N = hx_int();
            free(mem);
            mem = hx_exact((size_t)N * sizeof(GEL_CBUF_TYPE), 0x5A);
            accepted = 0;
            circular_buf_init(&cb, mem, N);
            obs2(0);
        } else if (HX_IS("putn")) {
            int            n = hx_int();
            GEL_CBUF_TYPE *d = hx_exact((size_t)n * sizeof(*d), 0);
            for (int i = 0; i < n; i++)
                d[i] = num(accepted + i);
            int r = circular_buf_puts(&cb, d, n);
            free(d);
            accepted += r;
            obs2(r);
        } else if (HX_IS("getn") || HX_IS("peekn")) {
            unsigned       from = hx_int();
            int            k = hx_int(), room = k < N + 64 ? k : N;
            GEL_CBUF_TYPE *d = hx_exact((size_t)room * sizeof(*d), 0xEE);
            int            r = HX_IS("getn") ? circular_buf_gets(&cb, d, k) : circular_buf_peek(&cb, d, k);
            for (int i = 0; i < r && i < room; i++)
                if (d[i] != num(from + i))
                    r = -3000;
            free(d);
            obs2(r);
        } else if (HX_IS("walk")) { /* a byte in and a byte out, k times */
            unsigned from = hx_int();
            int      k = hx_int(), m = hx_int(), r = 0;
            size_t   size = circular_buf_size(&cb);
            for (int i = 0; i < k; i++) {
                GEL_CBUF_TYPE in = num(accepted), out = ~num(from);
                int           a = m == 1 ? circular_buf_puts(&cb, &in, 1) - 1 : circular_buf_putc(&cb, in);
                int           more = circular_buf_size(&cb) == size + 1 && !is_circular_buf_empty(&cb) && !is_circular_buf_full(&cb) == (size + 1 != circular_buf_capacity(&cb));
                int           b = m == 1 ? circular_buf_gets(&cb, &out, 1) - 1 : m == 2 ? circular_buf_peek(&cb, &out, 1) + circular_buf_drop(&cb, 1) - 2 : circular_buf_getc(&cb, &out);
                int           less = circular_buf_size(&cb) == size && !is_circular_buf_full(&cb) && !is_circular_buf_empty(&cb) == (size != 0);
                if (!a && !b && more && less && out == num(from)) r++;
                else if (r >= 0) r = -4000 - r;
                if (r < 0) break;
                accepted++; from++;
            }
            obs2(r);
        } else if (HX_IS("dropn")) {
            hx_int();
            obs2(circular_buf_drop(&cb, hx_int()));
        } else if (HX_IS("drop")) {
            int len = hx_int();
            obs(circular_buf_drop(&cb, len), NULL, 0);
        } else
            hx_die(op);
    }
    return 0;
}
