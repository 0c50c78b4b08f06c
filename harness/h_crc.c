/* C24. argv[1]: 16 | 32. The register is threaded by the harness, as callers do. */
#include "hx.h"
#include "gel/crc/crc16-ccitt.h"
#include "gel/crc/crc32.h"
static HX_TLS int      w;
static HX_TLS uint32_t reg, ini;
static HX_TLS uint8_t *msg;
static HX_TLS size_t   n;
static uint32_t run(uint32_t init, const uint8_t *b, size_t len) { return w == 16 ? crc16_ccitt(b, len, (unsigned short)init) : crc32(b, len, init); }
static int feed(uint32_t *r, const uint8_t *src, size_t len) {   /* from an exact-size copy */
    static unsigned turn;
    size_t   off = turn++ % 5;   /* any alignment, the end always exact */
    uint8_t *b0 = hx_exact(len + off, 0), *b = b0 + off;
    memcpy(b, src, len);
    *r = run(*r, b, len);
    int bad = 0;
    for (size_t i = 0; i < len; i++) bad += b[i] != src[i];
    free(b0);
    return bad;
}
int main(int c, char **v) {
    w = atoi(v[1]);
    msg = malloc(1 << 22);
    static uint8_t g[1 << 20];
    while (hx_next()) {
        char *op = hx_word();
        int   bad = 0;
        if (HX_IS("reset")) { reg = ini = 0; n = 0; printf("0"); hx_end(); continue; }
        else if (HX_IS("init")) { reg = 0; int k = hx_int(); while (k--) reg = reg << 8 | hx_int(); ini = reg; n = 0; }
        else if (HX_IS("block")) { int k = hx_int(); for (int i = 0; i < k; i++) msg[n + i] = hx_int(); bad = feed(&reg, msg + n, k); n += k; if (n > 1 << 21) n = 0; }
        else if (HX_IS("gen")) {
            long a = hx_int(), b = hx_int(), i0 = hx_int(), j = hx_int();
            for (long i = i0; i <= j; i++) g[i - i0] = (a * i + b * (i / 251) + (i / 65536) * 7) % 256;
            bad = feed(&reg, g, j < i0 ? 0 : j - i0 + 1);
        } else if (HX_IS("whole")) { reg = ini; bad = feed(&reg, msg, n); }
        else hx_die(op);
        printf("[[");
        for (int i = w - 8; i >= 0; i -= 8) printf("%d%s", (reg >> i) & 255, i ? "," : "");
        printf("],%d]", bad);
        hx_end();
    }
    return 0;
}
