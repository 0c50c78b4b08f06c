/* C07/C08: wear levelling over a simulated storage with fault injection and power losses inside the block write. */
#include "hx.h"
#include <setjmp.h>
#include "gel/wearleveling/wearleveling.h"
#define MAXB 256
static HX_TLS int      B, style, mode; /* mode 0: results and data, 1: block writes with relative marker, 2: with absolute marker */
static HX_TLS size_t   BS;
static HX_TLS uint8_t *dat[MAXB], mk[MAXB];
static HX_TLS int      merr, mbad, asked, rerr, werr, oob;
static HX_TLS char     fault[16];
static HX_TLS jmp_buf  power;
static HX_TLS int      nw, wb[64], wm[64], wl[64], lens; /* lens: buffers of any length (WearLen) */
static HX_TLS wear_leveled_memory_t *wlm;

/* value v <-> BS bytes; torn blocks are recognisable.  style 1: both halves are zeros with the value at their end;
   style k > 1: zeros with the value at offset k; style -1: the bytes of all values have the same sum and exclusive or;
   style -2: so have their 32-bit words */
static void to_bytes(uint8_t *p, int v) {
    if (style == 3) memset(p, 0, BS);     /* buffers of any length: the bytes are in the commands */
    else if (style == 1) {
        memset(p, 0, BS);
        p[BS / 2 - 2] = p[BS - 2] = v >> 8; p[BS / 2 - 1] = p[BS - 1] = v;
    } else if (style > 1) {
        memset(p, 0, BS);
        p[style] = v >> 8; p[style + 1] = v;
    } else if (style < 0) {
        int w = style == -1 ? 1 : 4, k = BS / w / 3;   /* v and its complement twice over, at distances of a third of the block */
        memset(p, 0x11, BS);
        for (int i = 0; i < 9; i++) {
            p[w * i]             = v >> i & 1 ? 0x35 : 0x62;
            p[w * (k + i)]       = v >> i & 1 ? 0x62 : 0x35;
        }
    } else for (size_t i = 0; i < BS; i++) p[i] = (uint8_t)(i == 0 ? v : i == 1 ? v >> 8 : v * 31 + i);
}
static int  of_bytes(uint8_t *p, size_t len) {
    for (int v = 0; v < 512; v++) {
        uint8_t t[BS];
        to_bytes(t, v);
        if (!memcmp(t, p, len)) return v;
    }
    return -1;
}
static int rm(size_t b, uint8_t *m) {
    HX_PAUSE();
    if (b >= (size_t)B) { oob++; *m = 0; return -99; }
    if (merr && (mbad < 0 || (int)b == mbad)) { asked = 1; return merr; }
    *m = mk[b];
    HX_PAUSE();
    return 0;
}
static int rb(size_t b, uint8_t *buf, size_t len) {
    HX_PAUSE();
    if (b >= (size_t)B || len > BS) { oob++; return -99; }
    if (rerr) return rerr;
    memcpy(buf, dat[b], len);
    HX_PAUSE();
    return 0;
}
static int wr(size_t b, uint8_t m, uint8_t *buf, size_t len) {
    HX_PAUSE();
    if (b >= (size_t)B || len > BS) { oob++; return -99; }
    if (nw < 64) { wb[nw] = b; wl[nw] = len; wm[nw++] = mode == 1 ? (uint8_t)(m - mk[(b + B - 1) % B]) : m; }
#define F(s) (!strcmp(fault, s))
    if (F("before")) longjmp(power, 1);
    if (F("fail0")) return werr;
    if (F("mid") || F("failt")) {
        memset(dat[b], 0xC3, BS);
        memcpy(dat[b], buf, len / 2);
        if (F("mid")) longjmp(power, 1);
        return werr;
    }
    memcpy(dat[b], buf, len);
    mk[b] = m;
    HX_PAUSE();
    if (F("after")) longjmp(power, 1);
    return 0;
}
static void out(int r, int d) {
    if (oob) r = -7777;
    if (mode == 0) printf("[%d,%d]", r, d);
    else {
        printf("[");
        for (int i = 0; i < nw; i++) if (lens) printf("%s[%d,%d,%d]", i ? "," : "", wb[i], wm[i], wl[i]); else printf("%s[%d,%d]", i ? "," : "", wb[i], wm[i]);
        if (oob) printf("%s[-7777,-7777]", nw ? "," : "");
        printf("]");
    }
    hx_end();
    nw = 0;
    merr = rerr = werr = 0; mbad = -1;
    strcpy(fault, "none");
}
static void outl(int r, const uint8_t *d, size_t n) {
    if (mode) { lens = 1; out(r, -2); lens = 0; return; }
    printf("[%d,[", oob ? -7777 : r);
    for (size_t i = 0; i < n; i++) printf("%s%d", i ? "," : "", d[i]);
    printf("]]"); hx_end(); nw = 0; strcpy(fault, "none");
}
static void lose(void) { free(wlm); wlm = hx_exact(sizeof(*wlm), 0xA5); }
int main(int argc, char **argv) {
    mode = atoi(argv[1]);
    BS   = atoi(argv[2]);
    style = argc > 3 ? atoi(argv[3]) : 0;
    strcpy(fault, "none");
    mbad = -1;
    while (hx_next()) {
        char *op = hx_word();
        if (HX_IS("reset")) { oob = 0; lose(); printf("0"); hx_end(); }
        else if (HX_IS("virgin")) {
            B = hx_int();
            int m = hx_int();
            for (int i = 0; i < B; i++) { if (!dat[i]) dat[i] = malloc(BS); to_bytes(dat[i], 0); mk[i] = m; }
            lose(); printf("0"); hx_end();
        } else if (HX_IS("init")) {
            static int turn;
            merr = hx_int(); mbad = hx_int(); asked = 0;
            if (turn++ % 3 != 2) lose();   /* else: initialised again while in use */
            int r = wearleveling_init(wlm, rb, wr, rm, B);
            out(r, asked ? -3 : -2);     /* was a marker asked for that cannot be read? */
        } else if (HX_IS("power")) { lose(); out(0, -2); }
        else if (HX_IS("read")) {
            size_t len = hx_int(); rerr = hx_int();
            if (len > BS) len = BS;
            uint8_t *b = hx_exact(len, 0xEE);
            int r = wearleveling_read(wlm, b, len);
            out(r, r ? -2 : of_bytes(b, len)); free(b);
        } else if (HX_IS("write")) {
            int v = hx_int(); rerr = hx_int(); werr = 0;
            strcpy(fault, hx_word()); werr = hx_int();
            uint8_t *b = hx_exact(BS, 0);
            to_bytes(b, v);
            int r;
            if (setjmp(power)) { lose(); r = 9999; }
            else r = wearleveling_write(wlm, b, BS);
            if (of_bytes(b, BS) != v) r = -1000;
            free(b);
            out(r, -2);
        } else if (HX_IS("boot")) {
            static int turn;
            if (turn++ % 3 != 2) lose();
            outl(wearleveling_init(wlm, rb, wr, rm, B), NULL, 0);
        } else if (HX_IS("readl")) {
            size_t n = hx_int(); uint8_t *b = hx_exact(n, 0xEE);
            int r = wearleveling_read(wlm, b, n);
            outl(r, b, n); free(b);
        } else if (HX_IS("writel")) {
            size_t n = hx_int(); uint8_t *b = hx_exact(n, 0), *c = hx_exact(n, 0);
            for (size_t i = 0; i < n; i++) c[i] = b[i] = hx_int();
            strcpy(fault, hx_word()); werr = -77;
            int r;
            if (setjmp(power)) { lose(); r = 9999; }
            else r = wearleveling_write(wlm, b, n);
            if (memcmp(b, c, n)) r = -1000;
            outl(r, NULL, 0); free(b); free(c);
        } else hx_die(op);
    }
    return 0;
}
