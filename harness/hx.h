/* Tiny command/response layer shared by all harnesses: text commands in, one JSON value per line out. */
#ifndef HX_H
#define HX_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>

#ifdef HX_DUAL /* two harnesses run in turn in one program (hx_dual.c) */
#define HX_TLS __thread
char *hx_dual_next(void);
void  hx_dual_pause(void);
#define HX_PAUSE() hx_dual_pause() /* in callbacks: the other one may run here */
#else
#define HX_TLS
#define HX_PAUSE() ((void)0)
#endif
static HX_TLS char  *hx_p;
static HX_TLS char  *hx_buf;
static HX_TLS size_t hx_cap;

static void hx_die(const char *m) {
    fprintf(stderr, "harness: %s\n", m);
    fflush(stdout);
    _exit(97);
}
static int hx_next(void) { /* next command line */
#ifdef HX_DUAL
    hx_p = hx_dual_next();
    return hx_p != NULL;
#endif
    ssize_t n = getline(&hx_buf, &hx_cap, stdin);
    if (n < 0)
        return 0;
    hx_p = hx_buf;
    alarm(30);
    return 1;
}
static char *hx_word(void) {
    while (*hx_p == ' ')
        hx_p++;
    char *s = hx_p;
    while (*hx_p && *hx_p != ' ' && *hx_p != '\n')
        hx_p++;
    if (*hx_p)
        *hx_p++ = 0;
    return s;
}
static long long hx_int(void) {
    char *s = hx_word(), *e;
    if (!*s)
        hx_die("missing argument");
    long long v = strtoll(s, &e, 10);
    if (*e)
        hx_die("bad integer");
    return v;
}
/* list of byte limbs, least significant first */
static unsigned long long hx_limbs(void) {
    int                n = hx_int();
    unsigned long long v = 0;
    for (int i = 0; i < n; i++) {
        unsigned long long b = hx_int();
        if (i < 8)
            v |= b << (8 * i);
    }
    return v;
}
static void hx_out_limbs(unsigned long long v, int n) {
    printf("[");
    for (int i = 0; i < n; i++)
        printf("%s%d", i ? "," : "", (int)((v >> (8 * i)) & 0xFF));
    printf("]");
}
static void hx_end(void) {
    printf("\n");
    fflush(stdout);
}
/* memory block of exactly n bytes (so that the address sanitizer sees any access beyond it) */
static void *hx_exact(size_t n, int fill) {
    void *p = malloc(n ? n : 1);
    if (!p)
        hx_die("out of memory");
    memset(p, fill, n ? n : 1);
    return p;
}
#define HX_IS(s) (strcmp(op, s) == 0)
#endif
