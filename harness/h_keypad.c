/* C11. args: number of keys, time scale factor, base timestamp, table flavour. */
#include "hx.h"
#include "gel/keypad/keypad.h"
#include "gel/timer/timecheck.h"
#define MAXK 400
static HX_TLS keypad_key_t *keys;
static HX_TLS int           K;
static HX_TLS timestamp_t   now, base, F;
static HX_TLS unsigned long bits[MAXK + 1], unknown[4];
static int code(int i) { return i % 4 == 1 ? 100 + 7 * i : i % 4 == 2 ? -5 - i : i % 4 == 3 ? (i << 20) + 3 : (int)(0x80000000u + i); }
static void fresh(int dirty) {
    free(keys);
    keys = hx_exact(sizeof(*keys) * (K + 1), 0);
    for (int i = 0; i < K; i++) {
        keypad_key_t t = KEYPAD_KEY(bits[i + 1], code(i + 1));
        keys[i] = t;
    }
    keypad_key_t z = KEYPAD_NULL_KEY;
    keys[K] = z;
    now = base;
    if (dirty) { for (int i = 0; i < K; i++) memset(&keys[i]._state, 0xA5, sizeof keys[i]._state); keypad_reset_keys(keys); }
}
static void out(keypad_update_t u) {
    int ev = u.event == KEY_NOTHING ? 0 : u.event == KEY_PRESS ? 1 : u.event == KEY_PRESSING ? 2 : u.event == KEY_CLICK ? 3 : u.event == KEY_LONGCLICK ? 4 : u.event == KEY_LONGPRESS ? 5 : u.event == KEY_RELEASE ? 6 : 99;
    int k = K;
    while (k > 0 && code(k) != u.code) k--;
    if (k == 0 && u.code != 0) k = -9;
    printf("[%d,%d,[", k, ev);
    for (int i = 0; i < K; i++) printf("%s%d", i ? "," : "", keypad_get_key_state(&keys[i]));
    printf("]]");
    hx_end();
}
int main(int argc, char **argv) {
    K = atoi(argv[1]); F = strtoul(argv[2], 0, 0); base = strtoul(argv[3], 0, 0);
    int fl = atoi(argv[4]), n = 0;
    for (int i = 1; i <= K; i++) bits[i] = fl == 0 ? 1ul << (i - 1) : fl == 1 ? (unsigned long)((1u << i) - 1) << 3 : fl == 2 ? 0x8000000000000000ul | (1ul << i) : fl == 4 ? (unsigned long)i << 32 | 1 : ~0ul - i;
    unknown[0] = 0; unknown[1] = fl == 1 ? 5 : fl == 0 ? 3 : bits[1] ^ 2; unknown[2] = bits[K] ^ 1ul << 40; unknown[3] = bits[1] ^ 1ul << 63;
    int epoch = 0;
    while (hx_next()) {
        char *op = hx_word();
        if (HX_IS("reset")) { fresh(epoch++ & 1); printf("0"); hx_end(); }
        else if (HX_IS("rst")) { keypad_reset_keys(keys); keypad_update_t z = {0}; out(z); }
        else if (HX_IS("sample")) {
            unsigned long dt = hx_int(); int b = hx_int(); unsigned long c = hx_int(), l = hx_int(), p = hx_int();
            now += dt * F;
            unsigned long bm = b ? bits[b] : unknown[n++ & 3];
            if (!b) for (int i = 1; i <= K; i++) if (bits[i] == bm) bm = 0;
            out(keypad_routine(keys, (timestamp_t)(c * F), (timestamp_t)(l * F), (timestamp_t)(p * F), now, bm));
        } else hx_die(op);
    }
    return 0;
}
