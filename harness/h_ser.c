/* C23. The buffer of a history is an exact heap block; functions and macros of the header. */
#include "hx.h"
#include "gel/serializer/serializer.h"
#ifndef SIZE
#define SIZE 8
#endif
static HX_TLS uint8_t *b;
static void tailb(void) { printf(",["); for (int i = 0; i < SIZE; i++) printf("%s%d", i ? "," : "", b[i]); printf("]]"); }
static size_t put(uint8_t *p, int w, int be, int mac, unsigned long long v) {
    static int style;
    if (mac && be && w == 2) switch (style++ % 9) {   /* the macros, from various types and expressions, with effects that must take place once */
        case 6: { uint16_t src[3] = {(uint16_t)v, 0x5A5A, 0xA5A5}, *q = src; size_t n = PACK_UINT16_BE(p, *q++); return n + 100 * (q - src - 1); }
        case 7: { uint8_t *at = p - 1; size_t n = PACK_UINT16_BE(++at, v); return n + 100 * (at - p); }
        case 8: { int x = (int)v - 1, i = 0; uint8_t *to[3] = {p, 0, 0}; size_t n = PACK_UINT16_BE(to[i++], ++x); return n + 100 * (i - 1) + 1000 * (x - (int)v); }
        case 0: return PACK_UINT16_BE(p, (uint16_t)v);
        case 1: { long long x = (long long)v | 0x70000; return PACK_UINT16_BE(p, x); }
        case 4: { uint16_t tmp = v; return PACK_UINT16_BE(p, tmp); }
        case 5: { size_t size = 0; size += PACK_UINT16_BE(&p[size], v); return size; }
        case 2: { int x = (int16_t)v; return PACK_UINT16_BE(p - 1 + 1, x + 0); }
        default: { size_t n = 0; n += PACK_UINT16_BE(&p[n], v & 0xFFFF); return n; }
    }
    if (mac && w == 1) switch (style++ % 7) {
        case 5: { uint8_t src[3] = {(uint8_t)v, 0x5A, 0xA5}, *q = src; size_t n = PACK_UINT8(p, *q++); return n + 100 * (q - src - 1); }
        case 6: { uint8_t *at = p; size_t n = PACK_UINT8(at++, v); return n + 100 * (at - p - 1); }
        case 0: return PACK_UINT8(p, (uint8_t)v);
        case 3: { uint8_t tmp = v; return PACK_UINT8(p, tmp); }
        case 4: { size_t size = 0; size += PACK_UINT8(&p[size], v); return size; }
        case 1: { int x = (int8_t)v; return PACK_UINT8(p, x); }
        default: { size_t n = 0; n += PACK_UINT8(&p[n], v + 256); return n; }
    }
    switch (w) {
        case 1: return serialize_uint8(p, v);
        case 2: return be ? serialize_uint16_be(p, v) : serialize_uint16_le(p, v);
        case 4: return be ? serialize_uint32_be(p, v) : serialize_uint32_le(p, v);
        case 8: return be ? serialize_uint64_be(p, v) : serialize_uint64_le(p, v);
    }
    hx_die("width"); return 0;
}
/* the destination is filled beforehand with the complement, and lies between guards */
#define DEC(T, F) { struct { uint8_t g; T v; uint8_t h; } x; memset(&x, 0x66, sizeof x); n = F(&x.v, p); *neg = x.v < 0; *val = 0; memcpy(val, &x.v, sizeof(T)); if (x.g != 0x66 || x.h != 0x66) n += 100; return n; }
static size_t get(uint8_t *p, int w, int be, int s, int mac, unsigned long long *val, int *neg) {
    size_t n;
    static int style;
    *neg = 0;
    if (mac && !s && (w == 1 || (be && (w == 2 || w == 4)))) {
        long long big = -1; uint32_t u = 0x66666666; uint16_t h = 0x6666;
        size_t    k = 0;
        int       st = style++ % 8;
        int8_t i8 = 0x66; int16_t i16 = 0x66; int32_t i32 = 0x6666; unsigned long ul = -1; double d = 0.5;
        long long tmp = -1; size_t size = 0;   /* ordinary names for a value and a position */
        uint32_t dst[3] = {0x66666666, 0x66666666, 0x66666666}; uint32_t *q = dst; uint8_t *at = p; int once = style / 8 % 2;
        if (once) {   /* effects in the arguments take place once */
            k = w == 1 ? UNPACK_UINT8(*q++, at++) : w == 2 ? UNPACK_UINT16_BE(*q++, at++) : UNPACK_UINT32_BE(*q++, at++);
            k += 100 * (q - dst - 1) + 1000 * (at - p - 1);
            *val = dst[0];
            *neg = (dst[1] & dst[2]) != 0x66666666 || w < 4 && *val >> 8 * w != 0;
            return k;
        }
        if (w == 1) { if (st == 0) { k = UNPACK_UINT8(big, p); *val = big; } else if (st == 5) { k = UNPACK_UINT8(i8, p); *val = (unsigned long long)i8 & 0xFF; } else if (st == 6) { k = UNPACK_UINT8(ul, p); *val = ul; } else if (st == 7) { k = UNPACK_UINT8(d, p); *val = d; } else if (st == 3) { k = UNPACK_UINT8(tmp, p); *val = tmp; } else if (st == 4) { size += UNPACK_UINT8(u, &p[size]); *val = u; k = size; } else if (st == 1) { k += UNPACK_UINT8(u, &p[k]); *val = u; } else { k = UNPACK_UINT8(h, p - 2 + 2); *val = h; } }
        else if (w == 2) { if (st == 0) { k = UNPACK_UINT16_BE(big, p); *val = big; } else if (st == 5) { k = UNPACK_UINT16_BE(i16, p); *val = (unsigned long long)i16 & 0xFFFF; } else if (st == 6) { k = UNPACK_UINT16_BE(ul, p); *val = ul; } else if (st == 7) { k = UNPACK_UINT16_BE(d, p); *val = d; } else if (st == 3) { k = UNPACK_UINT16_BE(tmp, p); *val = tmp; } else if (st == 4) { size += UNPACK_UINT16_BE(u, &p[size]); *val = u; k = size; } else if (st == 1) { k += UNPACK_UINT16_BE(u, &p[k]); *val = u; } else { k = UNPACK_UINT16_BE(h, p - 2 + 2); *val = h; } }
        else { if (st == 0) { k = UNPACK_UINT32_BE(big, p); *val = big; } else if (st == 5) { k = UNPACK_UINT32_BE(i32, p); *val = (unsigned long long)i32 & 0xFFFFFFFF; } else if (st == 6) { k = UNPACK_UINT32_BE(ul, p); *val = ul; } else if (st == 7) { k = UNPACK_UINT32_BE(d, p); *val = d; } else if (st == 3) { k = UNPACK_UINT32_BE(tmp, p); *val = tmp; } else if (st == 4) { size += UNPACK_UINT32_BE(u, &p[size]); *val = u; k = size; } else { k += UNPACK_UINT32_BE(u, &p[k]); *val = u; } }
        *neg = w < 8 && *val >> 8 * w != 0;   /* bytes that are not of the value: a wider variable must be zero there */
        return k;
    }
    if (!s) switch (w) {
        case 1: DEC(uint8_t, deserialize_uint8)
        case 2: if (be) DEC(uint16_t, deserialize_uint16_be) else DEC(uint16_t, deserialize_uint16_le)
        case 4: if (be) DEC(uint32_t, deserialize_uint32_be) else DEC(uint32_t, deserialize_uint32_le)
        case 8: if (be) DEC(uint64_t, deserialize_uint64_be) else DEC(uint64_t, deserialize_uint64_le)
    } else switch (w) {
        case 1: DEC(int8_t, deserialize_int8)
        case 2: if (be) DEC(int16_t, deserialize_int16_be) else DEC(int16_t, deserialize_int16_le)
        case 4: if (be) DEC(int32_t, deserialize_int32_be) else DEC(int32_t, deserialize_int32_le)
        case 8: if (be) DEC(int64_t, deserialize_int64_be) else DEC(int64_t, deserialize_int64_le)
    }
    hx_die("width"); return 0;
}
int main(void) {
    while (hx_next()) {
        char *op = hx_word();
        if (HX_IS("reset")) { free(b); b = hx_exact(SIZE, 170); printf("0"); hx_end(); continue; }
        if (HX_IS("sweep")) {
            int k = hx_int(), h = hx_int(), be = hx_word()[0] == 'b';
            printf("[");
            for (int x = 0; x < 256; x++) {
                uint8_t q[2]; unsigned long long v, u; int neg, n2;
                if (put(q, 2, be, h & 1, k ? x * 256 + h : h * 256 + x) != 2) q[0] ^= 1;
                if (get(q, 2, be, 0, h & 1, &u, &n2) != 2) u ^= 1;
                if (get(q, 2, be, 1, 0, &v, &neg) != 2) v ^= 1;
                if (u != (v & 0xFFFF)) v ^= 2;
                printf("%s[[%d,%d],[%d,%d],%d]", x ? "," : "", q[0], q[1], (int)(v & 255), (int)(v >> 8 & 255), neg);
            }
            printf("]"); hx_end(); continue;
        }
        if (HX_IS("put")) {
            int w = hx_int(), at = hx_int(), be = hx_word()[0] == 'b', mac = hx_word()[0] == 'm';
            unsigned long long v = hx_limbs();
            printf("[%ld,[],0", (long)put(b + at, w, be, mac, v));
        } else if (HX_IS("get")) {
            int at = hx_int(), w = hx_int(), be = hx_word()[0] == 'b', s = hx_int(), mac = hx_word()[0] == 'm', neg;
            unsigned long long v;
            size_t n = get(b + at, w, be, s, mac, &v, &neg);
            printf("[%ld,", (long)n); hx_out_limbs(v, w); printf(",%d", neg);
        } else if (HX_IS("raw")) {
            int at = hx_int(), n = hx_int();
            for (int i = 0; i < n; i++) b[at + i] = hx_int();
            printf("[0,[],0");
        } else hx_die(op);
        tailb();
        hx_end();
    }
    return 0;
}
