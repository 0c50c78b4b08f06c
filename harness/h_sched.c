/* C20, C21. argv[1]: when | table. SECDAY seconds of a model day are scaled by the driver to real ones. */
#include "hx.h"
#include "gel/scheduler/scheduler.h"
/* defined, but in no header: declared under names of their own, so that a declaration added to the header cannot disagree */
int x_scheduler_is_active(scheduler_t *, struct tm *) __asm__("scheduler_is_active");
#define scheduler_is_active x_scheduler_is_active
int x_scheduler_current_value(scheduler_t *, struct tm *, int *) __asm__("scheduler_current_value");
#define scheduler_current_value x_scheduler_current_value
int x_scheduler_get_next_enabled_entry(scheduler_t *, size_t) __asm__("scheduler_get_next_enabled_entry");
#define scheduler_get_next_enabled_entry x_scheduler_get_next_enabled_entry
int x_scheduler_get_first_available_entry(scheduler_t *) __asm__("scheduler_get_first_available_entry");
#define scheduler_get_first_available_entry x_scheduler_get_first_available_entry
uint16_t x_scheduler_get_active_entries_map(scheduler_t *, struct tm *) __asm__("scheduler_get_active_entries_map");
#define scheduler_get_active_entries_map x_scheduler_get_active_entries_map
unsigned long x_scheduler_get_schedule_remaining_duration(scheduler_t *, size_t, struct tm *) __asm__("scheduler_get_schedule_remaining_duration");
#define scheduler_get_schedule_remaining_duration x_scheduler_get_schedule_remaining_duration
unsigned long x_scheduler_get_current_remaining_duration(scheduler_t *, struct tm *) __asm__("scheduler_get_current_remaining_duration");
#define scheduler_get_current_remaining_duration x_scheduler_get_current_remaining_duration
size_t x_scheduler_get_max_schedule_entries(scheduler_t *) __asm__("scheduler_get_max_schedule_entries");
#define scheduler_get_max_schedule_entries x_scheduler_get_max_schedule_entries
static HX_TLS scheduler_t *s;
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
static HX_TLS int num = 0;
#define N num
static void start(void) { scheduler_init(s, N); }
static void end(void) { free(s->entries); }
#else
#define N GEL_SCHEDULER_MAX_ENTRIES
static void start(void) { scheduler_init(s); }
static void end(void) {}
#endif
static HX_TLS long         now, unit = 1;
static scheduler_entry_t rd(void) {
    scheduler_entry_t x; memset(&x, 0x77, sizeof x);
    if (hx_int() != 5) hx_die("entry");
    x.enabled = hx_int(); x.days = hx_int(); x.start_second = hx_int() * unit; x.end_second = hx_int() * unit; x.value = hx_int();
    return x;
}
static void pe(const scheduler_entry_t *x) { printf("[%d,%d,%ld,%ld,%d]", x->enabled, x->days, (long)(x->start_second / unit), (long)(x->end_second / unit), x->value); }
static uint32_t limbs(void) { return (uint32_t)hx_limbs(); }
int main(int c, char **v) {
    int table = c > 1 && v[1][0] == 't';
    if (c > 2) unit = atol(v[2]);
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    num = atoi(v[3]);
#endif
    while (hx_next()) {
        char *op = hx_word();
        int   r = 0, big = 0;
        if (HX_IS("reset")) { if (s) end(); free(s); s = hx_exact(sizeof *s, 0x5A); start(); now = 0; printf("0"); hx_end(); continue; }
        if (table) printf("[");
        if (HX_IS("tick")) now = (now + hx_int() * unit) % 604800;
        else if (HX_IS("clock")) now = hx_int() * unit;
        else if (HX_IS("init")) { end(); start(); }
        else if (HX_IS("set")) { size_t i = (size_t)hx_int(); r = scheduler_set_entry(s, i, rd()); }
        else if (HX_IS("mut")) {
            size_t i = (size_t)hx_int(); char *f = hx_word(); long w = hx_int();
            scheduler_entry_t *x = scheduler_get_entry_mut(s, i);
            if (!x) r = -1;
            else switch (f[0]) {
                case 'd': x->days = w; break;
                case 's': x->start_second = w * unit; break;
                case 'v': x->value = w; break;
                default: if (f[1]) x->enabled = w; else x->end_second = w * unit;
            }
        } else if (HX_IS("disable")) r = scheduler_disable_schedule_entry(s, (size_t)hx_int());
        else if (HX_IS("get")) { const scheduler_entry_t *x = scheduler_get_entry(s, (size_t)hx_int()); big = 1; if (x) pe(x); else printf("[]"); }
        else if (HX_IS("enabled")) r = scheduler_is_schedule_entry_enabled(s, (size_t)hx_int());
        else if (HX_IS("first")) r = scheduler_get_first_available_entry(s);
        else if (HX_IS("next")) r = scheduler_get_next_enabled_entry(s, (size_t)hx_int());
        else if (HX_IS("overlap")) { scheduler_entry_t x = rd(); r = scheduler_are_there_overlapping_entries(s, &x); }
        else if (HX_IS("duration")) { scheduler_entry_t x = rd(); r = scheduler_get_entry_duration(&x) / unit; }
        else if (HX_IS("max")) r = scheduler_get_max_schedule_entries(s);
        else if (HX_IS("ser")) {
            scheduler_entry_t x, y; memset(&x, 0x77, sizeof x); memset(&y, 0x99, sizeof y);
            x.enabled = hx_int(); x.days = hx_int(); x.start_second = limbs(); x.end_second = limbs(); x.value = hx_int();
            uint8_t *b = hx_exact(SCHEDULER_ENTRY_SERIALIZED_SIZE, 0xEE);
            size_t   n = scheduler_entry_serialize(b, &x), m = scheduler_entry_deserialize(&y, b);
            printf("[[");
            for (int i = 0; i < 11; i++) printf("%s%d", i ? "," : "", b[i]);
            printf("],%ld,%ld,[%d,%d],", (long)n, (long)m, y.enabled, y.days);
            hx_out_limbs(y.start_second, 4); printf(","); hx_out_limbs(y.end_second, 4); printf(",%d]", y.value);
            free(b); big = 1;
        } else if (HX_IS("des")) {
            if (hx_int() != 11) hx_die("des");
            uint8_t *b = hx_exact(SCHEDULER_ENTRY_SERIALIZED_SIZE, 0);
            for (int i = 0; i < 11; i++) b[i] = hx_int();
            scheduler_entry_t y; memset(&y, 0x99, sizeof y);
            size_t m = scheduler_entry_deserialize(&y, b);
            printf("[%ld,[%d,%d],", (long)m, y.enabled, y.days);
            hx_out_limbs(y.start_second, 4); printf(","); hx_out_limbs(y.end_second, 4); printf(",%d]", y.value);
            free(b); big = 1;
        } else hx_die(op);
        if (table) {
            if (!big) printf("%d", r);
            printf(",[");
            for (int i = 0; i < N; i++) { if (i) printf(","); pe(&s->entries[i]); }
            printf("]]");
        } else {
            struct tm t; memset(&t, 0x3C, sizeof t);
            t.tm_wday = now / 86400; t.tm_hour = now % 86400 / 3600; t.tm_min = now % 3600 / 60; t.tm_sec = now % 60;
            int val = -7777, a = scheduler_get_active_entry_number(s, &t), b = scheduler_is_active(s, &t), d = scheduler_current_value(s, &t, &val);
            if (scheduler_current_value(s, &t, NULL) != d || (!d && val != -7777)) d = -100;
            if (scheduler_get_schedule_remaining_duration(s, N, &t) || scheduler_get_schedule_remaining_duration(s, (size_t)-1, &t)) d = -200;
            printf("[%d,%d,%d,%d,%ld,%d,[", a, b ? 1 : 0, d, d == 1 ? val : 0, (long)scheduler_get_current_remaining_duration(s, &t) / unit, scheduler_get_active_entries_map(s, &t));
            for (int i = 0; i < N; i++) printf("%s%ld", i ? "," : "", s->entries[i].enabled ? (long)scheduler_get_schedule_remaining_duration(s, i, &t) / unit : -1);
            printf("]]");
        }
        hx_end();
    }
    return 0;
}
