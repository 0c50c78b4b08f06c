/* C12 (CMP), C13 (SW), C14 (TM). args: unit (time scale factor), base timestamp. */
#include "hx.h"
#include "gel/timer/timecheck.h"
#ifdef SW
#include "gel/timer/stopwatch.h"
#endif
#ifdef TM
#include "gel/timer/timer.h"
unsigned long x_gel_timer_get_remaining(gel_timer_t *timer, unsigned long timestamp) __asm__("gel_timer_get_remaining");
#define gel_timer_get_remaining x_gel_timer_get_remaining
#endif
static HX_TLS timestamp_t F, base;
static long unit(unsigned long long v) { return v % F ? -777 - (long)(v % F % 1000) : (long)(v / F); }
static timestamp_t mul(long k) { return (timestamp_t)((timestamp_t)k * F); }

#ifdef TM
static HX_TLS gel_timer_t *tm;
static HX_TLS timestamp_t  now;
static HX_TLS int          calls, okargs;
static HX_TLS char         act[32];
static HX_TLS long         actp;
static void cb(gel_timer_t *t, void *user, void *arg) {
    HX_PAUSE();
    calls++;
    okargs = t == tm && user == (void *)&calls && arg == (void *)&okargs;
    if (!strcmp(act, "auto1")) gel_timer_set_autoreload(t, 1);
    else if (!strcmp(act, "auto0")) gel_timer_set_autoreload(t, 0);
    else if (!strcmp(act, "change")) gel_timer_change_period(t, mul(actp), now);
    HX_PAUSE();
}
#endif
int main(int argc, char **argv) {
    F = (timestamp_t)strtoull(argv[1], 0, 0);
    base = (timestamp_t)strtoull(argv[2], 0, 0);
#ifdef SW
    stopwatch_t *s = 0;
    timestamp_t  now = base;
#endif
    while (hx_next()) {
        char *op = hx_word();
#ifdef CMP
        if (HX_IS("reset")) { printf("0"); hx_end(); }
        else if (HX_IS("cmp")) {
            timestamp_t a = base + mul(hx_int()), b = a + mul(hx_int());
            printf("[[%d,%d,%d,%ld],[%d,%d,%d,%ld]]", !!time_after(a, b), !!time_after_or_equal(a, b), !!time_before(a, b), unit(time_interval(a, b)),
                   !!time_after(b, a), !!time_after_or_equal(b, a), !!time_before(b, a), unit(time_interval(b, a)));
            hx_end();
        } else if (HX_IS("exp")) {
            timestamp_t a = base + mul(hx_int()), w = mul(hx_int()), c = a + w + mul(hx_int());
            printf("[%d,%d,%d]", !!is_expired(a, c, w), !!is_loosely_expired(a, c, w), !!is_strictly_expired(a, c, w));
            hx_end();
        } else hx_die(op);
#endif
#ifdef SW
        int r = 0;
        if (HX_IS("reset")) {
            static int turn;
            if (!s || turn++ % 2) { free(s); s = hx_exact(sizeof *s, 0x5A); }   /* else: initialised again while in use */
            if (turn % 5 == 3) *s = (stopwatch_t)STOPWATCH_NULL;
            else stopwatch_init(s);
            now = base; printf("0"); hx_end(); continue;
        }
        now += mul(hx_int());
        if (HX_IS("start")) r = stopwatch_start(s, now);
        else if (HX_IS("stop")) r = stopwatch_stop(s);
        else if (HX_IS("pause")) r = stopwatch_pause(s, now);
        else if (HX_IS("restart")) r = stopwatch_restart(s, now);
        else if (HX_IS("change")) stopwatch_change(s, mul(hx_int()), now);
        else if (HX_IS("set")) r = stopwatch_set(s, mul(hx_int()));
        else if (HX_IS("setngo")) { timestamp_t p = mul(hx_int()); stopwatch_setngo(s, p, now); }
        else if (HX_IS("sete")) r = stopwatch_set_elapsed(s, mul(hx_int()));
        else if (!HX_IS("query")) hx_die(op);
        int st = stopwatch_get_state(s);
        printf("[%d,%d,%ld,%ld,%d,%ld]", r, st == TIMER_STOPPED ? 0 : st == TIMER_COUNTING ? 1 : st == TIMER_PAUSED ? 2 : 9,
               unit(stopwatch_get_elapsed(s, now)), unit(stopwatch_get_remaining(s, now)), !!stopwatch_is_timer_reached(s, now), unit(stopwatch_get_total_time(s)));
        hx_end();
#endif
#ifdef TM
        int r = 0;
        if (HX_IS("reset")) {
            free(tm); tm = hx_exact(sizeof *tm, 0x5A); *tm = GEL_TIMER_NULL; tm->callback = cb; tm->arg = &okargs; now = base; printf("0"); hx_end(); continue;
        }
        now += mul(hx_int());
        calls = 0;
        okargs = 1;
        if (HX_IS("init")) { static int turn; if (turn++ % 2) memset(tm, 0xA5, sizeof *tm); if (gel_timer_init(tm, mul(hx_int()), now, cb, &okargs) != tm) r = -1; }
        else if (HX_IS("stop")) gel_timer_stop(tm);
        else if (HX_IS("auto")) gel_timer_set_autoreload(tm, hx_int());
        else if (HX_IS("pause")) gel_timer_pause(tm, now);
        else if (HX_IS("resume")) gel_timer_resume(tm, now);
        else if (HX_IS("rst")) gel_timer_reset(tm, now);
        else if (HX_IS("change")) gel_timer_change_period(tm, mul(hx_int()), now);
        else if (HX_IS("poll")) { strncpy(act, hx_word(), 31); actp = hx_int(); r = gel_timer_manage_callback(tm, now, &calls); }
        else hx_die(op);
        printf("[%d,%d,%ld]", r, okargs ? calls : 90 + calls, unit(gel_timer_get_remaining(tm, now)));
        hx_end();
#endif
    }
    return 0;
}
