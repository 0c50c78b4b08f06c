/* C19. Built with VERIF_PID_TYPES: PTYPE is the type of inputs, OTYPE that of outputs; windows from GEL_PID_*.
   argv[1]: what one unit of the commands' values is (fractions for floating point types). */
#include "hx.h"
#include "gel/pid/pid.h"
static HX_TLS pid_ctrl_t *p;
static HX_TLS double unit = 1;
static long q(pid_output_type_t v) { double x = (double)v * 4 / unit; return x == (long)x ? (long)x : -99999999; }
/* any value other than zero enables */
static int flag(int v) { static HX_TLS unsigned n; static const int yes[] = {1, 2, -1, 256, 65536, 1, -2147483647 - 1}; return v ? yes[n++ % 7] : 0; }
int main(int argc, char **argv) {
    if (argc > 1) unit = strtod(argv[1], 0);
    while (hx_next()) {
        char *op = hx_word();
        if (HX_IS("reset")) { free(p); p = hx_exact(sizeof *p, 0x5A); pid_init(p); printf("0"); hx_end(); continue; }
        else if (HX_IS("init")) pid_init(p);
        else if (HX_IS("sp")) pid_set_sp(p, hx_int() * unit);
        else if (HX_IS("tune")) { float a = hx_int() / 4.0f, b = hx_int() / 4.0f, c = hx_int() / 4.0f; pid_ctrl_tune(p, a, b, c); }
        else if (HX_IS("thr")) { char *w = hx_word(); int v = hx_int(); if (*w == 'l') pid_set_integral_low_threshold(p, (size_t)(v * unit)); else if (*w == 'h') pid_set_integral_high_threshold(p, (size_t)(v * unit)); else pid_set_derivative_threshold(p, v * unit, v * unit + 7); }
        else if (HX_IS("en")) { char *w = hx_word(); int v = flag(hx_int()); if (*w == 'l') pid_enable_integral_low_threshold(p, v); else if (*w == 'h') pid_enable_integral_high_threshold(p, v); else pid_enable_derivative_threshold(p, v); }
        else if (HX_IS("auto")) pid_set_auto_integral_clear(p, flag(hx_int()));
        else if (HX_IS("clear")) pid_clear_integral_history(p);
        else if (HX_IS("input")) pid_add_input(p, hx_int() * unit);
        else hx_die(op);
        long t = q(pid_compute(p));
        printf("[%ld,%ld,%ld,%ld,%ld]", q(pid_compute_p(p)), q(pid_compute_i(p)), q(pid_compute_d(p)), t, q(pid_current_error(p)));
        hx_end();
    }
    return 0;
}
