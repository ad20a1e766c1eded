/* libc's generators behind a script: every call asks for the next choice of the explored execution. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>

static int on = 0;
static int *levels = 0, *widths = 0, *kinds = 0;
static long cap = 0, pos = 0;
static int fixed = -1;      /* every choice alike, without limit */

void mc_script(int *l, int *w, int *k, long n) { levels = l; widths = w; kinds = k; cap = n; pos = 0; on = 1; }
void mc_fixed(int l) { fixed = l; }
void mc_off(void) { on = 0; }
long mc_used(void) { return pos; }

/* next level out of `width` equally likely ones */
int mc_next(int width, int kind) {
    long p = pos++;
    if (fixed >= 0) return fixed < width ? fixed : 0;
    if (p >= cap) return 0;
    widths[p] = width;
    kinds[p] = kind;
    return levels[p] < width ? levels[p] : 0;
}

static int coin_width = 4;
void mc_coin_width(int w) { coin_width = w; }

/* the extreme values and the two neighbours of one half */
static double unit(void) {
    static const double v4[4] = {0.0, 1073741823.0, 1073741824.0, 2147483647.0};
    int l = mc_next(coin_width, 1);
    return coin_width == 4 ? v4[l] : v4[1 + l];
}

int rand(void) {
    if (on) return (int) unit();
    static int (*f)(void) = 0;
    if (!f) f = (int (*)(void)) dlsym(RTLD_NEXT, "rand");
    return f();
}
long random(void) {
    if (on) return (long) unit();
    static long (*f)(void) = 0;
    if (!f) f = (long (*)(void)) dlsym(RTLD_NEXT, "random");
    return f();
}
double drand48(void) {
    if (on) return unit() / 2147483648.0;
    static double (*f)(void) = 0;
    if (!f) f = (double (*)(void)) dlsym(RTLD_NEXT, "drand48");
    return f();
}
