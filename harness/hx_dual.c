/* Two harnesses in one program, one thread each, running strictly in turn as the lines of the input say: two
   independent users of one copy of the library. "0 command" / "1 command"; with a letter for the space the command is run
   when the other one (whose call is under way) reaches its 1st, 2nd, ... HX_PAUSE of a callback, if it does.
   After each answer a line with the number of the command it belongs to and how many pauses it reached. The harness's own variables are thread-local. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int hx_main(int, char **);
static char          **line;
static long            nlines, at;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t  cv = PTHREAD_COND_INITIALIZER;
static int             turn, inner = -1, argc_[2]; /* who runs; who runs inside the other's callback */
static char          **argv_[2];
static __thread int    me, started;
static __thread long   cur, pauses;

static int  owner(void) { return at < nlines ? line[at][0] - '0' : 2; }
static void pass(int to) {
    turn = to;
    alarm(30);
    pthread_cond_broadcast(&cv);
    while (turn != me && turn != 2) pthread_cond_wait(&cv, &mu);
}
/* the calling harness has finished its command: the one it gets next, or NULL at the end */
char *hx_dual_next(void) {
    int to;
    pthread_mutex_lock(&mu);
    if (!started) { started = 1; to = me == 0 ? 1 : owner(); }
    else {
        printf("\"@%ld %ld\"\n", cur, pauses);
        fflush(stdout);
        if (inner == me) { inner = -1; to = !me; }
        else to = owner();
    }
    pass(to);
    pauses = 0;
    char *s = at < nlines ? line[cur = at++] + 2 : NULL;
    pthread_mutex_unlock(&mu);
    return s;
}
/* the library calls the harness back */
void hx_dual_pause(void) {
    if (!started) return;
    pthread_mutex_lock(&mu);
    pauses++;
    while (inner < 0 && owner() == !me && line[at][1] >= 'a' && pauses > line[at][1] - 'a') {
        inner = !me;
        pass(!me);
    }
    pthread_mutex_unlock(&mu);
}
static void *run(void *p) {
    me = (long)p;
    pthread_mutex_lock(&mu);
    while (turn != me) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
    hx_main(argc_[me], argv_[me]);
    return NULL;
}
int main(int argc, char **argv) {
    char  *buf = NULL;
    size_t cap = 0, have = 0;
    while (getline(&buf, &cap, stdin) > 2) {
        if ((size_t)nlines == have) line = realloc(line, sizeof *line * (have = have * 2 + 64));
        line[nlines++] = strdup(buf);
    }
    argc_[0] = argc_[1] = argc; argv_[0] = argv_[1] = argv;
    for (int i = 1; i < argc; i++)
        if (!strcmp(argv[i], "--")) { /* arguments of their own */
            argc_[0] = i; argv[i] = argv[0];
            argc_[1] = argc - i; argv_[1] = argv + i;
            break;
        }
    pthread_t t[2];
    for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, run, (void *)i);
    for (long i = 0; i < 2; i++) pthread_join(t[i], NULL);
    fflush(stdout);
    return 0;
}
