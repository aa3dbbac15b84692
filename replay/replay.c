// Runs harnesses natively: loads the shared library built from the harness crate and the code under test, and provides
// the sym_* functions with the input values the symbolic executor found. Every case runs in a child process.
//   replay one LIB HARNESS PARAMS INPUTS    exit 0 nothing wrong, 10 a check failed, 11 panic, 12 the inputs do not fit,
//                                           14 killed by a signal (stack overflow), 15 not finished in time
//   replay batch LIB FILE                   lines "HARNESS PARAMS INPUTS OBSERVATIONS PANIC": compares
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXV 65536
static uint64_t params[64], inputs[MAXV], obs[MAXV];
static int nparams, ninputs, nobs, at, out = -1;
static bool panic_ok;
static const char *msg = "";
static size_t msgn;

static void put(const void *p, size_t n) {
    const char *c = p;
    while (n > 0) {
        ssize_t k = write(out, c, n);
        if (k <= 0) _exit(99);
        c += k;
        n -= k;
    }
}
static void finish(int status) {
    int h[3] = {status, nobs, (int)msgn};
    put(h, sizeof h);
    put(obs, nobs * sizeof *obs);
    put(msg, msgn);
    _exit(0);
}
static void aborted(int s) {
    (void)s;
    finish(panic_ok ? 1 : 11);
}
uint8_t sym_u8(void) { return at < ninputs ? (uint8_t)inputs[at++] : 0; }
void sym_assume(bool c) {
    if (!c) finish(12);
}
void sym_assert(bool c, const char *p, size_t n) {
    if (!c) {
        msg = p;
        msgn = n;
        finish(10);
    }
}
void sym_cover(const char *p, size_t n) { (void)p, (void)n; }
void sym_observe(uint64_t v) {
    if (nobs < MAXV) obs[nobs++] = v;
}
uint64_t sym_fix(uint64_t v) { return v; }
uint64_t sym_param(uint64_t i, uint64_t d) { return (int)i < nparams ? params[i] : d; }
void sym_panic_ok(bool ok) { panic_ok = ok; }
void sym_end(void) { finish(0); }

static int nums(char *s, uint64_t *v, int max) {
    int n = 0;
    if (*s == '-') return 0;
    while (*s && n < max) {
        v[n++] = strtoull(s, &s, 10);
        if (*s == ',') s++;
    }
    return n;
}
static int get(int fd, void *p, size_t n) {
    char *c = p;
    while (n > 0) {
        ssize_t k = read(fd, c, n);
        if (k <= 0) return 0;
        c += k;
        n -= k;
    }
    return 1;
}
static uint64_t got[MAXV];
static int ngot;
static char text[4096];
static int run(void *lib, const char *name, int seconds, bool quiet) {
    void (*f)(void) = (void (*)(void))dlsym(lib, name);
    if (!f) {
        snprintf(text, sizeof text, "no such harness");
        return 13;
    }
    int p[2];
    if (pipe(p)) exit(99);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        out = p[1];
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        if (quiet) dup2(nul, 2);
        struct rlimit r = {0, 0};
        setrlimit(RLIMIT_CORE, &r);
        struct rlimit m = {4ull << 30, 4ull << 30};
        setrlimit(RLIMIT_AS, &m);
        signal(SIGABRT, aborted);
        alarm(seconds);
        at = nobs = 0;
        panic_ok = false;
        msgn = 0;
        f();
        finish(0);
    }
    close(p[1]);
    int h[3], r;
    ngot = 0;
    text[0] = 0;
    if (get(p[0], h, sizeof h) && get(p[0], got, h[1] * sizeof *got)) {
        ngot = h[1];
        r = h[0];
        int n = h[2] < 4000 ? h[2] : 4000;
        if (!get(p[0], text, n)) n = 0;
        text[n] = 0;
        if (r == 11) snprintf(text, sizeof text, "panic");
        if (r == 12) snprintf(text, sizeof text, "the inputs do not satisfy the assumptions");
    } else
        r = 14;
    close(p[0]);
    int st;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) {
        r = WTERMSIG(st) == SIGALRM ? 15 : 14;
        snprintf(text, sizeof text, r == 15 ? "no termination within %d s" : "killed by signal %d", r == 15 ? seconds : WTERMSIG(st));
    } else if (r == 14)
        snprintf(text, sizeof text, "ended without a result");
    return r;
}
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    void *lib = dlopen(argv[2], RTLD_NOW | RTLD_GLOBAL);
    if (!lib) {
        printf("%s\n", dlerror());
        return 2;
    }
    if (!strcmp(argv[1], "one") && argc == 6) {
        nparams = nums(argv[4], params, 64);
        ninputs = nums(argv[5], inputs, MAXV);
        int r = run(lib, argv[3], 20, false);
        printf("%s\n", r <= 1 ? "nothing wrong" : text);
        return r <= 1 ? 0 : r;
    }
    FILE *f = fopen(argv[3], "r");
    if (!f) return 2;
    static char line[1 << 20];
    int n = 0, bad = 0;
    while (fgets(line, sizeof line, f)) {
        char *w[5];
        int k = 0;
        for (char *t = strtok(line, " \n"); t && k < 5; t = strtok(NULL, " \n")) w[k++] = t;
        if (k < 5) continue;
        nparams = nums(w[1], params, 64);
        ninputs = nums(w[2], inputs, MAXV);
        static uint64_t want[MAXV];
        int nw = nums(w[3], want, MAXV);
        int r = run(lib, w[0], 20, true);
        bool same = ngot == nw && !memcmp(want, got, nw * sizeof *want);
        n++;
        if (r > 1 || r != atoi(w[4]) || !same) {
            if (bad++ < 5)
                printf("MISMATCH %d %s %s %s %s\n", r > 1 ? r : 0, w[0], w[1], w[2], r > 1 ? text : r != atoi(w[4]) ? "panic" : "observations");
        }
    }
    printf("batch %d %d\n", n, bad);
    return bad > 0;
}
