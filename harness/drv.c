/* Driver and monitor: executes groups of libdrpm API calls read from a script (tab separated, one call per line, groups
 * separated by a line "--"). Each group runs in its own forked child. One JSON object per call is printed on stdout.
 * After each call the child observes: return code, open file descriptors gained, leaks (LeakSanitizer, when built with it).
 * The parent observes how the child ended. Sanitizer reports go to <errdir>/<group>.err. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "drpm.h"

#ifdef WITH_LSAN
#include <sanitizer/lsan_interface.h>
#include <sanitizer/allocator_interface.h>
#endif

/* provided by faults.c when linked in */
__attribute__((weak)) void faults_arm(const char *spec);
__attribute__((weak)) void faults_disarm(void);
__attribute__((weak)) long faults_count(void);
__attribute__((weak)) long faults_fired(void);
__attribute__((weak)) const char *faults_site(void);
__attribute__((weak)) void faults_stats(char *, size_t);
__attribute__((weak)) void faults_places(FILE *);
__attribute__((weak)) void faults_written(FILE *);
__attribute__((weak)) const char *__asan_default_options(void);

#define MAXF 24
static int leakcheck = 0, memcheck = 0, cpu_limit = 30, use_threads = 0;
static char script_errdir[1024] = "/tmp";
static FILE *out;
static __thread char msg[1 << 16];

static int list_fds(char *buf, size_t n)
{
    DIR *d = opendir("/proc/self/fd");
    struct dirent *e;
    int cnt = 0, dfd;
    size_t p = 0;
    if (!d) return -1;
    dfd = dirfd(d);
    buf[0] = 0;
    while ((e = readdir(d))) {
        int fd;
        if (e->d_name[0] == '.') continue;
        fd = atoi(e->d_name);
        if (fd == dfd) continue;
        cnt++;
        if (fd > 2) {
            char ln[64], tgt[256];
            ssize_t r;
            snprintf(ln, sizeof ln, "/proc/self/fd/%d", fd);
            r = readlink(ln, tgt, sizeof tgt - 1);
            if (r > 0) { tgt[r] = 0; p += snprintf(buf + p, p < n ? n - p : 0, "%s;", tgt); if (p >= n) p = n - 1; }
        }
    }
    closedir(d);
    return cnt;
}

static const char *nul(char *s) { return strcmp(s, "-") == 0 ? NULL : s; }

static void jstr(FILE *f, const char *s)
{
    if (!s) { fputs("null", f); return; }
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

static int apply_opt(drpm_make_options *o, char *kv)
{
    char *v = strchr(kv, '=');
    if (v) *v++ = 0;
    if (!strcmp(kv, "type")) return drpm_make_options_set_type(o, atoi(v));
    if (!strcmp(kv, "version")) return drpm_make_options_set_version(o, atoi(v));
    if (!strcmp(kv, "comp")) { char *c = strchr(v, ':'); return drpm_make_options_set_delta_comp(o, atoi(v), c ? atoi(c + 1) : 0); }
    if (!strcmp(kv, "comprpm")) return drpm_make_options_get_delta_comp_from_rpm(o);
    if (!strcmp(kv, "noaddblk")) return drpm_make_options_forbid_addblk(o);
    if (!strcmp(kv, "addblk")) { char *c = strchr(v, ':'); return drpm_make_options_set_addblk_comp(o, atoi(v), c ? atoi(c + 1) : 0); }
    if (!strcmp(kv, "seqfile")) return drpm_make_options_set_seqfile(o, v && *v ? v : NULL);
    if (!strcmp(kv, "patches")) { char *c = strchr(v, ':'); *c++ = 0; return drpm_make_options_add_patches(o, *v ? v : NULL, *c ? c : NULL); }
    if (!strcmp(kv, "defaults")) return drpm_make_options_defaults(o);
    if (!strcmp(kv, "selfcopy")) return drpm_make_options_copy(o, o);
    return -100;
}

/* optspec: NULL, or calls separated by ','. "copy" continues on a copy of the options (the original is destroyed),
 * "copyto" copies onto an options object that had other settings. */
static int op_make(char **f, FILE *res)
{
    drpm_make_options *o = NULL, *o2;
    char *save, *k;
    int rc, r;
    fprintf(res, ",\"opts\":[");
    if (strcmp(f[4], "NULL") != 0) {
        int first = 1;
        rc = drpm_make_options_init(&o);
        if (rc != 0) { fprintf(res, "%d]", rc); return rc; }
        for (k = strtok_r(f[4], ",", &save); k; k = strtok_r(NULL, ",", &save)) {
            if (!strcmp(k, "init")) continue;
            if (!strcmp(k, "copy") || !strcmp(k, "copyto")) {
                r = drpm_make_options_init(&o2);
                if (r == 0) {
                    if (!strcmp(k, "copyto")) {
                        drpm_make_options_set_type(o2, 1);
                        drpm_make_options_set_delta_comp(o2, 1, 3);
                        drpm_make_options_forbid_addblk(o2);
                        drpm_make_options_set_seqfile(o2, "/nonexistent/dir/with/a/rather/long/name/that/must/not/be/used/seq");
                        drpm_make_options_add_patches(o2, "/nonexistent/a", "/nonexistent/b");
                    }
                    r = drpm_make_options_copy(o2, o);
                    drpm_make_options_destroy(&o);
                    o = o2;
                }
            } else
                r = apply_opt(o, k);
            fprintf(res, "%s%d", first ? "" : ",", r);
            first = 0;
        }
    }
    fprintf(res, "]");
    rc = drpm_make(nul(f[1]), nul(f[2]), nul(f[3]), o);
    if (o) drpm_make_options_destroy(&o);
    return rc;
}

/* "optprog PROG": ';'-separated steps on four options objects: N.init N.destroy N.copy:M N.<setting> N.make:old:new:out (N of '-': NULL) */
static int op_optprog(char **f, FILE *res)
{
    drpm_make_options *o[4] = {NULL};
    char *save, *k;
    int first = 1;
    fprintf(res, ",\"rcs\":[");
    for (k = strtok_r(f[1], ";", &save); k; k = strtok_r(NULL, ";", &save)) {
        int n = k[0] == '-' ? -1 : k[0] - '0', r;
        drpm_make_options *x = n < 0 ? NULL : o[n];
        k += 2;
        if (!strcmp(k, "init")) r = drpm_make_options_init(n < 0 ? NULL : &o[n]);
        else if (!strcmp(k, "destroy")) { r = drpm_make_options_destroy(n < 0 ? NULL : &o[n]); if (n >= 0 && o[n]) r = -101; }
        else if (!strncmp(k, "copy:", 5)) r = drpm_make_options_copy(x, k[5] == '-' ? NULL : o[k[5] - '0']);
        else if (!strncmp(k, "make:", 5)) {
            char *a[3], *t = k + 5;
            for (int i = 0; i < 3; i++) { a[i] = t; t = strchr(t, ':'); if (t) *t++ = 0; }
            r = drpm_make(nul(a[0]), nul(a[1]), nul(a[2]), x);
        } else r = apply_opt(x, k);
        fprintf(res, "%s%d", first ? "" : ",", r);
        first = 0;
    }
    fprintf(res, "]");
    for (int i = 0; i < 4; i++) if (o[i]) drpm_make_options_destroy(&o[i]);
    return 0;
}

static int op_read(char **f, FILE *res)
{
    drpm *d = (drpm *)0x1;
    int rc = drpm_read(&d, nul(f[1])), tag;
    if (rc != 0) {
        fprintf(res, ",\"ptr_null\":%s", d == NULL ? "true" : "false");
        return rc;
    }
    fprintf(res, ",\"tags\":{");
    for (tag = -1; tag <= 20; tag++) {
        unsigned u = 0xABCDABCDu;
        unsigned long ul = 0xABCDABCDABCDul, n = 77777, *arr = (unsigned long *)0x1;
        unsigned long long ull = 0xABCDABCDABCDull;
        char *s = (char *)0x1;
        int r1 = drpm_get_uint(d, tag, &u), r2 = drpm_get_ulong(d, tag, &ul), r3 = drpm_get_ullong(d, tag, &ull),
            r4 = drpm_get_string(d, tag, &s), r5 = drpm_get_ulong_array(d, tag, &arr, &n);
        fprintf(res, "%s\"%d\":{\"rc\":[%d,%d,%d,%d,%d]", tag == -1 ? "" : ",", tag, r1, r2, r3, r4, r5);
        if (r1 == 0) fprintf(res, ",\"u\":%u", u);
        if (r2 == 0) fprintf(res, ",\"ul\":%lu", ul);
        if (r3 == 0) fprintf(res, ",\"ull\":%llu", ull);
        if (r4 == 0) { fprintf(res, ",\"s\":"); jstr(res, s); free(s); }
        if (r5 == 0) {
            fprintf(res, ",\"a\":[");
            for (unsigned long i = 0; i < n; i++) fprintf(res, "%s%lu", i ? "," : "", arr[i]);
            fprintf(res, "],\"anull\":%s", arr == NULL ? "true" : "false");
            free(arr);
        }
        /* a failed getter must not have written */
        if (r1 && u != 0xABCDABCDu) fprintf(res, ",\"touched\":1");
        if (r2 && ul != 0xABCDABCDABCDul) fprintf(res, ",\"touched\":2");
        if (r3 && ull != 0xABCDABCDABCDull) fprintf(res, ",\"touched\":3");
        if (r4 && s != (char *)0x1) fprintf(res, ",\"touched\":4");
        if (r5 && (arr != (unsigned long *)0x1 || n != 77777)) fprintf(res, ",\"touched\":5");
        fprintf(res, "}");
    }
    fprintf(res, "}");
    if (drpm_destroy(&d) != 0 || d != NULL) fprintf(res, ",\"destroy\":\"bad\"");
    return rc;
}

/* argument contract: every NULL / out of range combination, with no file touched. Prints a list of [name, rc]. */
static int op_contract(char **f, FILE *res)
{
    drpm_make_options *o = NULL, *o2 = NULL, *nullo = NULL;
    drpm *d = NULL, *nulld = NULL;
    unsigned u; unsigned long ul, n, *arr; unsigned long long ull; char *s;
    int first = 1, rc;
    const char *good = f[1]; /* an existing delta */
    fprintf(res, ",\"calls\":[");
#define C(name, expr) do { int r_ = (expr); fprintf(res, "%s[\"%s\",%d]", first ? "" : ",", name, r_); first = 0; } while (0)
    C("read(NULL,f)", drpm_read(NULL, good));
    C("read(&d,NULL)", drpm_read(&d, NULL));
    C("destroy(NULL)", drpm_destroy(NULL));
    C("destroy(&NULL)", drpm_destroy(&nulld));
    C("make(NULL,NULL,f)", drpm_make(NULL, NULL, "/nonexistent/x", NULL));
    C("make(f,f,NULL)", drpm_make(good, good, NULL, NULL));
    C("apply(f,NULL,x)", drpm_apply(good, NULL, "/nonexistent/x"));
    C("apply(f,f,NULL)", drpm_apply(good, good, NULL));
    C("apply(NULL,NULL,NULL)", drpm_apply(NULL, NULL, NULL));
    C("check(NULL,1)", drpm_check(NULL, DRPM_CHECK_FULL));
    C("check(f,99)", drpm_check(good, 99));
    C("check(f,-1)", drpm_check(good, -1));
    C("check(f,3)", drpm_check(good, 3));
    C("checkseq(f,NULL,1)", drpm_check_sequence(good, NULL, DRPM_CHECK_FULL));
    C("checkseq(f,s,7)", drpm_check_sequence(good, "a-1-1-0123456789abcdef0123456789abcdef", 7));
    C("checkseq(f,s,-2)", drpm_check_sequence(good, "a-1-1-0123456789abcdef0123456789abcdef", -2));
    C("opt_init(NULL)", drpm_make_options_init(NULL));
    C("opt_destroy(NULL)", drpm_make_options_destroy(NULL));
    C("opt_destroy(&NULL)", drpm_make_options_destroy(&nullo));
    C("opt_defaults(NULL)", drpm_make_options_defaults(NULL));
    C("opt_init", drpm_make_options_init(&o));
    C("opt_init2", drpm_make_options_init(&o2));
    C("copy(NULL,o)", drpm_make_options_copy(NULL, o));
    C("copy(o,NULL)", drpm_make_options_copy(o, NULL));
    C("type(NULL)", drpm_make_options_set_type(NULL, 0));
    C("version(NULL)", drpm_make_options_set_version(NULL, 3));
    C("comp(NULL)", drpm_make_options_set_delta_comp(NULL, 1, 1));
    C("comprpm(NULL)", drpm_make_options_get_delta_comp_from_rpm(NULL));
    C("forbid(NULL)", drpm_make_options_forbid_addblk(NULL));
    C("addblk(NULL)", drpm_make_options_set_addblk_comp(NULL, 1, 1));
    C("seqfile(NULL)", drpm_make_options_set_seqfile(NULL, "x"));
    C("patches(NULL)", drpm_make_options_add_patches(NULL, "x", "y"));
    C("patches(o,NULL,y)", drpm_make_options_add_patches(o, NULL, "y"));
    C("patches(o,x,NULL)", drpm_make_options_add_patches(o, "x", NULL));
    for (unsigned t = 0; t < 8; t++) { char nm[32]; snprintf(nm, sizeof nm, "type=%u", t); C(nm, drpm_make_options_set_type(o, t)); }
    C("type=65535", drpm_make_options_set_type(o, 65535));
    for (unsigned t = 0; t < 8; t++) { char nm[32]; snprintf(nm, sizeof nm, "version=%u", t); C(nm, drpm_make_options_set_version(o, t)); }
    C("version=65535", drpm_make_options_set_version(o, 65535));
    for (unsigned c = 0; c < 10; c++) for (unsigned l = 0; l < 13; l++) {
        char nm[32];
        snprintf(nm, sizeof nm, "comp=%u:%u", c, l); C(nm, drpm_make_options_set_delta_comp(o, c, l));
        snprintf(nm, sizeof nm, "addblk=%u:%u", c, l); C(nm, drpm_make_options_set_addblk_comp(o, c, l));
    }
    C("comp=1:65535", drpm_make_options_set_delta_comp(o, 1, 65535));
    C("comp=65535:1", drpm_make_options_set_delta_comp(o, 65535, 1));
    C("addblk=1:65535", drpm_make_options_set_addblk_comp(o, 1, 65535));
    C("seqfile(o,NULL)", drpm_make_options_set_seqfile(o, NULL));
    C("opt_destroy", drpm_make_options_destroy(&o));
    C("opt_destroy2", drpm_make_options_destroy(&o2));
    C("opt_null_after", (o == NULL && o2 == NULL) ? 0 : 1);
    rc = drpm_read(&d, good);
    C("read", rc);
    if (rc == 0) {
        C("uint(NULL)", drpm_get_uint(NULL, DRPM_TAG_TYPE, &u));
        C("uint(,NULL)", drpm_get_uint(d, DRPM_TAG_TYPE, NULL));
        C("ulong(NULL)", drpm_get_ulong(NULL, DRPM_TAG_TYPE, &ul));
        C("ulong(,NULL)", drpm_get_ulong(d, DRPM_TAG_TYPE, NULL));
        C("ullong(NULL)", drpm_get_ullong(NULL, DRPM_TAG_TYPE, &ull));
        C("ullong(,NULL)", drpm_get_ullong(d, DRPM_TAG_TYPE, NULL));
        C("string(NULL)", drpm_get_string(NULL, DRPM_TAG_SEQUENCE, &s));
        C("string(,NULL)", drpm_get_string(d, DRPM_TAG_SEQUENCE, NULL));
        C("array(NULL)", drpm_get_ulong_array(NULL, DRPM_TAG_INTCOPIES, &arr, &n));
        C("array(,NULL,n)", drpm_get_ulong_array(d, DRPM_TAG_INTCOPIES, NULL, &n));
        C("array(,a,NULL)", drpm_get_ulong_array(d, DRPM_TAG_INTCOPIES, &arr, NULL));
        C("destroy", drpm_destroy(&d));
        C("destroy_nulls", d == NULL ? 0 : 1);
    }
    /* every getter on tags in and far outside the range, with null arguments in every position */
    fprintf(res, "],\"tags\":[");
    rc = drpm_read(&d, good);
    if (rc == 0) {
        static const int far[] = {-2147483647 - 1, 2147483647, 65536, 65537, 65540, 65546, 131072 + 3, -65535, -255, 256, 257, 262, 1000000};
        first = 1;
        for (int i = -3; i < 24 + (int)(sizeof far / sizeof *far); i++) {
            int t = i < 24 ? i : far[i - 24];
            int bad = 0, v;
#define N(expr) do { if ((v = (expr)) != DRPM_ERR_ARGS) bad++; } while (0)
            u = 5; ul = 6; ull = 7; s = (char *)1; arr = (unsigned long *)1; n = 8;
            N(drpm_get_uint(NULL, t, &u)); N(drpm_get_uint(d, t, NULL)); N(drpm_get_ulong(NULL, t, &ul)); N(drpm_get_ulong(d, t, NULL));
            N(drpm_get_ullong(NULL, t, &ull)); N(drpm_get_ullong(d, t, NULL)); N(drpm_get_string(NULL, t, &s)); N(drpm_get_string(d, t, NULL));
            N(drpm_get_ulong_array(NULL, t, &arr, &n)); N(drpm_get_ulong_array(d, t, NULL, &n)); N(drpm_get_ulong_array(d, t, &arr, NULL));
            N(drpm_get_ulong_array(NULL, t, NULL, NULL));
            if (u != 5 || ul != 6 || ull != 7 || s != (char *)1 || arr != (unsigned long *)1 || n != 8) bad += 100;
            if (i < 0 || i >= 24) {
                N(drpm_get_uint(d, t, &u)); N(drpm_get_ulong(d, t, &ul)); N(drpm_get_ullong(d, t, &ull)); N(drpm_get_string(d, t, &s));
                N(drpm_get_ulong_array(d, t, &arr, &n));
                if (u != 5 || ul != 6 || ull != 7 || s != (char *)1 || arr != (unsigned long *)1 || n != 8) bad += 1000;
            }
            fprintf(res, "%s[%d,%d]", first ? "" : ",", t, bad);
            first = 0;
        }
        drpm_destroy(&d);
    }
    {
        long odd = 0;
        const char *und = drpm_strerror(-1);
        for (int e = -70000; e <= 140000; e++) if (e < 0 || e > 10) odd += strcmp(drpm_strerror(e), und) != 0;
        for (int b = 11; b < 32; b++) for (int e = -12; e <= 12; e++) {
            int x = (int)((1u << b) + (unsigned)e);
            if (x < 0 || x > 10) odd += strcmp(drpm_strerror(x), und) != 0;
        }
        fprintf(res, "],\"odd_messages\":%ld", odd);
    }
    fprintf(res, ",\"strerror\":[");
    for (int e = -2; e <= 14; e++) { fprintf(res, "%s", e == -2 ? "" : ","); jstr(res, drpm_strerror(e)); }
    fprintf(res, "]");
    return 0;
}

static int run_op(char **f, int nf, FILE *res)
{
    if (!strcmp(f[0], "make") && nf >= 5) return op_make(f, res);
    if (!strcmp(f[0], "apply") && nf >= 4) return drpm_apply(nul(f[1]), nul(f[2]), nul(f[3]));
    if (!strcmp(f[0], "check") && nf >= 3) return drpm_check(nul(f[1]), atoi(f[2]));
    if (!strcmp(f[0], "seq") && nf >= 4) return drpm_check_sequence(nul(f[1]), nul(f[2]), atoi(f[3]));
    if (!strcmp(f[0], "read") && nf >= 2) return op_read(f, res);
    if (!strcmp(f[0], "optprog") && nf >= 2) return op_optprog(f, res);
    if (!strcmp(f[0], "contract") && nf >= 2) return op_contract(f, res);
    return -99;
}

static int split(char *line, char **f)
{
    int n = 0;
    char *p = line;
    while (n < MAXF) {
        f[n++] = p;
        p = strchr(p, '\t');
        if (!p) break;
        *p++ = 0;
    }
    return n;
}

struct thr { char *line; char *result; pthread_barrier_t *bar; };
static void *thr_main(void *a)
{
    struct thr *t = a;
    char *f[MAXF], *buf = NULL;
    size_t n;
    FILE *res = open_memstream(&buf, &n);
    int nf = split(t->line, f), rc;
    pthread_barrier_wait(t->bar);
    rc = run_op(f, nf, res);
    fclose(res);
    asprintf(&t->result, ",\"rc\":%d%s", rc, buf);
    free(buf);
    return NULL;
}

/* run all lines of the group concurrently, one thread each */
static void run_threads(char **lines, int first, int n)
{
    pthread_t th[64];
    struct thr t[64];
    pthread_barrier_t bar;
    if (n > 64) n = 64;
    pthread_barrier_init(&bar, NULL, n);
    for (int i = 0; i < n; i++) { t[i].line = lines[i]; t[i].bar = &bar; t[i].result = NULL; pthread_create(&th[i], NULL, thr_main, &t[i]); }
    for (int i = 0; i < n; i++) pthread_join(th[i], NULL);
    for (int i = 0; i < n; i++) { fprintf(out, "{\"op\":%d%s}\n", first + i, t[i].result); free(t[i].result); }
    fflush(out);
}

/* $DRPMV_LIMIT: "nofile:N" (N more descriptors can be opened) or "fsize:N" (files cannot grow beyond N bytes), during calls only */
static void set_limit(int on)
{
    static struct rlimit saved;
    const char *e = getenv("DRPMV_LIMIT"), *c = e ? strchr(e, ':') : NULL;
    struct rlimit rl;
    int res, probe;
    if (!c) return;
    res = !strncmp(e, "nofile", 6) ? RLIMIT_NOFILE : RLIMIT_FSIZE;
    if (!on) { setrlimit(res, &saved); return; }
    getrlimit(res, &saved);
    rl = saved;
    rl.rlim_cur = atol(c + 1);
    if (res == RLIMIT_NOFILE) {
        probe = open("/dev/null", O_RDONLY);
        close(probe);
        rl.rlim_cur += probe;
    } else
        signal(SIGXFSZ, SIG_IGN);
    setrlimit(res, &rl);
}

static void run_group(char **lines, int first, int n)
{
    char *f[MAXF];
    if (use_threads) { run_threads(lines, first, n); return; }
    for (int i = 0; i < n; i++) {
        static char before[65536], after[65536];
        struct rusage r0, r1;
        int nf, rc, fd0, fd1, leak = 0, armed = 0, chst;
        pid_t ch;
        char *buf = NULL, *line = lines[i];
        size_t bn;
        FILE *res;
        if (!strncmp(line, "fault ", 6)) { /* "fault SPEC\t<op...>" */
            char *t = strchr(line, '\t');
            *t = 0;
            if (faults_arm) { faults_arm(line + 6); armed = 1; faults_disarm(); }
            nf = split(t + 1, f);
        } else
            nf = split(line, f);
        fd0 = list_fds(before, sizeof before);
        res = open_memstream(&buf, &bn);
        getrusage(RUSAGE_SELF, &r0);
        fprintf(stderr, "@@op %d\n", first + i);
        if (armed) { faults_arm(NULL); }
        set_limit(1);
        rc = run_op(f, nf, res);
        set_limit(0);
        if (armed) faults_disarm();
        getrusage(RUSAGE_SELF, &r1);
        fclose(res);
        ch = waitpid(-1, &chst, WNOHANG); /* the library must have collected its children itself */
        fd1 = list_fds(after, sizeof after);
#ifdef WITH_LSAN
        if (leakcheck) { leak = __lsan_do_recoverable_leak_check(); }
#endif
        fprintf(out, "{\"op\":%d,\"rc\":%d,\"fd\":%d,\"leak\":%d", first + i, rc, fd1 - fd0, leak);
        if (fd1 != fd0) { fprintf(out, ",\"fds\":"); jstr(out, after); }
        if (armed) { fprintf(out, ",\"fcount\":%ld,\"fired\":%ld,\"fsite\":", faults_count(), faults_fired()); jstr(out, faults_site()); }
        if (ch >= 0) fprintf(out, ",\"child\":%d", (int)ch);
        if (faults_written) faults_written(out);
        if (faults_stats) { char sb[512]; faults_stats(sb, sizeof sb); fputs(sb, out); if (armed) faults_places(out); }
        fprintf(out, ",\"cpu_ms\":%ld,\"rss_kb\":%ld%s}\n",
                (r1.ru_utime.tv_sec - r0.ru_utime.tv_sec + r1.ru_stime.tv_sec - r0.ru_stime.tv_sec) * 1000 +
                (r1.ru_utime.tv_usec - r0.ru_utime.tv_usec + r1.ru_stime.tv_usec - r0.ru_stime.tv_usec) / 1000,
                r1.ru_maxrss, buf);
        fflush(out);
        free(buf);
        if (memcheck) {
            size_t now = 0;
#ifdef WITH_LSAN
            now = __sanitizer_get_current_allocated_bytes();
#endif
            fprintf(out, "{\"mem\":%d,\"bytes\":%zu}\n", first + i, now);
            fflush(out);
        }
    }
}

int main(int argc, char **argv)
{
    char *script = NULL, **lines = NULL, *p;
    size_t len = 0, cap = 0, nlines = 0;
    int c, nofork = 0, wall = 600, stop = 0;
    prctl(PR_SET_PDEATHSIG, SIGKILL);               /* no stray processes when a check stops early */
    while ((c = getopt(argc, argv, "lme:c:nTw:S")) != -1) switch (c) {
        case 'l': leakcheck = 1; break;
        case 'm': memcheck = 1; break;
        case 'e': snprintf(script_errdir, sizeof script_errdir, "%s", optarg); break;
        case 'c': cpu_limit = atoi(optarg); break;
        case 'w': wall = atoi(optarg); break;
        case 'n': nofork = 1; break;
        case 'S': stop = 1; break;              /* nothing more after a group that does not end in time */
        case 'T': use_threads = 1; break;
        default: return 2;
    }
    out = fdopen(dup(1), "w");
    for (;;) {
        ssize_t r;
        if (len + 65536 > cap) script = realloc(script, cap = cap * 2 + (1 << 20));
        r = read(0, script + len, 65535);
        if (r <= 0) break;
        len += r;
    }
    script[len] = 0;
    for (p = script; p && *p;) {
        char *e = strchr(p, '\n');
        if (e) *e++ = 0;
        lines = realloc(lines, (nlines + 1) * sizeof *lines);
        lines[nlines++] = p;
        p = e;
    }
    for (size_t i = 0; i < nlines;) {
        size_t j = i;
        while (j < nlines && strcmp(lines[j], "--") != 0) j++;
        if (j > i) {
            if (nofork) run_group(lines + i, i, j - i);
            else {
                pid_t pid;
                int st;
                char err[1200];
                struct timespec t0, t1;
                snprintf(err, sizeof err, "%s/%zu.err", script_errdir, i);
                fflush(out);
                clock_gettime(CLOCK_MONOTONIC, &t0);
                pid = fork();
                if (pid == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    struct rlimit rl = { cpu_limit, cpu_limit + 5 };
                    int fd = open(err, O_WRONLY | O_CREAT | O_TRUNC, 0600);
                    dup2(fd, 2); close(fd);
                    setrlimit(RLIMIT_CPU, &rl);
                    rl.rlim_cur = rl.rlim_max = 0;
                    setrlimit(RLIMIT_CORE, &rl);
                    if (getenv("DRPMV_AS")) { /* limits for whole children, bytes */
                        rl.rlim_cur = rl.rlim_max = strtoul(getenv("DRPMV_AS"), NULL, 0);
                        setrlimit(RLIMIT_AS, &rl);
                    }
                    rl.rlim_cur = rl.rlim_max = getenv("DRPMV_FSIZE") ? strtoul(getenv("DRPMV_FSIZE"), NULL, 0) : 6ul << 30; /* no runaway output files */
                    setrlimit(RLIMIT_FSIZE, &rl);
                    if (getenv("DRPMV_CLOSE0")) close(0); /* the library's first descriptor is 0 */
                    if (getenv("DRPMV_IGNCHLD")) signal(SIGCHLD, SIG_IGN);
                    alarm(wall);
                    run_group(lines + i, i, j - i);
                    fflush(out);
                    _exit(0);
                }
                waitpid(pid, &st, 0);
                clock_gettime(CLOCK_MONOTONIC, &t1);
                fprintf(out, "{\"group\":%zu,\"n\":%zu,\"pid\":%d,\"exit\":%d,\"sig\":%d}\n", i, j - i, (int)pid,
                        WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
                fflush(out);
                if (stop && WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) return 0;
            }
        }
        i = j + 1;
    }
    return 0;
}
