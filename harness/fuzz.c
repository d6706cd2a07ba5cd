/* Coverage-guided stage (libFuzzer). FUZZ_MODE=delta: input = 1 byte (old package) + a delta; it is read, checked and applied.
 * FUZZ_MODE=rpm: input = 1 byte (role and options) + a package; deltas are made from and to it, known deltas applied to it.
 * FUZZ_MODE=patches: input = 2 length bytes + patch list + print list. FUZZ_DIR holds olds/N.rpm; outputs go there too. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "drpm.h"

static char dir[512], in1[600], in2[600], outp[600];
static int mode, nolds, ndeltas;
static unsigned long okc[16];

static void stats(void)
{
    FILE *f = fopen(getenv("FUZZ_STATS"), "w");
    if (!f) return;
    for (int i = 0; i < 16; i++) fprintf(f, "%lu ", okc[i]);
    fclose(f);
}

int LLVMFuzzerInitialize(int *argc, char ***argv)
{
    char b[600];
    snprintf(dir, sizeof dir, "%s", getenv("FUZZ_DIR"));
    mode = !strcmp(getenv("FUZZ_MODE"), "delta") ? 0 : !strcmp(getenv("FUZZ_MODE"), "rpm") ? 1 : 2;
    snprintf(in1, sizeof in1, "%s/in1.%d", dir, (int)getpid());
    snprintf(in2, sizeof in2, "%s/in2.%d", dir, (int)getpid());
    snprintf(outp, sizeof outp, "%s/out.%d", dir, (int)getpid());
    for (; snprintf(b, sizeof b, "%s/olds/%d.rpm", dir, nolds), access(b, R_OK) == 0; nolds++);
    for (; snprintf(b, sizeof b, "%s/deltas/%d.drpm", dir, ndeltas), access(b, R_OK) == 0; ndeltas++);
    atexit(stats);
    return 0;
}

static void put(const char *path, const uint8_t *d, size_t n)
{
    int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    while (n > 0) { ssize_t w = write(fd, d, n); if (w <= 0) break; d += w; n -= w; }
    close(fd);
}
static int note(int rc) { okc[rc >= 0 && rc < 16 ? rc : 15]++; return rc; }

static void getall(const char *p)
{
    drpm *d = NULL;
    if (note(drpm_read(&d, p)) != 0) return;
    for (int tag = 0; tag <= 20; tag++) {
        unsigned u; unsigned long ul, n, *a; unsigned long long ull; char *s;
        drpm_get_uint(d, tag, &u);
        drpm_get_ulong(d, tag, &ul);
        drpm_get_ullong(d, tag, &ull);
        if (drpm_get_string(d, tag, &s) == 0) { volatile size_t l = s ? strlen(s) : 0; (void)l; free(s); }
        if (drpm_get_ulong_array(d, tag, &a, &n) == 0) free(a);
    }
    drpm_destroy(&d);
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    char old[600], dl[600];
    drpm_make_options *o = NULL;
    if (size < 3) return 0;
    snprintf(old, sizeof old, "%s/olds/%d.rpm", dir, data[0] % nolds);
    if (mode == 0) {
        put(in1, data + 1, size - 1);
        getall(in1);
        note(drpm_apply(old, in1, outp));
    } else if (mode == 1) {
        unsigned c = data[0];
        put(in1, data + 1, size - 1);
        snprintf(dl, sizeof dl, "%s/deltas/%d.drpm", dir, c % (ndeltas ? ndeltas : 1));
        drpm_make_options_init(&o);
        drpm_make_options_set_type(o, c >> 7 & 1);
        if (!(c >> 7 & 1)) drpm_make_options_set_version(o, 1 + (c >> 4) % 3);
        drpm_make_options_set_delta_comp(o, c & 1 ? DRPM_COMP_NONE : DRPM_COMP_GZIP, c & 1 ? 0 : 1);
        drpm_make_options_set_addblk_comp(o, DRPM_COMP_GZIP, 1);
        if (c & 2) drpm_make_options_set_seqfile(o, in2);
        note(drpm_make(in1, c & 4 ? NULL : old, outp, o));
        note(drpm_make(old, in1, outp, o));
        if (ndeltas) note(drpm_apply(in1, dl, outp));
        note(drpm_check_sequence(in1, "pkg-1.0-1-0123456789abcdef0123456789abcdef08", DRPM_CHECK_NONE));
        drpm_make_options_destroy(&o);
    } else {
        size_t n = (data[0] | data[1] << 8) % (size - 1);
        put(in1, data + 2, n > size - 2 ? size - 2 : n);
        put(in2, data + 2 + (n > size - 2 ? size - 2 : n), size - 2 - (n > size - 2 ? size - 2 : n));
        snprintf(old, sizeof old, "%s/olds/%d.rpm", dir, data[0] % nolds);
        drpm_make_options_init(&o);
        drpm_make_options_set_delta_comp(o, DRPM_COMP_NONE, 0);
        drpm_make_options_add_patches(o, in2, in1);
        note(drpm_make(old, NULL, outp, o));
        drpm_make_options_destroy(&o);
    }
    return 0;
}
