/* Fault injection and I/O observation. The library's objects are compiled unchanged; objcopy renames their undefined
 * references (malloc -> drpmv_malloc, ...) so that every such call made by the library, and only by the library, comes here.
 *
 * spec: "count"            count calls only
 *       "KIND:N"           the N-th call (1-based) of KIND fails
 *       "KIND:N+"          every call of KIND from the N-th on fails
 * KIND: alloc  malloc/calloc/realloc return NULL
 *       dep    a dependency reports running out of memory (zlib, bzip2, lzma, zstd, lzlib)
 *       io     a system or rpmio call fails (open, creat, read, write, lseek, pread, pwrite, mkstemp, fstat, Fopen, Fread,
 *              Fwrite, Fseek, Ftell, Fclose, fopen, fprintf, fclose, close of a descriptor opened for writing, headerRead)
 *       short  a read or write transfers only part of what was asked (at least one byte less)
 *       eof    a read reports end of file */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <bzlib.h>
#include <lzma.h>
#include <lzlib.h>
#include <zlib.h>
#include <zstd.h>
#include <rpm/rpmlib.h>
#include <rpm/rpmio.h>
#include <rpm/header.h>

enum { K_NONE, K_ALLOC, K_DEP, K_IO, K_SHORT, K_EOF, K_N };
static int kind, plus, armed;
static long nth, counts[K_N], fired;
static char site[256], spec_copy[128];
static long st_pwrite, st_pread, st_open, st_temp, st_badclose;
static unsigned char wfd[65536];
static __thread long tcount;

/* where calls come from: every pair of call site and caller's call site, with the ordinals of its calls: first, second, some later, last */
#define NSITES 8192
static struct place { uintptr_t a, b; int k; long n, first, second, mid, last; } places[NSITES];
static int recording;

void faults_arm(const char *spec)
{
    const char *c;
    if (spec) snprintf(spec_copy, sizeof spec_copy, "%s", spec);
    spec = spec_copy;
    kind = !strncmp(spec, "alloc", 5) ? K_ALLOC : !strncmp(spec, "dep", 3) ? K_DEP : !strncmp(spec, "io", 2) ? K_IO :
           !strncmp(spec, "short", 5) ? K_SHORT : !strncmp(spec, "eof", 3) ? K_EOF : K_NONE;
    c = strchr(spec, ':');
    nth = c ? atol(c + 1) : 0;
    plus = c && strchr(c, '+') != NULL;
    memset(counts, 0, sizeof counts);
    fired = 0;
    site[0] = 0;
    recording = !strncmp(spec, "count", 5);
    if (recording) memset(places, 0, sizeof places);
    armed = 1;
}
void faults_disarm(void) { armed = 0; }
long faults_count(void) { return kind ? counts[kind] : 0; }
long faults_fired(void) { return fired; }
const char *faults_site(void) { return site; }
void faults_headers(long *, long *);
void faults_stats(char *buf, size_t n)
{
    long hr, hn;
    faults_headers(&hr, &hn);
    snprintf(buf, n, ",\"pw\":%ld,\"pr\":%ld,\"nop\":%ld,\"ntemp\":%ld,\"calloc\":%ld,\"cdep\":%ld,\"cio\":%ld,\"cshort\":%ld,\"ceof\":%ld,\"hrefs\":%ld,\"hnull\":%ld,\"badclose\":%ld", st_pwrite, st_pread, st_open, st_temp,
             counts[K_ALLOC], counts[K_DEP], counts[K_IO], counts[K_SHORT], counts[K_EOF], hr, hn, st_badclose);
    st_pwrite = st_pread = st_open = st_temp = st_badclose = 0;
}

/* every file the library opens for writing during a call, and whether it exists afterwards */
static char *written[256];
static int nwritten;
static void note_written(const char *p)
{
    int i = __atomic_fetch_add(&nwritten, 1, __ATOMIC_SEQ_CST);
    if (p && i < 256) written[i] = strdup(p);
}
void faults_written(FILE *out)
{
    int n = nwritten < 256 ? nwritten : 256;
    fprintf(out, ",\"wrote\":[");
    for (int i = 0; i < n; i++) {
        fprintf(out, "%s[\"", i ? "," : "");
        for (const unsigned char *c = (unsigned char *)written[i]; c && *c; c++)
            if (*c < 32 || *c > 126 || *c == '"' || *c == '\\') fprintf(out, "\\u%04x", *c); else fputc(*c, out);
        fprintf(out, "\",%d]", written[i] && access(written[i], F_OK) == 0);
        free(written[i]);
        written[i] = NULL;
    }
    fprintf(out, "]");
    nwritten = 0;
}

/* A stand-in for /usr/sbin/prelink: when $DRPMV_PRELINK names a program, the library finds it as the prelink program. */
int drpmv_execl(const char *path, const char *arg0, ...)
{
    char *argv[16];
    int n = 0;
    va_list ap;
    const char *sub = getenv("DRPMV_PRELINK");
    argv[n++] = (char *)arg0;
    va_start(ap, arg0);
    while (n < 15 && (argv[n] = va_arg(ap, char *)) != NULL) n++;
    argv[n] = NULL;
    va_end(ap);
    if (sub && !strcmp(path, "/usr/sbin/prelink")) path = sub;
    return execv(path, argv);
}

static void place(int k, void *ra, void *ra1)
{
    uintptr_t a = (uintptr_t)ra, b = (uintptr_t)ra1;
    unsigned h = (unsigned)((a * 31 + b * 17 + k) % NSITES);
    for (int i = 0; i < NSITES; i++, h = (h + 1) % NSITES) {
        struct place *p = places + h;
        if (p->n && (p->a != a || p->b != b || p->k != k)) continue;
        p->a = a, p->b = b, p->k = k;
        if (++p->n == 1) p->first = counts[k];
        if (p->n == 2) p->second = counts[k];
        if ((p->n & (p->n - 1)) == 0) p->mid = counts[k];
        p->last = counts[k];
        return;
    }
}
void faults_places(FILE *out)
{
    static const char *names[] = { "", "alloc", "dep", "io", "short", "eof" };
    if (!recording) return;
    fprintf(out, ",\"places\":{");
    for (int k = 1, c = 0; k < K_N; k++) {
        int m = 0;
        fprintf(out, "%s\"%s\":[", c++ ? "," : "", names[k]);
        for (int i = 0; i < NSITES; i++) {
            struct place *p = places + i;
            if (!p->n || p->k != k) continue;
            fprintf(out, "%s[%ld", m++ ? "," : "", p->first);
            if (p->n > 1) fprintf(out, ",%ld", p->second);
            if (p->n > 3) fprintf(out, ",%ld", p->mid);
            if (p->n > 2) fprintf(out, ",%ld", p->last);
            fprintf(out, "]");
        }
        fprintf(out, "]");
    }
    fprintf(out, "}");
}

static int hit(int k, const char *name, void *ra, void *ra1)
{
    if (!armed) return 0;
    counts[k]++;
    if (recording) place(k, ra, ra1);
    if (kind != k || nth <= 0) return 0;
    if (counts[k] == nth || (plus && counts[k] > nth)) {
        if (!fired) {
            Dl_info di;
            uintptr_t base = dladdr(ra, &di) ? (uintptr_t)di.dli_fbase : 0;
            snprintf(site, sizeof site, "%s@%lx", name, (unsigned long)((uintptr_t)ra - base));
        }
        fired++;
        return 1;
    }
    return 0;
}
#define HIT(k, name) hit(k, name, __builtin_return_address(0), __builtin_return_address(1))

/* $DRPMV_MAXALLOC: larger requests are refused (valgrind is slow with the gigabytes a hostile file claims) */
static bool big(size_t n)
{
    static size_t max;
    if (!max) max = getenv("DRPMV_MAXALLOC") ? strtoul(getenv("DRPMV_MAXALLOC"), NULL, 0) : SIZE_MAX;
    return n > max;
}
void *drpmv_malloc(size_t n) { return HIT(K_ALLOC, "malloc") || big(n) ? NULL : malloc(n); }
void *drpmv_calloc(size_t a, size_t b) { return HIT(K_ALLOC, "calloc") || (b && a > SIZE_MAX / b) || big(a * b) ? NULL : calloc(a, b); }
void *drpmv_realloc(void *p, size_t n) { return HIT(K_ALLOC, "realloc") || big(n) ? NULL : realloc(p, n); }

int drpmv_open(const char *p, int fl, ...)
{
    va_list ap;
    int mode, fd;
    va_start(ap, fl); mode = va_arg(ap, int); va_end(ap);
    if (HIT(K_IO, "open")) { errno = EIO; return -1; }
    st_open++;
    fd = open(p, fl, mode);
    if (fd >= 0 && fd < 65536) wfd[fd] = (fl & O_ACCMODE) != O_RDONLY;
    if ((fl & O_ACCMODE) != O_RDONLY) note_written(p);
    return fd;
}
int drpmv_creat(const char *p, mode_t m)
{
    int fd;
    if (HIT(K_IO, "creat")) { errno = ENOSPC; return -1; }
    fd = creat(p, m);
    if (fd >= 0 && fd < 65536) wfd[fd] = 1;
    note_written(p);
    return fd;
}
/* what a close() that fails could not bring to the disk */
static void lose(int fd)
{
    struct stat s;
    int e = errno;
    if (fd >= 0 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode) && s.st_size > 0) { if (ftruncate(fd, s.st_size / 2)) {} }
    errno = e;
}
int drpmv_close(int fd)
{
    if (fd >= 0 && fd < 65536 && wfd[fd]) {
        wfd[fd] = 0;
        if (HIT(K_IO, "close")) { lose(fd); close(fd); errno = EIO; return -1; }
    }
    if (close(fd) == 0) return 0;
    if (errno == EBADF) { st_badclose += fd >= 0; errno = EBADF; }      /* not its own (any more) */
    return -1;
}
ssize_t drpmv_read(int fd, void *b, size_t n)
{
    ssize_t r;
    if (HIT(K_IO, "read")) { errno = EIO; return -1; }
    if (n && HIT(K_EOF, "read")) return 0;
    if (n > 1 && HIT(K_SHORT, "read")) n = (n + 1) / 2;
    r = read(fd, b, n);
    return r;
}
ssize_t drpmv_write(int fd, const void *b, size_t n)
{
    if (HIT(K_IO, "write")) { errno = ENOSPC; return -1; }
    if (n > 1 && HIT(K_SHORT, "write")) n = n / 2;
    return write(fd, b, n);
}
off_t drpmv_lseek(int fd, off_t o, int w) { if (HIT(K_IO, "lseek")) { errno = EIO; return -1; } return lseek(fd, o, w); }
ssize_t drpmv_pread(int fd, void *b, size_t n, off_t o)
{
    if (HIT(K_IO, "pread")) { errno = EIO; return -1; }
    if (n > 1 && HIT(K_SHORT, "pread")) n /= 2;
    st_pread++;
    return pread(fd, b, n, o);
}
ssize_t drpmv_pwrite(int fd, const void *b, size_t n, off_t o)
{
    if (HIT(K_IO, "pwrite")) { errno = ENOSPC; return -1; }
    if (n > 1 && HIT(K_SHORT, "pwrite")) n /= 2;
    st_pwrite++;
    return pwrite(fd, b, n, o);
}
int drpmv_mkstemp(char *t)
{
    int fd;
    if (HIT(K_IO, "mkstemp")) { errno = EMFILE; return -1; }
    fd = mkstemp(t);
    note_written(t);
    st_temp++;
    return fd;
}
pid_t drpmv_fork(void) { if (HIT(K_IO, "fork")) { errno = EAGAIN; return -1; } return fork(); }
int drpmv_fstat(int fd, struct stat *s) { if (HIT(K_IO, "fstat")) { errno = EIO; return -1; } return fstat(fd, s); }
int drpmv_stat(const char *p, struct stat *s) { const char *sub = getenv("DRPMV_PRELINK"); if (sub && !strcmp(p, "/usr/sbin/prelink")) p = sub; if (HIT(K_IO, "stat")) { errno = EIO; return -1; } return stat(p, s); }
FILE *drpmv_fopen(const char *p, const char *m) { if (HIT(K_IO, "fopen")) { errno = EACCES; return NULL; } if (m[0] != 'r' || strchr(m, '+')) note_written(p); return fopen(p, m); }
int drpmv_fclose(FILE *f) { if (HIT(K_IO, "fclose")) { fflush(f); lose(fileno(f)); fclose(f); errno = ENOSPC; return EOF; } return fclose(f); }
int drpmv_fprintf(FILE *f, const char *fmt, ...)
{
    va_list ap;
    int r;
    if (HIT(K_IO, "fprintf")) { errno = ENOSPC; return -1; }
    va_start(ap, fmt); r = vfprintf(f, fmt, ap); va_end(ap);
    return r;
}
size_t drpmv_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (HIT(K_IO, "fwrite")) { errno = ENOSPC; return 0; } return fwrite(p, s, n, f); }
int drpmv_fputs(const char *s, FILE *f) { if (HIT(K_IO, "fputs")) { errno = ENOSPC; return EOF; } return fputs(s, f); }
int drpmv_fputc(int c, FILE *f) { if (HIT(K_IO, "fputc")) { errno = ENOSPC; return EOF; } return fputc(c, f); }
int drpmv_fflush(FILE *f) { if (HIT(K_IO, "fflush")) { errno = ENOSPC; return EOF; } return fflush(f); }

/* rpmio */
FD_t drpmv_Fopen(const char *p, const char *m) { if (HIT(K_IO, "Fopen")) { errno = EACCES; return NULL; } if (m[0] != 'r' || strchr(m, '+')) note_written(p); return Fopen(p, m); }
ssize_t drpmv_Fread(void *b, size_t s, size_t n, FD_t f)
{
    if (HIT(K_IO, "Fread")) { errno = EIO; return -1; }
    if (HIT(K_EOF, "Fread")) return 0;
    if (s == 1 && n > 1 && HIT(K_SHORT, "Fread")) n = (n + 1) / 2;
    else if (s > 1 && n == 1 && HIT(K_SHORT, "Fread")) { n = s / 2; s = 1; }
    return Fread(b, s, n, f);
}
ssize_t drpmv_Fwrite(const void *b, size_t s, size_t n, FD_t f)
{
    if (HIT(K_IO, "Fwrite")) { errno = ENOSPC; return -1; }
    if (s == 1 && n > 1 && HIT(K_SHORT, "Fwrite")) n /= 2;
    return Fwrite(b, s, n, f);
}
int drpmv_Fseek(FD_t f, off_t o, int w) { if (HIT(K_IO, "Fseek")) { errno = EIO; return -1; } return Fseek(f, o, w); }
off_t drpmv_Ftell(FD_t f) { if (HIT(K_IO, "Ftell")) { errno = EIO; return -1; } return Ftell(f); }
int drpmv_Fclose(FD_t f) { if (HIT(K_IO, "Fclose")) { Fflush(f); lose(Fileno(f)); Fclose(f); errno = EIO; return -1; } return Fclose(f); }
/* header references taken and given back, and headers librpm refused */
static long hdr_refs, hdr_null;
static Header href(Header h, int n) { if (h) __atomic_add_fetch(&hdr_refs, n, __ATOMIC_SEQ_CST); return h; }
Header drpmv_headerRead(FD_t f, int m)
{
    Header h;
    if (HIT(K_IO, "headerRead")) return NULL;
    h = href(headerRead(f, m), 1);
    if (!h) __atomic_add_fetch(&hdr_null, 1, __ATOMIC_SEQ_CST);
    return h;
}
Header drpmv_headerNew(void) { return href(headerNew(), 1); }
Header drpmv_headerCopy(Header h) { return href(headerCopy(h), 1); }
Header drpmv_headerLink(Header h) { return href(headerLink(h), 1); }
Header drpmv_headerFree(Header h) { href(h, -1); return headerFree(h); }
Header drpmv_headerImport(void *b, unsigned n, headerImportFlags f)
{
    Header h = href(headerImport(b, n, f), 1);
    if (!h) __atomic_add_fetch(&hdr_null, 1, __ATOMIC_SEQ_CST);
    return h;
}
void faults_headers(long *refs, long *nulls) { *refs = hdr_refs; *nulls = hdr_null; hdr_refs = hdr_null = 0; }

/* dependencies running out of memory */
int drpmv_inflateInit2_(z_streamp s, int w, const char *v, int n) { return HIT(K_DEP, "inflateInit2") ? Z_MEM_ERROR : inflateInit2_(s, w, v, n); }
int drpmv_deflateInit2_(z_streamp s, int l, int m, int w, int me, int st, const char *v, int n)
{ return HIT(K_DEP, "deflateInit2") ? Z_MEM_ERROR : deflateInit2_(s, l, m, w, me, st, v, n); }
int drpmv_inflate(z_streamp s, int f) { return HIT(K_DEP, "inflate") ? Z_MEM_ERROR : inflate(s, f); }
int drpmv_BZ2_bzCompressInit(bz_stream *s, int a, int b, int c) { return HIT(K_DEP, "bzCompressInit") ? BZ_MEM_ERROR : BZ2_bzCompressInit(s, a, b, c); }
int drpmv_BZ2_bzDecompressInit(bz_stream *s, int a, int b) { return HIT(K_DEP, "bzDecompressInit") ? BZ_MEM_ERROR : BZ2_bzDecompressInit(s, a, b); }
int drpmv_BZ2_bzDecompress(bz_stream *s) { return HIT(K_DEP, "bzDecompress") ? BZ_MEM_ERROR : BZ2_bzDecompress(s); }
lzma_ret drpmv_lzma_easy_encoder(lzma_stream *s, uint32_t p, lzma_check c) { return HIT(K_DEP, "lzma_easy_encoder") ? LZMA_MEM_ERROR : lzma_easy_encoder(s, p, c); }
lzma_ret drpmv_lzma_alone_encoder(lzma_stream *s, const lzma_options_lzma *o) { return HIT(K_DEP, "lzma_alone_encoder") ? LZMA_MEM_ERROR : lzma_alone_encoder(s, o); }
lzma_ret drpmv_lzma_auto_decoder(lzma_stream *s, uint64_t m, uint32_t f) { return HIT(K_DEP, "lzma_auto_decoder") ? LZMA_MEM_ERROR : lzma_auto_decoder(s, m, f); }
lzma_ret drpmv_lzma_code(lzma_stream *s, lzma_action a) { return HIT(K_DEP, "lzma_code") ? LZMA_MEM_ERROR : lzma_code(s, a); }
ZSTD_CCtx *drpmv_ZSTD_createCCtx(void) { return HIT(K_DEP, "ZSTD_createCCtx") ? NULL : ZSTD_createCCtx(); }
ZSTD_DCtx *drpmv_ZSTD_createDCtx(void) { return HIT(K_DEP, "ZSTD_createDCtx") ? NULL : ZSTD_createDCtx(); }
size_t drpmv_ZSTD_CCtx_setParameter(ZSTD_CCtx *c, ZSTD_cParameter p, int v)
{ return HIT(K_DEP, "ZSTD_CCtx_setParameter") ? (size_t)-64 : ZSTD_CCtx_setParameter(c, p, v); }
size_t drpmv_ZSTD_compressStream2(ZSTD_CCtx *c, ZSTD_outBuffer *o, ZSTD_inBuffer *i, ZSTD_EndDirective e)
{ return HIT(K_DEP, "ZSTD_compressStream2") ? (size_t)-64 : ZSTD_compressStream2(c, o, i, e); }
size_t drpmv_ZSTD_decompressStream(ZSTD_DCtx *c, ZSTD_outBuffer *o, ZSTD_inBuffer *i)
{ return HIT(K_DEP, "ZSTD_decompressStream") ? (size_t)-64 : ZSTD_decompressStream(c, o, i); }
struct LZ_Encoder *drpmv_LZ_compress_open(const int a, const int b, const unsigned long long c) { return HIT(K_DEP, "LZ_compress_open") ? NULL : LZ_compress_open(a, b, c); }
struct LZ_Decoder *drpmv_LZ_decompress_open(void) { return HIT(K_DEP, "LZ_decompress_open") ? NULL : LZ_decompress_open(); }
