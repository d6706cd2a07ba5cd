/* Line server used by the generators and oracles: compresses a file the way rpmbuild does (through librpmio),
 * makes/undoes lzip, undoes zstd. Never linked with the code under test. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <rpm/rpmio.h>
#include <zstd.h>
#include <lzlib.h>

static unsigned char *slurp(const char *fn, size_t *len)
{
    FILE *f = fopen(fn, "rb");
    unsigned char *b;
    long n;
    if (!f) return NULL;
    fseek(f, 0, SEEK_END); n = ftell(f); rewind(f);
    b = malloc(n + 1);
    if (fread(b, 1, n, f) != (size_t)n) { fclose(f); return NULL; }
    fclose(f);
    *len = n;
    return b;
}

static int unzstd(const unsigned char *in, size_t n, const char *out)
{
    ZSTD_DCtx *d = ZSTD_createDCtx();
    static unsigned char buf[1 << 17];
    ZSTD_inBuffer ib = { in, n, 0 };
    size_t r = 1;
    FILE *f = fopen(out, "wb");
    while (ib.pos < ib.size) {
        ZSTD_outBuffer ob = { buf, sizeof buf, 0 };
        r = ZSTD_decompressStream(d, &ob, &ib);
        if (ZSTD_isError(r)) { fclose(f); ZSTD_freeDCtx(d); return -1; }
        fwrite(buf, 1, ob.pos, f);
    }
    while (r != 0) {
        ZSTD_outBuffer ob = { buf, sizeof buf, 0 };
        r = ZSTD_decompressStream(d, &ob, &ib);
        if (ZSTD_isError(r) || ob.pos == 0) break;
        fwrite(buf, 1, ob.pos, f);
    }
    fclose(f);
    ZSTD_freeDCtx(d);
    return r == 0 ? 0 : -1;
}

static int unlzip(const unsigned char *in, size_t n, const char *out)
{
    struct LZ_Decoder *d = LZ_decompress_open();
    static unsigned char buf[1 << 16];
    size_t pos = 0;
    int fin = 0, r, rc = -1;
    FILE *f = fopen(out, "wb");
    for (;;) {
        int w = LZ_decompress_write_size(d);
        if (w > 0 && pos < n) {
            if ((size_t)w > n - pos) w = n - pos;
            w = LZ_decompress_write(d, in + pos, w);
            if (w > 0) pos += w;
        }
        if (pos == n && !fin) { LZ_decompress_finish(d); fin = 1; }
        r = LZ_decompress_read(d, buf, sizeof buf);
        if (r < 0) break;
        fwrite(buf, 1, r, f);
        if (LZ_decompress_finished(d) == 1) { rc = 0; break; }
    }
    fclose(f);
    LZ_decompress_close(d);
    return rc;
}

static int lzip(const unsigned char *in, size_t n, const char *out, int level)
{
    static const int dict[10] = { 65535, 1 << 20, 3 << 19, 1 << 21, 3 << 20, 1 << 22, 1 << 23, 1 << 24, 3 << 23, 1 << 25 };
    static const int ml[10] = { 16, 5, 6, 8, 12, 20, 36, 68, 132, 273 };
    struct LZ_Encoder *e = LZ_compress_open(dict[level], ml[level], INT64_MAX);
    static unsigned char buf[1 << 16];
    size_t pos = 0;
    int r, fin = 0, rc = -1;
    FILE *f = fopen(out, "wb");
    for (;;) {
        if (pos < n) {
            size_t w = n - pos > (1 << 20) ? (1 << 20) : n - pos;
            r = LZ_compress_write(e, in + pos, w);
            if (r > 0) pos += r;
        }
        if (pos == n && !fin) { LZ_compress_finish(e); fin = 1; }
        r = LZ_compress_read(e, buf, sizeof buf);
        if (r < 0) break;
        fwrite(buf, 1, r, f);
        if (LZ_compress_finished(e) == 1) { rc = 0; break; }
    }
    fclose(f);
    LZ_compress_close(e);
    return rc;
}

/* One zstd frame of blocks of varying sizes (flushed), with or without checksum and content size: "zstdx:<level>:<flags>:<seed>" */
static int zstdx(const unsigned char *in, size_t n, const char *out, const char *arg)
{
    int level = 1, flags = 0;
    unsigned seed = 1;
    size_t pos = 0, r, lim = (size_t)-1;
    size_t const cap = ZSTD_CStreamOutSize();
    unsigned char *buf = malloc(cap);
    ZSTD_CCtx *c = ZSTD_createCCtx();
    FILE *f = fopen(out, "wb");
    int rc = 0, k = 0;
    sscanf(arg, "%d:%d:%u", &level, &flags, &seed);
    ZSTD_CCtx_setParameter(c, ZSTD_c_compressionLevel, level);
    ZSTD_CCtx_setParameter(c, ZSTD_c_checksumFlag, flags & 1);
    ZSTD_CCtx_setParameter(c, ZSTD_c_contentSizeFlag, !!(flags & 2));
    if (flags & 2) ZSTD_CCtx_setPledgedSrcSize(c, n);
    if (flags & 4) ZSTD_CCtx_setParameter(c, ZSTD_c_windowLog, 10);
    if (flags & 16) ZSTD_CCtx_setParameter(c, ZSTD_c_windowLog, 24);
    do {
        if (flags & 8) { seed = seed * 1103515245u + 12345u; lim = (seed >> 16) % (k++ & 1 ? 200000 : 3000) + 1; }
        size_t w = n - pos < lim ? n - pos : lim;
        ZSTD_inBuffer ib = { in + pos, w, 0 };
        int end = pos + w == n;
        do {
            ZSTD_outBuffer ob = { buf, cap, 0 };
            r = ZSTD_compressStream2(c, &ob, &ib, end ? ZSTD_e_end : ZSTD_e_flush);
            if (ZSTD_isError(r)) { rc = -1; break; }
            fwrite(buf, 1, ob.pos, f);
        } while (r != 0);
        pos += w;
    } while (rc == 0 && pos < n);
    fclose(f);
    free(buf);
    ZSTD_freeCCtx(c);
    return rc;
}

static int rpmio(const unsigned char *in, size_t n, const char *out, const char *mode)
{
    FD_t fd = Fopen(out, mode);
    size_t pos = 0;
    if (fd == NULL || Ferror(fd)) return -1;
    while (pos < n) { /* rpmbuild writes cpio data in 32 KiB pieces */
        size_t w = n - pos > 32768 ? 32768 : n - pos;
        if (Fwrite(in + pos, 1, w, fd) != (ssize_t)w) { Fclose(fd); return -1; }
        pos += w;
    }
    return Fclose(fd) == 0 ? 0 : -1;
}

int main(void)
{
    char line[4096], op[64], a[1024], b[1024];
    while (fgets(line, sizeof line, stdin)) {
        unsigned char *in;
        size_t n;
        int rc = -1;
        if (sscanf(line, "%63s %1023s %1023s", op, a, b) != 3) { puts("ERR"); fflush(stdout); continue; }
        if ((in = slurp(a, &n)) != NULL) {
            if (!strncmp(op, "rpmio:", 6)) rc = rpmio(in, n, b, op + 6);
            else if (!strncmp(op, "lzip:", 5)) rc = lzip(in, n, b, atoi(op + 5));
            else if (!strncmp(op, "zstdx:", 6)) rc = zstdx(in, n, b, op + 6);
            else if (!strcmp(op, "unzstd")) rc = unzstd(in, n, b);
            else if (!strcmp(op, "unlzip")) rc = unlzip(in, n, b);
            free(in);
        }
        puts(rc == 0 ? "OK" : "ERR");
        fflush(stdout);
    }
    return 0;
}
