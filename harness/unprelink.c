/* Stand-in for "prelink -o OUT -u FILE": writes the original content an image made by lib/prelink.py carries at its end.
 * $DRPMV_PLMODE: ok, or a way to go wrong. */
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int main(int argc, char **argv)
{
    const char *mode = getenv("DRPMV_PLMODE"), *log = getenv("DRPMV_PLLOG");
    unsigned char t[16], *b;
    uint64_t n = 0;
    FILE *f;
    if (log && (f = fopen(log, "a"))) { fprintf(f, "%s\n", mode); fclose(f); }
    if (argc != 5 || strcmp(argv[1], "-o") || strcmp(argv[3], "-u")) return 3;
    if (!mode) mode = "ok";
    if (!strcmp(mode, "fail")) return 1;
    if (!strcmp(mode, "unlink")) { unlink(argv[2]); return 1; }
    if (!strcmp(mode, "killed")) { raise(SIGKILL); }
    if (!(f = fopen(argv[4], "r"))) return 4;
    if (fseek(f, -16, SEEK_END) || fread(t, 1, 16, f) != 16 || memcmp(t + 8, "DRPMUNDO", 8)) return 5;
    for (int i = 0; i < 8; i++) n = n << 8 | t[i];
    b = malloc(n + 1);
    if (fseek(f, -16 - (long)n, SEEK_END) || fread(b, 1, n, f) != n) return 6;
    fclose(f);
    if (!strcmp(mode, "short") && n) n -= 1 + (n > 9000 ? 8192 : 0);
    if (!strcmp(mode, "wrong") && n) b[n / 2] ^= 1;
    if (!strcmp(mode, "slow")) usleep(30000);
    if (!(f = fopen(argv[2], "w")) || fwrite(b, 1, n, f) != n || fclose(f)) return 7;
    free(b);
    return !strcmp(mode, "late") ? 1 : 0;
}
