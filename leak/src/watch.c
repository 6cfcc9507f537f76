/* Reads what `valgrind --tool=lackey --trace-mem=yes` says and prints, for
   every window of mark.c, a digest of the instructions fetched and the
   addresses read and written. */
#include <stdint.h>
#include <stdio.h>
#include <string.h>

int main(void) {
    static char buf[1 << 16];
    uint64_t h = 0;
    int on = 0;
    while (fgets(buf, sizeof buf, stdin)) {
        char *s = buf;
        if (s[0] == '=') continue;
        if ((s[0] != 'I' && s[0] != ' ') || s[2] != ' ') continue;
        if (s[1] == 'S' || s[1] == 'M') {
            if (!strncmp(s + 3, "700dead0000,", 12)) { h = 0xcbf29ce484222325ull; on = 1; continue; }
            if (!strncmp(s + 3, "700dead0008,", 12)) { if (on) printf("%016llx\n", (unsigned long long)h); on = 0; continue; }
        }
        if (on) for (; *s && *s != '\n'; s++) { h = (h ^ (unsigned char)*s) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; }
    }
    return 0;
}
