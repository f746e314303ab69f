/* P26: byte order helpers as a C program sees them */
#include <stddef.h>
#include <stdio.h>
#include <crefl/endian.h>
typedef unsigned long long ull;
static ull sw(ull x, int n) { ull r = 0; for (int i = 0; i < n; i++) r |= ((x >> (8 * i)) & 255) << (8 * (n - 1 - i)); return r; }
#define MASK(n) ((n) == 8 ? ~0ull : (1ull << (8 * (n))) - 1)
#define ONE(T, U) do { T v = (T)x; ull u = (ull)(U)v; \
    if (((ull)(U)htobe(v) & MASK(sizeof(T))) != sw(u, sizeof(T))) { snprintf(why, n, "htobe(" #T ")"); return 1; } \
    if (((ull)(U)betoh(v) & MASK(sizeof(T))) != sw(u, sizeof(T))) { snprintf(why, n, "betoh(" #T ")"); return 1; } \
    if (((ull)(U)htole(v) & MASK(sizeof(T))) != u) { snprintf(why, n, "htole(" #T ")"); return 1; } \
    if (((ull)(U)letoh(v) & MASK(sizeof(T))) != u) { snprintf(why, n, "letoh(" #T ")"); return 1; } } while (0)
int endian_c_check(unsigned long long x, char *why, size_t n)
{
    ONE(short, unsigned short); ONE(unsigned short, unsigned short); ONE(int, unsigned); ONE(unsigned, unsigned);
    ONE(long, unsigned long); ONE(unsigned long, unsigned long); ONE(long long, ull); ONE(ull, ull);
    if (be16(x) != sw(x & 0xffff, 2) || be32(x) != sw(x & 0xffffffffu, 4) || be64(x) != sw(x, 8)) { snprintf(why, n, "be"); return 1; }
    if (le16(x) != (x & 0xffff) || le32(x) != (x & 0xffffffffu) || le64(x) != x) { snprintf(why, n, "le"); return 1; }
    return 0;
}
