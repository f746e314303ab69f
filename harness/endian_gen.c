/* P26: the portable forms, selected when no platform header is known */
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#undef __linux__
#undef __GLIBC__
#undef __gnu_linux__
#define bswap16 gen_bswap16
#define bswap32 gen_bswap32
#define bswap64 gen_bswap64
#undef htobe16
#undef htobe32
#undef htobe64
#undef htole16
#undef htole32
#undef htole64
#undef be16toh
#undef be32toh
#undef be64toh
#undef le16toh
#undef le32toh
#undef le64toh
#include <crefl/endian.h>
typedef unsigned long long ull;
static ull sw(ull x, int n) { ull r = 0; for (int i = 0; i < n; i++) r |= ((x >> (8 * i)) & 255) << (8 * (n - 1 - i)); return r; }
int endian_gen_check(unsigned long long x, char *why, size_t n)
{
    if (be16(x) != sw(x & 0xffff, 2) || be32(x) != sw(x & 0xffffffffu, 4) || be64(x) != sw(x, 8)) { snprintf(why, n, "be"); return 1; }
    if (le16(x) != (x & 0xffff) || le32(x) != (x & 0xffffffffu) || le64(x) != x) { snprintf(why, n, "le"); return 1; }
    if (gen_bswap16(x) != sw(x & 0xffff, 2) || gen_bswap32(x) != sw(x & 0xffffffffu, 4) || gen_bswap64(x) != sw(x, 8)) { snprintf(why, n, "bswap"); return 1; }
    if (htobe64(x) != sw(x, 8) || htole32(x) != (x & 0xffffffffu) || be16toh(x) != sw(x & 0xffff, 2)) { snprintf(why, n, "host"); return 1; }
    return 0;
}
