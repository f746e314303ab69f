/* P28: bit helpers against arithmetic, every overload, C and C++ */
#include "mc.h"
#include <crefl/bits.h>

extern "C" {
unsigned c_clz_i(int); unsigned c_clz_u(unsigned); unsigned c_clz_ll(long long); unsigned c_clz_ull(unsigned long long);
unsigned c_ctz_i(int); unsigned c_ctz_u(unsigned); unsigned c_ctz_ll(long long); unsigned c_ctz_ull(unsigned long long);
unsigned c_pop_i(int); unsigned c_pop_u(unsigned); unsigned c_pop_ll(long long); unsigned c_pop_ull(unsigned long long);
unsigned c_clz_u32(unsigned); unsigned c_ctz_u32(unsigned); unsigned c_pop_u32(unsigned);
unsigned c_clz_l(long); unsigned c_clz_ul(unsigned long); unsigned c_ctz_l(long); unsigned c_ctz_ul(unsigned long); unsigned c_pop_l(long); unsigned c_pop_ul(unsigned long);
unsigned f_clz_u32(unsigned); unsigned f_ctz_u32(unsigned); unsigned f_pop_u32(unsigned);
unsigned f_clz_u64(unsigned long long); unsigned f_ctz_u64(unsigned long long); unsigned f_pop_u64(unsigned long long);
unsigned c_clz_u64(unsigned long long); unsigned c_ctz_u64(unsigned long long); unsigned c_pop_u64(unsigned long long);
}

typedef unsigned long long u;

/* the model: one bit at a time */
static void model(u v, unsigned w, unsigned &l, unsigned &t, unsigned &p)
{
    l = w; t = w; p = 0;
    for (unsigned i = 0; i < w; i++) if ((v >> i) & 1) { p++; l = w - 1 - i; if (t == w) t = i; }
}

static void check(u v)
{
    unsigned l, t, p;
    mc::sub(v);
    model(v, 64, l, t, p);
#define C64(name, got, want) MC_CHECK((got) == (want), "%s(0x%llx) = %u, want %u", name, v, (unsigned)(got), want)
    C64("clz<long>", clz((long)v), l); C64("clz<ulong>", clz((unsigned long)v), l);
    C64("clz<llong>", clz((long long)v), l); C64("clz<ullong>", clz((u)v), l);
    C64("ctz<long>", ctz((long)v), t); C64("ctz<ulong>", ctz((unsigned long)v), t);
    C64("ctz<llong>", ctz((long long)v), t); C64("ctz<ullong>", ctz((u)v), t);
    C64("popcnt<long>", popcnt((long)v), p); C64("popcnt<ulong>", popcnt((unsigned long)v), p);
    C64("popcnt<llong>", popcnt((long long)v), p); C64("popcnt<ullong>", popcnt((u)v), p);
    C64("clz_u64", clz_u64(v), l); C64("ctz_u64", ctz_u64(v), t); C64("popcnt_u64", popcnt_u64(v), p);
    C64("C clz llong", c_clz_ll(v), l); C64("C clz ullong", c_clz_ull(v), l); C64("C clz_u64", c_clz_u64(v), l);
    C64("C ctz llong", c_ctz_ll(v), t); C64("C ctz ullong", c_ctz_ull(v), t); C64("C ctz_u64", c_ctz_u64(v), t);
    C64("C clz long", c_clz_l(v), l); C64("C clz ulong", c_clz_ul(v), l); C64("C ctz long", c_ctz_l(v), t); C64("C ctz ulong", c_ctz_ul(v), t); C64("C popcnt long", c_pop_l(v), p); C64("C popcnt ulong", c_pop_ul(v), p);
    C64("C popcnt llong", c_pop_ll(v), p); C64("C popcnt ullong", c_pop_ull(v), p); C64("C popcnt_u64", c_pop_u64(v), p);
    C64("fallback clz_u64", f_clz_u64(v), l); C64("fallback ctz_u64", f_ctz_u64(v), t); C64("fallback popcnt_u64", f_pop_u64(v), p);
    unsigned x = (unsigned)v;
    model(x, 32, l, t, p);
    C64("clz<int>", clz((int)x), l); C64("clz<uint>", clz(x), l); C64("ctz<int>", ctz((int)x), t); C64("ctz<uint>", ctz(x), t);
    C64("popcnt<int>", popcnt((int)x), p); C64("popcnt<uint>", popcnt(x), p);
    C64("clz_u32", clz_u32(x), l); C64("ctz_u32", ctz_u32(x), t); C64("popcnt_u32", popcnt_u32(x), p);
    C64("C clz int", c_clz_i(x), l); C64("C clz uint", c_clz_u(x), l); C64("C clz_u32", c_clz_u32(x), l);
    C64("C ctz int", c_ctz_i(x), t); C64("C ctz uint", c_ctz_u(x), t); C64("C ctz_u32", c_ctz_u32(x), t);
    C64("C popcnt int", c_pop_i(x), p); C64("C popcnt uint", c_pop_u(x), p); C64("C popcnt_u32", c_pop_u32(x), p);
    C64("fallback clz_u32", f_clz_u32(x), l); C64("fallback ctz_u32", f_ctz_u32(x), t); C64("fallback popcnt_u32", f_pop_u32(x), p);
    mc::op(54); mc::state();
}

void mc_explore()
{
    /* all 16-bit values at every byte shift, and their complements */
    for (unsigned sh = 0; sh <= 48; sh += mc::thorough ? 1 : 4)
        for (unsigned hi = 0; hi < 16; hi++)
            if (mc::begin("16-bit window shift=%u hi=%u", sh, hi))
                for (unsigned lo = 0; lo < 4096; lo++) { u v = (u)(hi << 12 | lo) << sh; check(v); check(~v); }
    /* all words with up to three set bits, complements, and all runs */
    for (int a = 0; a < 64; a++)
        if (mc::begin("words with bits %d,b,c", a))
            for (int b = 0; b < 64; b++) for (int c = 0; c <= b; c++) { u v = 1ull << a | 1ull << b | 1ull << c; check(v); check(~v); }
    for (int a = 0; a < 64; a++)
        if (mc::begin("runs from bit %d", a))
            for (int n = 1; n <= 64 - a; n++) { u v = (n == 64 ? ~0ull : ((1ull << n) - 1)) << a; check(v); check(~v); }
    if (mc::thorough)
        for (unsigned hi = 0; hi < 4096; hi++)
            if (mc::begin("32-bit block %u", hi))
                for (unsigned lo = 0; lo < (1u << 20); lo += 1) {
                    unsigned x = hi << 20 | lo;
                    unsigned l, t, p; mc::sub(x);
                    l = x ? 0 : 32; if (x) while (!(x << l & 0x80000000u)) l++;
                    t = x ? 0 : 32; if (x) while (!(x >> t & 1)) t++;
                    p = 0; for (unsigned y = x; y; y &= y - 1) p++;
                    if (clz(x) != l || ctz(x) != t || popcnt(x) != p || c_clz_u(x) != l || c_ctz_u(x) != t || c_pop_u(x) != p || c_pop_i(x) != p)
                        mc::fail("32-bit helper wrong at 0x%x", x);
                    mc::op(7); mc::state();
                }
}
