/* the bit helpers as a C11 program sees them */
#include <crefl/bits.h>
unsigned c_clz_i(int v) { return clz(v); }
unsigned c_clz_u(unsigned v) { return clz(v); }
unsigned c_clz_ll(long long v) { return clz(v); }
unsigned c_clz_ull(unsigned long long v) { return clz(v); }
unsigned c_clz_l(long v) { return clz(v); }
unsigned c_clz_ul(unsigned long v) { return clz(v); }
unsigned c_ctz_i(int v) { return ctz(v); }
unsigned c_ctz_u(unsigned v) { return ctz(v); }
unsigned c_ctz_ll(long long v) { return ctz(v); }
unsigned c_ctz_ull(unsigned long long v) { return ctz(v); }
unsigned c_ctz_l(long v) { return ctz(v); }
unsigned c_ctz_ul(unsigned long v) { return ctz(v); }
unsigned c_pop_i(int v) { return popcnt(v); }
unsigned c_pop_u(unsigned v) { return popcnt(v); }
unsigned c_pop_ll(long long v) { return popcnt(v); }
unsigned c_pop_ull(unsigned long long v) { return popcnt(v); }
unsigned c_pop_l(long v) { return popcnt(v); }
unsigned c_pop_ul(unsigned long v) { return popcnt(v); }
unsigned c_clz_u32(unsigned v) { return clz_u32(v); }
unsigned c_ctz_u32(unsigned v) { return ctz_u32(v); }
unsigned c_pop_u32(unsigned v) { return popcnt_u32(v); }
unsigned c_clz_u64(unsigned long long v) { return clz_u64(v); }
unsigned c_ctz_u64(unsigned long long v) { return ctz_u64(v); }
unsigned c_pop_u64(unsigned long long v) { return popcnt_u64(v); }
