/* the portable fallbacks, as a compiler without builtins sees them */
#undef __GNUC__
#undef __clang__
#include <crefl/bits.h>
unsigned f_clz_u32(unsigned v) { return clz_u32(v); }
unsigned f_ctz_u32(unsigned v) { return ctz_u32(v); }
unsigned f_pop_u32(unsigned v) { return popcnt_u32(v); }
unsigned f_clz_u64(unsigned long long v) { return clz_u64(v); }
unsigned f_ctz_u64(unsigned long long v) { return ctz_u64(v); }
unsigned f_pop_u64(unsigned long long v) { return popcnt_u64(v); }
