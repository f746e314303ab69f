/* P22: SHA-224/256 against a direct transcription of FIPS 180-4 */
#include "mc.h"
#include <crefl/sha256.h>

static uint32_t rr(uint32_t x, int n) { return x >> n | x << (32 - n); }
static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};

struct Ref {
    uint32_t h[8]; int bits; std::vector<uint8_t> tail; uint64_t n = 0;
    Ref(int b) : bits(b)
    {
        static const uint32_t i256[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
        static const uint32_t i224[8] = {0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4};
        memcpy(h, b == 224 ? i224 : i256, sizeof h);
    }
    void block(const uint8_t *p)
    {
        uint32_t w[64];
        for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[4*i] << 24 | p[4*i+1] << 16 | p[4*i+2] << 8 | p[4*i+3];
        for (int i = 16; i < 64; i++) w[i] = (rr(w[i-2],17)^rr(w[i-2],19)^(w[i-2]>>10)) + w[i-7] + (rr(w[i-15],7)^rr(w[i-15],18)^(w[i-15]>>3)) + w[i-16];
        uint32_t a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],k=h[7];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = k + (rr(e,6)^rr(e,11)^rr(e,25)) + ((e&f)^(~e&g)) + K[i] + w[i];
            uint32_t t2 = (rr(a,2)^rr(a,13)^rr(a,22)) + ((a&b)^(a&c)^(b&c));
            k=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
        }
        h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=d;h[4]+=e;h[5]+=f;h[6]+=g;h[7]+=k;
    }
    void add(const uint8_t *p, size_t l)
    {
        n += l;
        size_t i = 0;
        if (tail.size()) { while (i < l && tail.size() < 64) tail.push_back(p[i++]); if (tail.size() == 64) { block(tail.data()); tail.clear(); } }
        while (l - i >= 64) { block(p + i); i += 64; }
        tail.insert(tail.end(), p + i, p + l);
    }
    std::string final()
    {
        uint64_t bitlen = n * 8;
        tail.push_back(0x80);
        while (tail.size() % 64 != 56) tail.push_back(0);
        for (int i = 7; i >= 0; i--) tail.push_back(bitlen >> (8 * i));
        for (size_t i = 0; i < tail.size(); i += 64) block(tail.data() + i);
        uint8_t o[32];
        for (int i = 0; i < 8; i++) { o[4*i]=h[i]>>24; o[4*i+1]=h[i]>>16; o[4*i+2]=h[i]>>8; o[4*i+3]=h[i]; }
        return mc::hex(o, bits / 8);
    }
};

/* digest buffer of exactly the digest size, so a longer write is caught */
struct Sut {
    sha256_ctx *c; int bits;
    Sut(int b) : bits(b) { c = (sha256_ctx*)malloc(sizeof *c); memset(c, 0xa5, sizeof *c); b == 224 ? sha224_init(c) : sha256_init(c); mc::op(); }
    ~Sut() { free(c); }
    void add(const uint8_t *p, size_t l, int mis = 0)
    {
        uint8_t *q = (uint8_t*)malloc(l + mis + (l + mis == 0)); uint8_t *d = q + mis;
        if (l) memcpy(d, p, l);
        sha256_update(c, d, l); mc::op();
        if (l && memcmp(d, p, l)) mc::fail("update modified its input");
        free(q);
    }
    std::string final()
    {
        unsigned char *o = (unsigned char*)malloc(bits / 8);
        sha256_final(c, o); mc::op();
        std::string s = mc::hex(o, bits / 8); free(o); return s;
    }
};

static std::vector<uint8_t> msg(int pat, size_t n)
{
    std::vector<uint8_t> m(n);
    for (size_t i = 0; i < n; i++) m[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? (uint8_t)(i * 7 + 3) : (uint8_t)(i >> 3 ^ i * 31 ^ 0x80);
    return m;
}

static std::string ref(int bits, const std::vector<uint8_t> &m) { Ref r(bits); r.add(m.data(), m.size()); return r.final(); }

void mc_explore()
{
    size_t maxlen = mc::thorough ? 1100 : 330;
    for (int bits : {224, 256}) {
        for (int pat = 0; pat < 4; pat++)
            for (size_t n = 0; n <= maxlen; n++)
                if (mc::begin("sha%d pattern %d length %zu", bits, pat, n)) {
                    auto m = msg(pat, n); auto want = ref(bits, m);
                    for (int mis = 0; mis < 8; mis++) {
                        Sut s(bits); s.add(m.data(), n, mis); auto got = s.final();
                        MC_CHECK(got == want, "misalignment %d: digest %s, want %s", mis, got.c_str(), want.c_str());
                    }
                    mc::state();
                }
        /* every split in two */
        size_t two = mc::thorough ? 400 : 200;
        for (size_t n = 0; n <= two; n++)
            if (mc::begin("sha%d length %zu in two pieces", bits, n)) {
                auto m = msg(3, n); auto want = ref(bits, m);
                for (size_t a = 0; a <= n; a++) {
                    mc::sub(a); Sut s(bits); s.add(m.data(), a); s.add(m.data() + a, n - a); auto got = s.final();
                    MC_CHECK(got == want, "split at %zu: %s want %s", a, got.c_str(), want.c_str()); mc::state();
                }
            }
        /* every split in three of lengths around one and two blocks, with empty updates between */
        for (size_t n : {55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 130})
            for (size_t a = 0; a <= n; a++)
                if (mc::begin("sha%d length %zu in three pieces, first %zu", bits, n, a)) {
                    auto m = msg(2, n); auto want = ref(bits, m);
                    for (size_t b = a; b <= n; b++) {
                        mc::sub(b); Sut s(bits); s.add(m.data(), 0); s.add(m.data(), a); s.add(m.data() + a, b - a); s.add(m.data() + a, 0); s.add(m.data() + b, n - b);
                        auto got = s.final(); MC_CHECK(got == want, "split at %zu,%zu: %s want %s", a, b, got.c_str(), want.c_str()); mc::state();
                    }
                }
        /* equal pieces of every size */
        for (size_t c = 1; c <= (mc::thorough ? 400 : 200); c++)
            if (mc::begin("sha%d pieces of %zu", bits, c))
                for (size_t n : {64, 128, 192, 447, 448, 449, 511, 512, 513, 700}) {
                    mc::sub(n); auto m = msg(3, n); auto want = ref(bits, m);
                    Sut s(bits); for (size_t o = 0; o < n; o += c) s.add(m.data() + o, std::min(c, n - o));
                    auto got = s.final(); MC_CHECK(got == want, "length %zu: %s want %s", n, got.c_str(), want.c_str()); mc::state();
                }
        /* every chunk sequence of up to 4 chunks from a boundary alphabet */
        std::vector<size_t> al = {0, 1, 8, 55, 56, 63, 64, 65, 127, 128};
        for (size_t a : al) for (size_t b : al)
            if (mc::begin("sha%d chunks %zu,%zu,*,*", bits, a, b))
                for (size_t c : al) for (size_t d : al) {
                    mc::sub(c, d); auto m = msg(3, a + b + c + d); auto want = ref(bits, m);
                    Sut s(bits); size_t o = 0; for (size_t x : {a, b, c, d}) { s.add(m.data() + o, x); o += x; }
                    auto got = s.final(); MC_CHECK(got == want, "%s want %s", got.c_str(), want.c_str()); mc::state();
                }
    }
    /* two contexts, every interleaving of 4+4 updates, and reuse of a context after final */
    for (unsigned order = 0; order < 256; order++) {
        if (__builtin_popcount(order) != 4) continue;
        if (mc::begin("interleaving %02x of two contexts", order)) {
            size_t ch[2][4] = {{3, 61, 64, 7}, {64, 1, 120, 30}};
            for (int cfg = 0; cfg < 4; cfg++) {
                int b0 = cfg & 1 ? 224 : 256, b1 = cfg & 2 ? 224 : 256;
                auto m0 = msg(2, 135), m1 = msg(3, 215);
                Sut s0(b0), s1(b1); size_t o0 = 0, o1 = 0, i0 = 0, i1 = 0;
                for (int k = 0; k < 8; k++)
                    if (order >> k & 1) { s0.add(m0.data() + o0, ch[0][i0]); o0 += ch[0][i0++]; }
                    else { s1.add(m1.data() + o1, ch[1][i1]); o1 += ch[1][i1++]; }
                auto g0 = s0.final(), g1 = s1.final();
                MC_CHECK(g0 == ref(b0, m0), "context 0 disturbed"); MC_CHECK(g1 == ref(b1, m1), "context 1 disturbed");
                sha256_init(s0.c); s0.bits = 256; s0.add(m1.data(), 100); std::vector<uint8_t> h(m1.begin(), m1.begin() + 100);
                MC_CHECK(s0.final() == ref(256, h), "reinitialised context keeps state"); mc::state();
            }
        }
    }
    /* the bit count passes 2^32 */
    for (int bits : {224, 256})
        if (mc::begin("sha%d of 2^29+5 bytes", bits)) {
            auto m = msg(3, 1 << 20); Ref r(bits); sha256_ctx c; bits == 224 ? sha224_init(&c) : sha256_init(&c);
            unsigned rep = mc::thorough ? 4096 : 512;
            for (unsigned i = 0; i < rep; i++) { mc::sub(i); r.add(m.data(), m.size()); sha256_update(&c, m.data(), m.size()); mc::op(); }
            r.add(m.data(), 5); sha256_update(&c, m.data(), 5); unsigned char o[32]; sha256_final(&c, o);
            auto want = r.final(); MC_CHECK(mc::hex(o, bits / 8) == want, "%s want %s", mc::hex(o, bits / 8).c_str(), want.c_str()); mc::state();
        }
}
