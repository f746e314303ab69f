/* P10: hashmap against std::map under every operation sequence */
#include "mc.h"
#include <crefl/hashmap.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static int pattern;   /* collision pattern of the hash */
struct Key { int v; Key(int x = 0) : v(x) {} bool operator==(const Key &o) const { return v == o.v; } };
struct HashFn { size_t operator()(const Key &k) const {
    switch (pattern) {
    case 0: return k.v;
    case 1: return 0;                        /* all collide */
    case 2: return ~(size_t)0;               /* all collide in the last slot, probing wraps */
    case 3: return k.v & 1;
    case 4: return (size_t)k.v << 1 | 1;
    case 5: return (size_t)-k.v;
    case 6: return (size_t)k.v * 0x9e3779b97f4a7c15ull >> 7;
    case 7: return k.v / 2 * 3;
    default: return (size_t)k.v << 32; } } };
typedef hashmap<Key,int,HashFn> Map;
typedef std::map<int,int> Ref;

static const int NK = 8;

static void compare(Map &m, const Ref &r, int nk, const char *what)
{
    if (m.size() != r.size()) mc::fail("%s: size %zu, want %zu", what, m.size(), r.size());
    for (int k = 1; k <= nk; k++) {
        auto i = m.find(Key(k)); auto j = r.find(k);
        if (j == r.end()) { if (i != m.end()) mc::fail("%s: key %d found but absent", what, k); }
        else if (i == m.end()) mc::fail("%s: key %d lost", what, k);
        else if (i->first.v != k || i->second != j->second) mc::fail("%s: key %d maps to %d, want %d", what, k, i->second, j->second);
    }
    Ref seen; size_t n = 0;
    for (auto i = m.begin(); i != m.end(); ++i) {
        if (++n > r.size() + 4) { mc::fail("%s: iteration yields too many pairs", what); break; }
        auto &d = *i;
        if (seen.count(d.first.v)) mc::fail("%s: iteration yields key %d twice", what, d.first.v);
        seen[d.first.v] = d.second;
    }
    if (seen != r && n <= r.size() + 4) mc::fail("%s: iteration differs from the map (%zu pairs, want %zu)", what, seen.size(), r.size());
    /* stepping past a pair leaves the place it was taken from */
    n = 0; seen.clear();
    for (auto i = m.begin(); i != m.end(); ) {
        if (++n > r.size() + 4) break;
        auto &d = *i; auto o = i++;
        if (&*o != &d || (r.size() < 64 && o != m.find(d.first))) { mc::fail("%s: i++ gives another place than i", what); break; }
        seen[d.first.v] = d.second;
    }
    if (n != r.size() || seen != r) mc::fail("%s: iteration with i++ gives %zu pairs, want %zu", what, n, r.size());
    mc::op(nk + 2);
}

struct Op { char kind; int k; };
static std::vector<Op> ops(int nk, bool full)
{
    std::vector<Op> v;
    for (int k = 1; k <= nk; k++) { v.push_back({'i', k}); v.push_back({'e', k}); if (full) v.push_back({'s', k}); }
    if (full) { v.push_back({'r', 1}); v.push_back({'c', 0}); v.push_back({'C', 0}); v.push_back({'A', 0}); v.push_back({'S', 0}); v.push_back({'M', 0}); v.push_back({'V', 0}); }
    return v;
}
static std::string show(const std::vector<Op> &s)
{
    std::string r;
    for (auto &o : s) { r += o.kind; if (o.k) r += std::to_string(o.k); r += ' '; }
    return r;
}

static void apply(Map *&m, Ref &r, Op o, int n, int nk)
{
    int val = n * 10 + o.k + 1;
    mc::op();
    switch (o.kind) {
    case 'i': { auto it = m->insert(Key(o.k), val); r[o.k] = val; if (it == m->end() || it->first.v != o.k || it->second != val) mc::fail("insert returned the wrong position"); break; }
    case 's': { int &x = (*m)[Key(o.k)]; int want = r.count(o.k) ? r[o.k] : 0; if (x != want) mc::fail("subscript of key %d gives %d, want %d", o.k, x, want); x = val; r[o.k] = val; break; }
    case 'r': { /* read through subscript creates a default value */ int x = (*m)[Key(o.k)]; if (x != r[o.k]) mc::fail("subscript read gives %d, want %d", x, r[o.k]); break; }
    case 'e': m->erase(Key(o.k)); r.erase(o.k); break;
    case 'c': m->clear(); r.clear(); break;
    case 'C': { Map *c = new Map(*m); m->insert(Key(7), 777); m->erase(Key(1)); Ref r2 = r; r2[7] = 777; r2.erase(1); compare(*m, r2, nk, "copied-from after change"); bool eq = *c == *m; if (eq != (r == r2)) mc::fail("equality of copies wrong"); delete m; m = c; break; }
    case 'A': { Map *c = new Map(2); c->insert(Key(5), 55); *c = *m; m->insert(Key(6), 66); m->erase(Key(2)); if (*c == *m) { Ref r2 = r; r2[6] = 66; r2.erase(2); if (r2 != r) mc::fail("assigned copy shares state"); } delete m; m = c; break; }
    case 'S': { Map &alias = *m; *m = alias; break; }
    case 'M': { Map *c = new Map(std::move(*m)); delete m; m = c; break; }
    case 'V': { Map *c = new Map(4); c->insert(Key(5), 55); c->insert(Key(6), 56); *c = std::move(*m); delete m; m = c; break; }
    }
}

static size_t leaked;
static void run(const std::vector<Op> &s, size_t cap, int nk)
{
    size_t before = __sanitizer_get_current_allocated_bytes();
    {
        Map *m = cap ? new Map(cap) : new Map();
        Ref r; int n = 0;
        for (auto &o : s) apply(m, r, o, n++, nk);
        compare(*m, r, NK, show(s).c_str());
        delete m;
    }
    size_t after = __sanitizer_get_current_allocated_bytes();
    if (after != before && !leaked) { leaked = after - before; mc::fail("%s: %zu bytes leaked", show(s).c_str(), leaked); }
    leaked = 0;
    mc::state();
}

static void sequences(int nk, bool full, size_t depth, size_t cap)
{
    auto al = ops(nk, full);
    for (size_t a = 0; a < al.size(); a++) for (size_t b = 0; b < al.size(); b++) {
        if (!mc::begin("pattern %d capacity %zu ops<=%zu over %d keys%s: %s..", pattern, cap, depth, nk, full ? " all" : "", show({al[a], al[b]}).c_str())) continue;
        if (b == 0) run({al[a]}, cap, nk);
        std::vector<Op> s = {al[a], al[b]};
        uint64_t ctr = 0;
        std::function<void()> rec = [&]() {
            mc::sub(ctr++);
            mc::trace(); run(s, cap, nk);
            if (s.size() == depth) return;
            for (auto &o : al) { s.push_back(o); rec(); s.pop_back(); }
        };
        rec();
    }
}

void mc_explore()
{
    for (pattern = 0; pattern < 9; pattern++)
        for (size_t cap : {(size_t)0, (size_t)1, (size_t)2, (size_t)4, (size_t)16, (size_t)64}) {
            bool deep = mc::thorough || ((pattern == 1 || pattern == 2) && (cap == 2 || cap == 4));
            sequences(2, true, mc::thorough ? 5 : 4, cap);
            sequences(3, false, mc::thorough ? 8 : deep ? 7 : 5, cap);
            /* fill, erase a subset, insert a subset, erase a subset: every triple of subsets of five keys */
            for (unsigned e = 0; e < 32; e++)
                if (mc::begin("pattern %d capacity %zu fill, erase %02x, insert *, erase *", pattern, cap, e))
                    for (unsigned i = 0; i < 32; i++) for (unsigned f = 0; f < 32; f += mc::thorough ? 1 : 3) {
                        std::vector<Op> s; mc::sub(i, f); mc::trace();
                        for (int k = 1; k <= 5; k++) s.push_back({'i', k});
                        for (int k = 1; k <= 5; k++) if (e >> (k-1) & 1) s.push_back({'e', k});
                        for (int k = 1; k <= 5; k++) if (i >> (k-1) & 1) s.push_back({(char)(k & 1 ? 'i' : 's'), k});
                        for (int k = 1; k <= 5; k++) if (f >> (k-1) & 1) s.push_back({'e', k});
                        run(s, cap, 5);
                    }
            /* growth: n keys in, every second out, all in again, for every n; then churn */
            std::vector<int> ns; for (int n = 1; n <= (mc::thorough ? 400 : 150); n += mc::thorough ? 1 : 7) ns.push_back(n);
            if (!cap && (pattern == 4 || pattern == 6)) for (int n : { 32768, 65535, 65536, 65537, 140000 }) ns.push_back(n);
            for (int n : ns)
                if (mc::begin("pattern %d capacity %zu growth to %d", pattern, cap, n)) {
                    Map m(cap ? cap : 16); Ref r;
                    for (int k = 1; k <= n; k++) { m.insert(Key(k), k); r[k] = k; }
                    compare(m, r, n + 2, "after filling");
                    for (int k = 1; k <= n; k += 2) { m.erase(Key(k)); r.erase(k); }
                    compare(m, r, n + 2, "after erasing odd keys");
                    for (int k = n; k >= 1; k--) { m[Key(k)] = k * 3; r[k] = k * 3; }
                    compare(m, r, n + 2, "after refilling");
                    for (int round = 0; round < 6; round++) for (int k = 1; k <= n; k += 3) { m.erase(Key(k)); r.erase(k); if (round < 5) { m.insert(Key(k), round); r[k] = round; } }
                    compare(m, r, n + 2, "after churn");
                    /* room of erased keys is used again: the same keys out and in, one at a time and all together */
                    size_t room = m.capacity();
                    for (int round = 0; round < 40; round++) for (int k = 1; k <= n; k += 1 + n / 5) { m.erase(Key(k)); if (round & 1) m.insert(Key(k), k * 3); else m[Key(k)] = k * 3; r[k] = k * 3; }
                    for (int round = 0; round < 5; round++) {
                        for (int k = 1; k <= n; k++) m.erase(Key(k));
                        for (auto &e : r) if (round & 1) m.insert(Key(e.first), e.second); else m[Key(e.first)] = e.second;
                    }
                    MC_CHECK(m.capacity() == room, "%d keys erased and inserted again and again: capacity %zu becomes %zu", n, room, (size_t)m.capacity());
                    compare(m, r, n + 2, "after erasing and inserting the same keys");
                    for (int k = 1; k <= n; k++) { m.erase(Key(k)); r.erase(k); }
                    compare(m, r, n + 2, "after erasing all");
                    mc::op(n * 6);
                }
        }
    /* filled, partly emptied and cleared over and over, a map does not grow */
    for (pattern = 0; pattern < 9; pattern++) for (size_t cap : { 1, 2, 16, 64 }) for (int n : { 1, 2, 5, 20 })
        if (mc::begin("pattern %d capacity %zu, %d keys filled and cleared", pattern, cap, n)) for (int e = 0; e <= n; e += 1 + n / 5) {
            mc::sub(e); mc::trace();
            Map m(cap); Ref r; size_t room = 0;
            for (int round = 0; round < 120; round++) {
                for (int k = 1; k <= n; k++) { m.insert(Key(k + round % 3), round); r[k + round % 3] = round; }
                for (int k = 1; k <= e; k++) { m.erase(Key(k + round % 3)); r.erase(k + round % 3); }
                compare(m, r, n + 4, "before clearing");
                m.clear(); r.clear();
                compare(m, r, n + 4, "after clearing");
                if (round == 2) room = m.capacity();
                if (round > 2) MC_CHECK(m.capacity() == room, "%d keys, %d of them erased, cleared again and again: capacity %zu becomes %zu", n, e, room, (size_t)m.capacity());
                mc::op(n + e + 1);
            }
        }
    /* maps with the same pairs are equal however they were built; with different pairs not */
    for (pattern = 0; pattern < 9; pattern++)
        for (unsigned a = 0; a < 16; a++)
            if (mc::begin("pattern %d equality of maps with pair set %x", pattern, a))
                for (unsigned b = 0; b < 16; b++) for (int shape = 0; shape < 4; shape++) {
                    mc::sub(b, shape);
                    Map x(2), y(shape & 1 ? 64 : 2);
                    for (int k = 1; k <= 4; k++) if (a >> (k-1) & 1) x.insert(Key(k), k);
                    for (int k = 4; k >= 1; k--) { if (shape & 2) { y.insert(Key(k), 9); y.erase(Key(k)); } if (b >> (k-1) & 1) y.insert(Key(k), k); }
                    MC_CHECK((x == y) == (a == b), "== of %x and %x is %d", a, b, (int)(x == y));
                    MC_CHECK((x != y) == (a != b), "!= of %x and %x is %d", a, b, (int)(x != y));
                    if (a == b && a) { y[Key(__builtin_ctz(a) + 1)] = 99; MC_CHECK(x != y, "maps with a different value compare equal"); }
                    mc::op(4); mc::state();
                }
}
