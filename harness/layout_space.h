/* the space of C types whose layout is compared with the C compiler */
#pragma once
#include <cstdio>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>

namespace ly {

enum Kind { B, P, A, FLEX, Q, TD, E, S, U };
struct Ty;
typedef std::shared_ptr<Ty> T;
struct Mem { T t; std::string name; int bw = -1; };
struct Ty { Kind k; int b = 0; std::string name; long n = 0; T to; std::vector<Mem> m; };

inline T mk(Kind k, T to = nullptr, const std::string &name = "", long n = 0) { T t(new Ty); t->k = k; t->to = to; t->name = name; t->n = n; return t; }
inline T bt(int b, const char *name) { T t = mk(B, nullptr, name); t->b = b; return t; }
inline T rec(Kind k, std::vector<Mem> m) { T t = mk(k); t->m = m; return t; }

/* builtin numbers as the library defines them */
static const int b_void = 1, b_bool = 2, b_ubyte = 5, b_byte = 6, b_ushort = 7, b_short = 8, b_uint = 9, b_int = 10, b_ulong = 11, b_long = 12, b_ucent = 13, b_cent = 14, b_half = 15, b_float = 16, b_double = 17, b_quad = 18, b_chalf = 19, b_cfloat = 20, b_cdouble = 21, b_cquad = 22;

/* C declaration of "inner" with type t */
std::string decl(T t, const std::string &inner);
inline std::string body(T t)
{
    std::string s = "{";
    for (auto &m : t->m) s += " " + decl(m.t, m.name) + (m.bw >= 0 ? " : " + std::to_string(m.bw) : "") + ";";
    return s + " }";
}
inline std::string sp(const std::string &a, const std::string &b) { return b.empty() ? a : a + " " + b; }
inline std::string decl(T t, const std::string &inner)
{
    std::string in = !inner.empty() && inner[0] == '*' ? "(" + inner + ")" : inner;
    switch (t->k) {
    case B: case TD: return sp(t->name, inner);
    case E: return sp("enum " + t->name, inner);
    case P: return decl(t->to, "*" + inner);
    case A: return decl(t->to, in + "[" + std::to_string(t->n) + "]");
    case FLEX: return decl(t->to, in + "[]");
    case Q: return t->to->k == P ? decl(t->to->to, "* " + t->name + (inner.empty() ? "" : " ") + inner) : t->name + " " + decl(t->to, inner);
    case S: case U: return sp((t->k == S ? "struct " : "union ") + (t->name.empty() ? "" : t->name + " ") + body(t), inner);
    }
    return "";
}

struct Enum { const char *name, *body; int width; };
inline const std::vector<Enum> &enums()
{
    static const std::vector<Enum> v{
        { "e_small", "{ ea0, ea1 = 3 }", 32 }, { "e_neg", "{ eb0 = -1, eb1 }", 32 }, { "e_u32", "{ ec0 = 4294967295u }", 32 },
        { "e_u64", "{ ed0 = 1ull << 40 }", 64 }, { "e_s64", "{ ee0 = -1, ee1 = 1ll << 40 }", 64 }, { "e_top", "{ ef0 = 0x8000000000000000ull }", 64 },
    };
    return v;
}
inline T en(int i) { T t = mk(E, nullptr, enums()[i].name); t->b = enums()[i].width; return t; }

/* member types */
inline std::vector<T> leaves()
{
    std::vector<T> v{
        bt(b_byte, "char"), bt(b_short, "short"), bt(b_int, "int"), bt(b_long, "long"), bt(b_cent, "__int128"), bt(b_bool, "_Bool"), bt(b_double, "double"),
        mk(A, bt(b_byte, "char"), "", 3), bt(b_float, "float"), mk(P, bt(b_void, "void")), bt(b_quad, "long double"), bt(b_cfloat, "float _Complex"), en(0), mk(A, bt(b_short, "short"), "", 0),
        bt(b_ubyte, "unsigned char"), bt(b_ushort, "unsigned short"), bt(b_uint, "unsigned"), bt(b_ulong, "unsigned long"), bt(b_ucent, "unsigned __int128"),
        bt(b_long, "long long"), bt(b_byte, "signed char"), bt(b_half, "_Float16"), bt(b_quad, "__float128"), bt(b_cdouble, "double _Complex"), bt(b_cquad, "long double _Complex"), bt(b_chalf, "_Float16 _Complex"),
        en(1), en(2), en(3), en(4), en(5), mk(Q, bt(b_short, "short"), "const"), mk(Q, bt(b_long, "long"), "volatile"), mk(Q, mk(P, bt(b_byte, "char")), "restrict"),
    };
    return v;
}
/* bit-field and neighbouring members; name is filled in */
inline std::vector<Mem> bits(bool wide)
{
    std::vector<Mem> v;
    struct { int b; const char *n; std::vector<int> w, u; } k[] = {
        { b_bool, "_Bool", { 1 }, { 0 } }, { b_ubyte, "unsigned char", { 1, 5, 8 }, { 0, 3 } }, { b_ushort, "unsigned short", { 1, 9, 16 }, { 0, 11 } },
        { b_uint, "unsigned", { 1, 17, 32 }, { 0, 19 } }, { b_ulong, "unsigned long", { 1, 33, 64 }, { 0, 40 } } };
    for (auto &x : k) {
        for (int w : x.w) v.push_back({ bt(x.b, x.n), "m", w });
        for (int w : x.u) v.push_back({ bt(x.b, x.n), "", w });
    }
    v.push_back({ bt(b_int, "int"), "m", 7 });
    v.push_back({ en(0), "m", 2 });
    if (wide) {
        v.push_back({ bt(b_long, "long"), "m", 12 });
        v.push_back({ bt(b_byte, "signed char"), "m", 4 });
        v.push_back({ bt(b_bool, "_Bool"), "", 1 });
        v.push_back({ en(3), "m", 41 });
        v.push_back({ mk(TD, bt(b_ushort, "unsigned short"), "t_us"), "m", 3 });
        v.push_back({ mk(Q, bt(b_uint, "unsigned"), "const"), "m", 6 });
    }
    v.push_back({ bt(b_byte, "char"), "m" });
    v.push_back({ bt(b_short, "short"), "m" });
    v.push_back({ bt(b_int, "int"), "m" });
    v.push_back({ bt(b_long, "long"), "m" });
    v.push_back({ mk(A, bt(b_byte, "char"), "", 3), "m" });
    return v;
}

/* all records of the space, in order; names m0, m1, ... and inner members unique */
inline std::vector<T> space(bool thorough)
{
    std::vector<T> out;
    auto push = [&](T t) {
        for (size_t i = 0; i < t->m.size(); i++) if (!t->m[i].name.empty()) t->m[i].name = "m" + std::to_string(i);
        out.push_back(t);
    };
    auto M = [](T t) { Mem m; m.t = t; m.name = "m"; return m; };
    auto L = leaves();
    auto tds = [&](T t, int i) { return mk(TD, t, "t_l" + std::to_string(i)); };
    /* 1: single members, arrays of them, through typedefs */
    push(rec(S, {})); push(rec(U, {}));
    for (Kind k : { S, U }) for (size_t i = 0; i < L.size(); i++) {
        push(rec(k, { M(L[i]) }));
        push(rec(k, { M(tds(L[i], i)) }));
        push(rec(k, { M(mk(Q, tds(L[i], i), "const")) }));
        for (int n : { 0, 1, 2, 3, 7, 100000 }) push(rec(k, { M(mk(A, L[i], "", n)), M(L[0]) }));
        for (int n : { 1, 3 }) for (int o : { 0, 2, 5 }) { push(rec(k, { M(mk(A, mk(A, L[i], "", n), "", o)), M(L[0]) })); push(rec(k, { M(L[0]), M(mk(A, mk(TD, mk(A, L[i], "", n), "t_a" + std::to_string(i) + "_" + std::to_string(n)), "", o)) })); }
        push(rec(k, { M(mk(P, L[i])), M(mk(P, mk(P, mk(A, L[i], "", 4)))) }));
    }
    /* 2: pairs */
    for (Kind k : { S, U }) for (auto &a : L) for (auto &b : L) push(rec(k, { M(a), M(b) }));
    /* 3: triples, quadruples */
    size_t n3 = thorough ? L.size() : 14, n4 = thorough ? 12 : 6;
    for (size_t a = 0; a < n3; a++) for (size_t b = 0; b < n3; b++) for (size_t c = 0; c < n3; c++) push(rec(S, { M(L[a]), M(L[b]), M(L[c]) }));
    for (size_t a = 0; a < n4; a++) for (size_t b = 0; b < n4; b++) for (size_t c = 0; c < n4; c++) for (size_t d = 0; d < n4; d++) push(rec(S, { M(L[a]), M(L[b]), M(L[c]), M(L[d]) }));
    for (size_t a = 0; a < n4; a++) for (size_t b = 0; b < n4; b++) for (size_t c = 0; c < n4; c++) push(rec(U, { M(L[a]), M(L[b]), M(L[c]) }));
    /* 4: bit-fields */
    auto F = bits(true), N = bits(thorough);
    for (Kind k : { S, U }) { for (auto &a : F) push(rec(k, { a })); for (auto &a : F) for (auto &b : F) push(rec(k, { a, b })); }
    for (auto &a : N) for (auto &b : N) for (auto &c : N) push(rec(S, { a, b, c }));
    if (thorough) { auto X = bits(false); for (size_t a = 0; a < X.size(); a++) for (size_t b = 0; b < X.size(); b += 2) for (size_t c = 0; c < X.size(); c += 2) for (size_t d = 0; d < X.size(); d++) push(rec(S, { X[a], X[b], X[c], X[d] })); }
    /* 5: every width of every type after every width of char and long neighbours */
    struct { int b; const char *n; int w; } W[] = { { b_ubyte, "unsigned char", 8 }, { b_ushort, "unsigned short", 16 }, { b_uint, "unsigned", 32 }, { b_ulong, "unsigned long", 64 } };
    for (auto &x : W) for (int w = 0; w <= x.w; w++) for (auto &y : W) {
        T tx = bt(x.b, x.n), ty = bt(y.b, y.n);
        for (int u : { 1, y.w / 2, y.w - 1, y.w }) push(rec(S, { { tx, w ? "m" : "", w }, { ty, "m", u }, { tx, w ? "m" : "", w } }));
        push(rec(S, { { bt(b_ubyte, "unsigned char"), "m", 3 }, { tx, "", w }, { ty, "m", 1 } }));
    }
    /* 6: nested records: named, array, anonymous, typedef */
    int uid = 0, tid = 0;
    std::vector<T> R(L.begin(), L.begin() + 6);
    auto inner = [&](Kind k, std::vector<Mem> m) { T t = rec(k, m); for (size_t i = 0; i < t->m.size(); i++) if (!t->m[i].name.empty()) t->m[i].name = "i" + std::to_string(uid++); return t; };
    std::vector<std::vector<Mem>> in;
    in.push_back({});
    for (auto &a : R) { in.push_back({ M(a) }); for (auto &b : R) in.push_back({ M(a), M(b) }); }
    in.push_back({ { bt(b_uint, "unsigned"), "m", 3 } });
    in.push_back({ M(L[0]), { bt(b_ulong, "unsigned long"), "m", 20 } });
    in.push_back({ M(L[0]), { bt(b_ulong, "unsigned long"), "", 20 } });
    in.push_back({ { bt(b_ushort, "unsigned short"), "m", 9 }, { bt(b_uint, "unsigned"), "", 0 }, { bt(b_ubyte, "unsigned char"), "m", 3 } });
    std::vector<Mem> edge{ M(L[0]), M(L[2]), { bt(b_uint, "unsigned"), "m", 5 } };
    if (thorough) { edge.push_back(M(L[1])); edge.push_back(M(L[4])); edge.push_back({ bt(b_ulong, "unsigned long"), "m", 33 }); }
    for (Kind o : { S, U }) for (Kind k : { S, U }) for (auto &m : in) for (auto &a : edge) for (int form = 0; form < 5; form++) {
        if (o == U && !thorough && &a != &edge[0]) continue;
        T t = inner(k, m);
        Mem x = M(t);
        if (form == 1) x.t = mk(A, t, "", 2);
        if (form == 2) { x.name = ""; if (m.empty() || m[0].name.empty() || m[0].bw >= 0) continue; }
        if (form == 3) x.t = mk(Q, mk(A, t, "", 3), "const");
        if (form == 4) { t->name = "N" + std::to_string(tid++); }
        push(rec(o, { a, x }));
        for (auto &b : edge) { T t2 = inner(k, m); Mem y = x; y.t = form == 1 ? mk(A, t2, "", 2) : form == 3 ? mk(Q, mk(A, t2, "", 3), "const") : t2; if (form == 4) t2->name = "N" + std::to_string(tid++); push(rec(o, { a, y, b })); }
    }
    /* 7: three levels */
    for (int kk = 0; kk < 8; kk++) for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) for (int c = 0; c < 5; c++) for (int anon = 0; anon < (thorough ? 4 : 2); anon++) {
        T i2 = inner(kk & 1 ? U : S, { M(L[c]), M(L[0]) });
        T i1 = inner(kk & 2 ? U : S, { M(L[b]) });
        Mem x = M(i2); x.name = anon & 1 ? "" : "j" + std::to_string(uid++); i1->m.push_back(x);
        Mem y = M(i1); if (anon & 2) y.name = "";
        push(rec(kk & 4 ? U : S, { M(L[a]), y, M(L[0]) }));
    }
    /* 8: flexible arrays at the end */
    for (auto &a : R) for (auto &b : L) { push(rec(S, { M(a), M(mk(FLEX, b)) })); push(rec(S, { M(a), M(L[0]), M(mk(FLEX, mk(A, b, "", 3))) })); }
    for (auto &m : in) push(rec(S, { M(L[0]), M(mk(FLEX, inner(S, m))) }));
    /* 9: many members */
    for (int n : { 5, 8, 9, 31, 32, 33, 64, 65, 257, 1024, 5000, 66000 }) for (int s = 0; s < 5; s++) {
        if (n > 2000 && s > (n < 60000)) continue;     /* each bit-field costs an object of the record in the reference program */
        std::vector<Mem> m;
        for (int i = 0; i < n; i++) m.push_back(s < 2 ? M(L[(i * (s + 1) + s) % 8]) : s == 2 ? Mem{ bt(b_uint, "unsigned"), "m", 1 + i % 32 } : F[(i * (s + 2) + s) % F.size()]);
        push(rec(S, m));
    }
    /* 10: large arrays, of one dimension and of several */
    for (long n : { 255L, 256L, 257L, 65535L, 65536L, 65537L, (1L << 29) - 1, 1L << 29, (1L << 31) - 1, 1L << 31, (1L << 31) + 1, (1L << 32) - 1, 1L << 32, (1L << 32) + 1, (1L << 32) + 7, 3L << 33, 1L << 40, (1L << 48) + 5 }) for (int l : { 0, 1, 2, 3, 9, 12 }) for (Kind k : { S, U }) {
        push(rec(k, { M(mk(A, L[l], "", n)), M(L[0]) }));
        push(rec(k, { M(L[0]), M(mk(TD, mk(A, L[l], "", n), "t_big" + std::to_string(n) + "_" + std::to_string(l))), M(L[2]) }));
        push(rec(k, { M(L[2]), M(mk(A, inner(S, { M(L[l]), M(L[0]) }), "", n)) }));
        if (n <= 65537) push(rec(k, { M(mk(A, mk(A, L[l], "", 65536), "", n)), M(L[0]) }));
        if (n <= 65537) push(rec(k, { M(mk(A, mk(A, mk(A, L[l], "", n), "", 3), "", n)), M(L[0]) }));
    }
    return out;
}

} // namespace ly
