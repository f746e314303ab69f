/* P15: the identifier registry, against the published data file */
#include <crefl/model.h>
#include <crefl/oid.h>
#include "mc.h"

static std::map<std::string, std::set<std::string>> ref;

static void load()
{
    std::string path = std::string(mc::repo) + "/data/oids.txt";
    FILE *f = fopen(path.c_str(), "r"); if (!f) { perror(path.c_str()); _exit(98); }
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        char *eq = strchr(line, '='); if (!eq || strncmp(line, "OBJ_", 4)) continue;
        std::string name(line + 4, eq), oct;
        for (char *p = eq; (p = strstr(p, "\\x")); p += 2) oct += (char)strtoul(std::string(p + 2, 2).c_str(), nullptr, 16);
        ref[oct].insert(name);
    }
    fclose(f);
}

static void look(const std::string &k)
{
    static std::vector<char*> mem;
    while (mem.size() <= k.size()) mem.push_back((char*)malloc(mem.size()));
    if (k.size()) memcpy(mem[k.size()], k.data(), k.size());
    const char *d = crefl_asn1_oid_desc(mem[k.size()], k.size());
    mc::op(); mc::state();
    auto it = ref.find(k);
    bool found = d && *d;
    if (it == ref.end()) { if (found) mc::fail("%s is not registered but described as %s", mc::hex(k.data(), k.size()).c_str(), d); }
    else if (!found) mc::fail("%s (%s) is registered but not described", mc::hex(k.data(), k.size()).c_str(), it->second.begin()->c_str());
    else if (!it->second.count(d)) mc::fail("%s described as %s, registered as %s", mc::hex(k.data(), k.size()).c_str(), d, it->second.begin()->c_str());
}

void mc_explore()
{
    load();
    std::vector<std::string> keys; for (auto &r : ref) keys.push_back(r.first);
    if (mc::begin("registry data")) { if (keys.size() < 1000) mc::fail("only %zu entries in the data file", keys.size()); }
    if (mc::begin("all in order")) for (auto &k : keys) look(k);
    if (mc::begin("all in reverse, twice")) for (size_t i = keys.size(); i-- > 0;) { look(keys[i]); look(keys[i]); }
    for (size_t i = 0; i < keys.size(); i++) {
        if (!mc::begin("near %s", mc::hex(keys[i].data(), keys[i].size()).c_str())) continue;
        const std::string &k = keys[i];
        for (size_t n = 0; n <= k.size(); n++) look(k.substr(0, n));
        for (size_t n = 1; n <= k.size(); n++) look(k.substr(n));
        for (size_t p = 0; p <= k.size(); p++) {
            if (p < k.size()) look(k.substr(0, p) + k.substr(p + 1));
            for (int c = 0; c < 256; c++) {
                mc::sub(p, c);
                if (p < k.size()) { std::string t = k; t[p] = (char)c; look(t); }
                std::string t = k; t.insert(t.begin() + p, (char)c); look(t);
            }
            if (p + 1 < k.size()) { std::string t = k; std::swap(t[p], t[p + 1]); look(t); }
        }
        look(k + k); look(k + std::string(1, 0)); look(k + std::string(8, 0)); look(k + std::string(20, 0)); look(k);
    }
    if (mc::begin("short strings")) {
        look("");
        for (int a = 0; a < 256; a++) { look(std::string(1, (char)a)); for (int b = 0; b < 256; b++) { char s[2] = { (char)a, (char)b }; look(std::string(s, 2)); } }
    }
    for (int a = 0; a < 256; a++) {
        if (!mc::thorough && ref.lower_bound(std::string(1, (char)a)) == ref.end()) continue;
        if (!mc::begin("three octets, first %02x", a)) continue;
        for (int b = 0; b < 256; b++) for (int c = 0; c < 256; c++) { if (!mc::thorough && c % 3 && b > 9) continue; char s[3] = { (char)a, (char)b, (char)c }; mc::sub(b, c); look(std::string(s, 3)); }
    }
    /* every registered identifier right after every eighth other */
    for (size_t j = 0; j < keys.size(); j += mc::thorough ? 1 : 32) {
        if (!mc::begin("after %s", mc::hex(keys[j].data(), keys[j].size()).c_str())) continue;
        for (auto &k : keys) { look(keys[j]); look(k); }
    }
    if (mc::begin("long strings")) for (size_t n = 15; n < 300; n++) for (int c : { 0, 0x2a, 0xff }) look(std::string(n, (char)c));
}
