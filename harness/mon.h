// Monitor and random-number plumbing shared by the native drivers.
#ifndef MON_H
#define MON_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t a, uint64_t b = 0, uint64_t c = 0) : s(a * 0x9E3779B97F4A7C15ull ^ (b + 1) * 0xD1B54A32D192ED03ull ^ (c + 1) * 0x8CB92BA72F3D8DD7ull) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    size_t below(size_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below(b - a + 1); }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool p(double x) { return uni() < x; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Mon {
    FILE* out;
    std::map<std::string, long> counts;
    std::set<uint64_t> dist;
    int nsample, nviol, cur;
    std::string tier;
    Mon() : out(0), nsample(0), nviol(0), cur(-1) {}
    static std::string esc(const std::string& s)
    {
        std::string r;
        char b[8];
        for (size_t i = 0; i < s.size(); i++) {
            unsigned char c = s[i];
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r;
    }
    void count(const std::string& k, long n = 1) { counts[k] += n; }
    void distinct(const std::string& k)
    {
        uint64_t h = 1469598103934665603ull;
        for (size_t i = 0; i < k.size(); i++) h = (h ^ (unsigned char)k[i]) * 1099511628211ull;
        if (dist.insert(h).second) fprintf(out, "{\"t\":\"distinct\",\"k\":\"%016llx\"}\n", (unsigned long long)h);
    }
    void sample(const std::string& v)
    {
        if (nsample++ < 2) fprintf(out, "{\"t\":\"sample\",\"v\":\"%s\"}\n", esc(v.substr(0, 1500)).c_str());
    }
    void violate(const std::string& key, const std::string& detail)
    {
        if (++nviol > 200) return;
        fprintf(out, "{\"t\":\"viol\",\"case\":%d,\"key\":\"%s\",\"detail\":\"%s\"}\n", cur, esc(key).c_str(), esc(detail.substr(0, 4000)).c_str());
        fflush(out);
    }
    bool check(bool ok, const std::string& key, const std::string& detail)
    {
        counts["assertions"]++;
        if (!ok) violate(key, detail);
        return ok;
    }
    void flush()
    {
        for (std::map<std::string, long>::iterator i = counts.begin(); i != counts.end(); ++i)
            fprintf(out, "{\"t\":\"count\",\"k\":\"%s\",\"n\":%ld}\n", esc(i->first).c_str(), i->second);
        counts.clear();
    }
};

#define STR(x) (static_cast<std::ostringstream&>(std::ostringstream().flush() << x).str())

struct Mode {
    const char* name;
    void (*setup)(Mon&);
    void (*run)(int, Rng&, Mon&);
    void (*end)(Mon&);
};

inline int drive(int argc, char** argv, Mode* modes)
{
    if (argc < 7) return 3;
    uint64_t seed = strtoull(argv[2], 0, 10);
    Mon mon;
    mon.tier = argv[3];
    Mode* m = modes;
    while (m->name && strcmp(m->name, argv[1])) m++;
    if (!m->name) { fprintf(stderr, "unknown mode\n"); return 3; }
    std::vector<int> cases;
    {
        std::ifstream f(argv[4]);
        int c;
        while (f >> c) cases.push_back(c);
    }
    int pf = open(argv[5], O_WRONLY);
    mon.out = fopen(argv[6], "w");
    if (pf < 0 || !mon.out) return 3;
    uint64_t tag = 0;
    for (const char* q = argv[1]; *q; q++) tag = tag * 131 + *q;
    if (m->setup) m->setup(mon);
    int n = 0;
    for (size_t i = 0; i < cases.size(); i++) {
        char b[32];
        snprintf(b, sizeof b, "%-12d", cases[i]);
        if (pwrite(pf, b, 12, 0) != 12) return 3;
        fflush(mon.out);
        mon.cur = cases[i];
        Rng rng(seed, tag, cases[i]);
        m->run(cases[i], rng, mon);
        if (++n % 64 == 0) {
            fprintf(mon.out, "{\"t\":\"case\",\"n\":64}\n");
            mon.flush();
        }
    }
    fprintf(mon.out, "{\"t\":\"case\",\"n\":%d}\n", n % 64);
    if (m->end) m->end(mon);
    mon.flush();
    fprintf(mon.out, "{\"t\":\"end\"}\n");
    fclose(mon.out);
    return 0;
}
#endif
