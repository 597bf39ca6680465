// C21: numeric tables and their cache.
#include "flame/util.h"
#include <sys/stat.h>
#include <sys/time.h>
#include <boost/shared_ptr.hpp>
#include <math.h>
namespace c21 {
struct Tab {
    std::vector<std::vector<double> > rows;
    std::map<std::string, size_t> cols;
    std::string text;
    bool bad;
    Tab() : bad(false) {}
};

inline std::string number(Rng& r, double& v)
{
    char b[64];
    int k = r.below(12);
    double x = r.uni(-10, 10);
    if (k < 4) snprintf(b, sizeof b, "%.17g", x * pow(10, r.range(-30, 30)));
    else if (k == 4) snprintf(b, sizeof b, "%ld", r.range(-1000000, 1000000));
    else if (k == 5) snprintf(b, sizeof b, "%.3f", x);
    else if (k == 6) snprintf(b, sizeof b, "%+.6E", x);
    else if (k == 7) snprintf(b, sizeof b, "%.2e", x);
    else if (k == 8) snprintf(b, sizeof b, "%s", r.p(0.5) ? "0" : "-0.0");
    else if (k == 9) snprintf(b, sizeof b, ".%ld", r.range(0, 9999));
    else if (k == 10) snprintf(b, sizeof b, "%ld.", r.range(0, 9999));
    else snprintf(b, sizeof b, "%.16fe%ld", x, r.range(-280, 280));
    v = strtod(b, 0);
    return b;
}

inline std::string blanks(Rng& r, bool some)
{
    std::string s;
    static const char* W[] = {" ", "\t", "  ", " \t", "\t\t ", "      "};
    if (some) s = W[r.below(6)];
    if (r.p(0.2)) s += W[r.below(6)];
    return s;
}

inline Tab table(Rng& r, bool bad)
{
    Tab t;
    std::string eol = r.p(0.6) ? "\n" : "\r\n";
    size_t nr = r.p(0.06) ? 0 : (r.p(0.05) ? r.range(50, 300) : r.range(1, 8));
    size_t nc = r.range(1, r.p(0.1) ? 40 : 6);
    bool hdr = r.p(0.5), mid = hdr && r.p(0.2);
    if (bad && nr < 2) nr = r.range(2, 6);
    size_t badrow = bad ? r.below(nr) : nr;
    int badkind = r.below(4);
    for (size_t i = 0; i <= nr; i++) {
        while (r.p(0.12)) t.text += (r.p(0.5) ? blanks(r, true) : "") + eol;
        if (hdr && (i == 0 || (mid && r.p(0.3)))) {
            t.text += "%";
            t.cols.clear();
            size_t n = r.p(0.8) ? nc : r.below(nc + 3);
            for (size_t c = 0; c < n; c++) {
                t.text += blanks(r, c > 0 || r.p(0.5));
                std::string nm = STR((char)('a' + r.below(26)) << "c" << c << (r.p(0.2) ? "_[m]" : ""));
                t.text += nm;
                t.cols[nm] = c;
            }
            if (r.p(0.2)) t.text += blanks(r, true);
            t.text += eol;
        }
        if (i == nr) break;
        std::vector<double> row;
        std::string line = r.p(0.25) ? blanks(r, true) : "";
        size_t n = nc;
        if (i == badrow && badkind == 0) n = nc + 1;
        if (i == badrow && badkind == 1) { if (nc > 1) n = nc - 1; else n = nc + 2; }
        size_t badcol = r.p(0.5) ? n - 1 : r.below(n);
        for (size_t c = 0; c < n; c++) {
            double v;
            if (c) line += blanks(r, true);
            std::string x = number(r, v);
            if (i == badrow && badkind >= 2 && c == badcol) {
                static const char* B[] = {"abc", "1.5x", "--3", "1e", "nan", "inf", "1,5", "0x1g", "1e999", "-", "'2'", "1;", "#"};
                x = B[r.below(13)];
            }
            line += x;
            row.push_back(v);
        }
        if (r.p(0.2)) line += blanks(r, true);
        t.text += line;
        if (i + 1 < nr || r.p(0.8)) t.text += eol;
        else { t.rows.push_back(row); break; }
        t.rows.push_back(row);
    }
    t.bad = bad;
    return t;
}

inline std::string differ(const numeric_table& n, const Tab& t, bool names = true)
{
    size_t nr = t.rows.size(), nc = nr ? t.rows[0].size() : 0;
    if (n.table.size1() != nr || (nr && n.table.size2() != nc))
        return STR("shape " << n.table.size1() << "x" << n.table.size2() << " expected " << nr << "x" << nc);
    for (size_t i = 0; i < nr; i++)
        for (size_t j = 0; j < nc; j++) {
            double a = n.table(i, j), b = t.rows[i][j];
            if (memcmp(&a, &b, sizeof a) != 0) { std::ostringstream s; s.precision(17); s << "row " << i << " col " << j << " is " << a << " expected " << b; return s.str(); }
        }
    if (names && n.colnames != t.cols) {
        std::string s = "columns";
        for (numeric_table::colnames_t::const_iterator i = n.colnames.begin(); i != n.colnames.end(); ++i) s += STR(" " << i->first << "=" << i->second);
        return s;
    }
    return "";
}

inline void put(const std::string& p, const std::string& text, time_t mt, bool viarename)
{
    std::string q = viarename ? p + ".new" : p;
    FILE* f = fopen(q.c_str(), "wb");
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
    struct timeval tv[2] = {{mt, 0}, {mt, 0}};
    utimes(q.c_str(), tv);
    if (viarename) rename(q.c_str(), p.c_str());
}

inline void reads(Rng& r, Mon& mon)
{
    numeric_table n;
    Tab prev;
    bool have = false;
    int k = r.range(1, 4);
    for (int i = 0; i < k; i++) {
        bool bad = r.p(0.3);
        Tab t = table(r, bad);
        std::istringstream s(t.text);
        bool threw = false;
        std::string what;
        try { n.read(s); } catch (std::runtime_error& e) { threw = true; what = e.what(); }
        mon.distinct(t.text.substr(0, 60));
        if (bad) {
            mon.count("rejected");
            mon.check(threw, "bad-table-accepted", threw ? "" : STR("accepted: " << t.text));
            if (have) {
                std::string d = differ(n, prev, false);
                mon.check(d.empty(), "refused-read-changed-table", d);
            }
        } else {
            mon.count("reads");
            mon.count("numbers", t.rows.size() * (t.rows.empty() ? 0 : t.rows[0].size()));
            if (!mon.check(!threw, "table-rejected", what + " for " + (threw ? t.text : ""))) continue;
            // a table object read again keeps the column names of the last header
            std::string d = differ(n, t, i == 0 || !t.cols.empty());
            mon.check(d.empty(), "table-differs", d.empty() ? "" : d + " of " + t.text);
            prev = t;
            have = true;
            mon.sample(t.text);
        }
    }
    // rows out of a flat vector
    size_t nc = r.range(1, 7), nr = r.range(0, 9), extra = r.p(0.3) ? r.below(nc) : 0;
    std::vector<double> v;
    Tab t;
    for (size_t i = 0; i < nr; i++) {
        t.rows.push_back(std::vector<double>());
        for (size_t j = 0; j < nc; j++) { v.push_back(r.uni(-5, 5)); t.rows.back().push_back(v.back()); }
    }
    for (size_t i = 0; i < extra; i++) v.push_back(1);
    numeric_table m;
    bool threw = false;
    try { m.readvec(v, nc); } catch (std::runtime_error&) { threw = true; }
    mon.count("flat");
    if (extra) mon.check(threw, "incomplete-row-accepted", "");
    else {
        std::string d = threw ? "rejected" : differ(m, t);
        mon.check(d.empty(), "flat-table-differs", d);
    }
}

struct Held { numeric_table_cache::table_pointer p; Tab t; };

inline void history(Rng& r, Mon& mon, const std::string& dir, int cs)
{
    numeric_table_cache own;
    numeric_table_cache& c = r.p(0.5) ? own : *numeric_table_cache::get();
    const bool wide = r.p(0.06);        // many files in use at once
    const int NF = wide ? r.range(12, 70) : 3;
    std::vector<Tab> cur(NF);
    std::vector<char> exists(NF), fresh(NF);
    std::vector<numeric_table_cache::table_pointer> last(NF);   // pointer fetched since the last change
    std::vector<time_t> mt(NF);
    std::vector<std::string> path(NF);
    std::string hist;
    for (int i = 0; i < NF; i++) {
        path[i] = STR(dir << "/t" << cs << "_" << i << ".dat");
        exists[i] = fresh[i] = false;
        mt[i] = 1000000000 + r.below(100000);
    }
    std::vector<Held> held;
    if (wide) mon.count("wide-histories");
    int n = wide ? r.range(5, 9) * NF : r.range(10, 40);
    for (int s = 0; s < n; s++) {
        int f = r.below(NF), k = r.below(10);
        // every file once, first in order; a clear now and then
        if (wide) { if (s < 2 * NF) { f = s % NF; k = 5; } else if (k == 8 && !r.p(0.2)) k = 5; else if (k < 3 && r.p(0.6)) k = 5; }
        if (k < 3 || !exists[f]) {
            bool bad = r.p(0.12);
            cur[f] = table(r, bad);
            time_t d = r.p(0.7) ? r.range(1, 5) : -r.range(1, 500000);
            mt[f] += d;
            bool rn = exists[f] && r.p(0.4);
            put(path[f], cur[f].text, mt[f], rn);
            exists[f] = true;
            fresh[f] = false;
            last[f].reset();
            hist += STR((bad ? "B" : "W") << f << (d > 0 ? "+" : "-") << (rn ? "r" : ""));
        } else if (k < 8) {
            numeric_table_cache::table_pointer p;
            bool threw = false;
            try { p = c.fetch(path[f]); } catch (std::runtime_error&) { threw = true; }
            hist += STR("F" << f);
            mon.count("fetches");
            if (cur[f].bad) {
                mon.count("bad-fetches");
                mon.check(threw, "bad-file-served", threw ? "" : hist);
                continue;
            }
            if (!mon.check(!threw && p, "fetch-failed", hist)) continue;
            std::string d = differ(*p, cur[f]);
            mon.check(d.empty(), "fetched-table-differs", d.empty() ? "" : d + " after " + hist);
            if (fresh[f]) {
                mon.count("same-object");
                mon.check(p == last[f], "not-the-same-object", STR("file " << f << " after " << hist));
            }
            for (size_t h = 0; h < held.size(); h++)
                if (!fresh[f] && held[h].p == p) mon.violate("old-object-reused", hist);
            if (!fresh[f]) { Held h; h.p = p; h.t = cur[f]; held.push_back(h); mon.count("new-objects"); }
            last[f] = p;
            fresh[f] = true;
        } else if (k == 8) {
            if (r.p(0.5)) {
                c.clear();
                hist += "C";
                mon.count("clears");
                for (int i = 0; i < NF; i++) { fresh[i] = false; last[i].reset(); }
            } else {
                unlink(path[f].c_str());
                exists[f] = false;
                fresh[f] = false;
                hist += STR("U" << f);
                bool threw = false;
                try { c.fetch(path[f]); } catch (std::exception&) { threw = true; }
                mon.count("missing");
                mon.check(threw, "missing-file-served", hist);
            }
        } else {
            bool threw = false;
            try { c.fetch(r.p(0.5) ? STR("t" << cs << "_0.dat") : (r.p(0.5) ? dir : std::string("")));
            } catch (std::exception&) { threw = true; }
            mon.count("bad-paths");
            mon.check(threw, "bad-path-served", hist);
        }
        for (size_t h = 0; h < held.size(); h++) {
            std::string d = differ(*held[h].p, held[h].t);
            if (!mon.check(d.empty(), "held-table-changed", d.empty() ? "" : d + " after " + hist)) return;
        }
        if (held.size() > (wide ? 150 : 6)) held.erase(held.begin(), held.begin() + 3);
    }
    mon.distinct(hist);
    mon.count("histories");
    mon.sample("history " + hist);
    for (int i = 0; i < NF; i++) unlink(path[i].c_str());
    numeric_table_cache::get()->clear();
}

static std::string DIR_;
inline void setup(Mon&)
{
    char b[4096];
    const char* s = getenv("VERIF_SCRATCH");
    DIR_ = s ? s : (getcwd(b, sizeof b) ? b : "/tmp");
}
inline void run(int cs, Rng& r, Mon& mon)
{
    size_t h0 = heap();
    {
        if (r.p(0.6)) reads(r, mon);
        else history(r, mon, DIR_, cs);
    }
    (void)h0;
}
}
