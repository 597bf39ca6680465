// C05: histories of operations on Config objects against a map model.
#include "flame/config.h"
#include "flame/util.h"

namespace c05 {
typedef std::vector<double> dv;
struct Obj;
typedef std::map<std::string, struct Val> Map;
struct Val {
    int t;              // 0 number 1 vector 2 string 3 configs
    double n;
    dv v;
    std::string s;
    std::vector<Obj> c;
    Val() : t(0), n(0) {}
};
// what a Config means: own definitions, inherited definitions
struct Obj {
    Map own, inh;
};
bool eqv(const Val& a, const Config::value_t& b);
const Val* look(const Obj& o, const std::string& k)
{
    Map::const_iterator i = o.own.find(k);
    if (i != o.own.end()) return &i->second;
    i = o.inh.find(k);
    return i != o.inh.end() ? &i->second : 0;
}
bool eqd(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static const char* NAMES[] = {"a", "b", "c", "ab", "name", "type", "", "L", "x y", "elements"};
enum { NN = sizeof(NAMES) / sizeof(NAMES[0]) };
static int WIDE = 0;            // this many more names in some cases
std::string diff(const Obj& m, const Config& c, int typed = 0)
{
    for (int k = 0; k < WIDE; k++) {
        std::string nm = STR("n" << k);
        const Val* w = look(m, nm);
        Config::value_t g;
        if (c.tryGetAny(nm, g) != (w != 0)) return STR("tryGetAny " << nm);
        if (w && !eqv(*w, g)) return STR("tryGetAny value " << nm);
        if (w && !eqv(*w, c.getAny(nm))) return STR("getAny value " << nm);
        double d = c.get<double>(nm, -77.5);
        if (!eqd(d, w && w->t == 0 ? w->n : -77.5)) return STR("get<double> with default " << nm);
    }
    // iteration shows exactly the own definitions, in name order
    Map::const_iterator i = m.own.begin();
    for (Config::const_iterator j = c.begin(); j != c.end(); ++j, ++i) {
        if (i == m.own.end()) return "iteration has extra '" + j->first + "'";
        if (i->first != j->first) return "iteration has '" + j->first + "' instead of '" + i->first + "'";
        if (!eqv(i->second, j->second)) return "iteration: wrong value of '" + i->first + "'";
    }
    if (i != m.own.end()) return "iteration lacks '" + i->first + "'";
    for (int k = 0; k < NN; k++) {
        const Val* w = look(m, NAMES[k]);
        Config::value_t g;
        if (c.tryGetAny(NAMES[k], g) != (w != 0)) return STR("tryGetAny " << NAMES[k]);
        if (w && !eqv(*w, g)) return STR("tryGetAny value " << NAMES[k]);
        if (!((typed >> k) & 1)) continue;
        try {
            const Config::value_t& r = c.getAny(NAMES[k]);
            if (!w) return STR("getAny found the absent " << NAMES[k]);
            if (!eqv(*w, r)) return STR("getAny value " << NAMES[k]);
        } catch (key_error&) {
            if (w) return STR("getAny misses " << NAMES[k]);
        }
        // typed access
        try {
            double d = c.get<double>(NAMES[k]);
            if (!w || w->t != 0 || !eqd(d, w->n)) return STR("get<double> " << NAMES[k]);
        } catch (key_error&) {
            if (w && w->t == 0) return STR("get<double> misses " << NAMES[k]);
        }
        try {
            const dv& d = c.get<dv>(NAMES[k]);
            if (!w || w->t != 1 || d != w->v) return STR("get<vector> " << NAMES[k]);
        } catch (key_error&) {
            if (w && w->t == 1) return STR("get<vector> misses " << NAMES[k]);
        }
        try {
            const std::string& d = c.get<std::string>(NAMES[k]);
            if (!w || w->t != 2 || d != w->s) return STR("get<string> " << NAMES[k]);
        } catch (key_error&) {
            if (w && w->t == 2) return STR("get<string> misses " << NAMES[k]);
        }
        try {
            const Config::vector_t& d = c.get<Config::vector_t>(NAMES[k]);
            if (!w || w->t != 3 || d.size() != w->c.size()) return STR("get<configs> " << NAMES[k]);
        } catch (key_error&) {
            if (w && w->t == 3) return STR("get<configs> misses " << NAMES[k]);
        }
        double dd = c.get<double>(NAMES[k], -77.5);
        if (!eqd(dd, w && w->t == 0 ? w->n : -77.5)) return STR("get<double> with default " << NAMES[k]);
        std::string ds = c.get<std::string>(NAMES[k], "def");
        if (ds != (w && w->t == 2 ? w->s : "def")) return STR("get<string> with default " << NAMES[k]);
        dv dflt(2, 5.0), dg = c.get<dv>(NAMES[k], dflt);
        if (dg != (w && w->t == 1 ? w->v : dflt)) return STR("get<vector> with default " << NAMES[k]);
        double td = 4.5;
        if (c.tryGet<double>(NAMES[k], td) != (w && w->t == 0) || !eqd(td, w && w->t == 0 ? w->n : 4.5)) return STR("tryGet<double> " << NAMES[k]);
        std::string ts = "keep";
        if (c.tryGet<std::string>(NAMES[k], ts) != (w && w->t == 2) || ts != (w && w->t == 2 ? w->s : "keep")) return STR("tryGet<string> " << NAMES[k]);
        dv tv(1, 9.0);
        if (c.tryGet<dv>(NAMES[k], tv) != (w && w->t == 1) || tv != (w && w->t == 1 ? w->v : dv(1, 9.0))) return STR("tryGet<vector> " << NAMES[k]);
        Config::vector_t tc;
        if (c.tryGet<Config::vector_t>(NAMES[k], tc) != (w && w->t == 3)) return STR("tryGet<configs> " << NAMES[k]);
        if (w && w->t == 3 && tc.size() != w->c.size()) return STR("tryGet<configs> size " << NAMES[k]);
    }
    return "";
}
bool eqv(const Val& a, const Config::value_t& b)
{
    if (a.t != b.which()) return false;
    switch (a.t) {
    case 0: return eqd(a.n, boost::get<double>(b));
    case 1: return a.v == boost::get<dv>(b);
    case 2: return a.s == boost::get<std::string>(b);
    default: {
        const Config::vector_t& c = boost::get<Config::vector_t>(b);
        if (c.size() != a.c.size()) return false;
        for (size_t i = 0; i < c.size(); i++)
            if (!diff(a.c[i], c[i]).empty()) return false;
        return true;
    }
    }
}
struct Live {
    Obj m;
    Config c;
};
Val number(double x) { Val v; v.t = 0; v.n = x; return v; }

Config::value_t real(const Val& v, const std::vector<Config>& cs)
{
    switch (v.t) {
    case 0: return v.n;
    case 1: return v.v;
    case 2: return v.s;
    default: return cs;
    }
}
// a random value together with its model
Val value(Rng& r, const std::vector<Live*>& live, std::vector<Config>& cs)
{
    Val v;
    double x = r.uni();
    if (x < 0.35) { v.t = 0; v.n = r.p(0.1) ? -0.0 : r.uni(-1e6, 1e6); }
    else if (x < 0.6) { v.t = 1; for (size_t n = r.below(4); n--;) v.v.push_back(r.uni(-5, 5)); }
    else if (x < 0.85) { v.t = 2; for (size_t n = r.below(5); n--;) v.s += "ab \"0;"[r.below(6)]; }
    else {
        v.t = 3;
        for (size_t n = r.below(3); n--;) {
            Live* l = r.pick(live);
            if (l->m.own.size() + l->m.inh.size() > 12) continue;
            bool deep = false;
            for (Map::iterator i = l->m.own.begin(); i != l->m.own.end(); ++i) deep |= i->second.t == 3;
            for (Map::iterator i = l->m.inh.begin(); i != l->m.inh.end(); ++i) deep |= i->second.t == 3;
            if (deep && !r.p(0.1)) continue;
            cs.push_back(l->c);
            v.c.push_back(l->m);
        }
    }
    return v;
}
long depth(const Val& v, int d = 0)
{
    long n = 1;
    if (v.t == 3)
        for (size_t i = 0; i < v.c.size(); i++) {
            for (Map::const_iterator j = v.c[i].own.begin(); j != v.c[i].own.end(); ++j) n += depth(j->second, d + 1);
            for (Map::const_iterator j = v.c[i].inh.begin(); j != v.c[i].inh.end(); ++j) n += depth(j->second, d + 1);
        }
    return n;
}
void run(int, Rng& r, Mon& mon)
{
    std::vector<Live*> live;
    live.push_back(new Live);
    std::string hist;
    WIDE = r.p(0.04) ? r.range(20, 150) : 0;
    if (WIDE) mon.count("wide");
    int N = r.range(5, 40);
    for (int step = 0; step < N; step++) {
        size_t k = r.below(live.size());
        Live& l = *live[k];
        std::string nm = NAMES[r.below(NN)];
        double x = r.uni();
        std::string op;
        if (WIDE && r.p(0.15)) {
            int a = r.below(WIDE), b = r.range(1, WIDE);
            for (int q = 0; q < b; q++) {
                std::string m = STR("n" << (a + q) % WIDE);
                Val v = number(r.uni(-1e6, 1e6));
                l.c.set<double>(m, v.n);
                l.m.own[m] = v;
            }
            op = "bulk";
        } else if (x < 0.22) {
            std::vector<Config> cs;
            Val v = value(r, live, cs);
            if (depth(v) > 60) continue;
            switch (r.below(2) ? v.t : 9) {
            case 0: l.c.set<double>(nm, v.n); break;
            case 1: l.c.set<dv>(nm, v.v); break;
            case 2: l.c.set<std::string>(nm, v.s); break;
            case 3: l.c.set<Config::vector_t>(nm, cs); break;
            default: l.c.setAny(nm, real(v, cs));
            }
            l.m.own[nm] = v;
            op = STR("set" << v.t);
        } else if (x < 0.32) {
            // swapAny: the old own value comes back; nothing comes back on insertion but some value of no meaning
            std::vector<Config> cs;
            Val v = value(r, live, cs);
            if (depth(v) > 60) continue;
            Config::value_t rv = real(v, cs);
            l.c.swapAny(nm, rv);
            Map::iterator i = l.m.own.find(nm);
            if (i != l.m.own.end()) mon.check(eqv(i->second, rv), "swapAny-old", hist + " swapAny " + nm);
            l.m.own[nm] = v;
            op = "swapAny";
        } else if (x < 0.40) {
            // typed swap: the value goes in
            std::vector<Config> cs;
            Val v = value(r, live, cs);
            if (depth(v) > 60 || v.t == 0) continue;
            if (v.t == 1) { dv t(v.v); l.c.swap<dv>(nm, t); }
            else if (v.t == 2) { std::string t(v.s); l.c.swap<std::string>(nm, t); }
            else { Config::vector_t t(cs); l.c.swap<Config::vector_t>(nm, t); }
            l.m.own[nm] = v;
            op = "swapT";
        } else if (x < 0.52) {
            Live* n = new Live(l);
            live.push_back(n);
            op = "copy";
        } else if (x < 0.60) {
            size_t j = r.below(live.size());
            live[j]->c = l.c;
            if (j != k) live[j]->m = l.m;
            op = STR("assign" << (j == k));
        } else if (x < 0.66) {
            size_t j = r.below(live.size());
            live[j]->c.swap(l.c);
            if (j != k) std::swap(live[j]->m, l.m);
            op = STR("swap" << (j == k));
        } else if (x < 0.76) {
            Live* n = new Live;
            n->c = l.c.new_scope();
            n->m.inh = l.m.own;
            n->m.inh.insert(l.m.inh.begin(), l.m.inh.end());
            live.push_back(n);
            op = "newscope";
        } else if (x < 0.84) {
            l.c.push_scope();
            Map all(l.m.own);
            all.insert(l.m.inh.begin(), l.m.inh.end());
            l.m.inh.swap(all);
            l.m.own.clear();
            op = "push";
        } else if (x < 0.92) {
            l.c.flatten();
            l.m.own.insert(l.m.inh.begin(), l.m.inh.end());
            l.m.inh.clear();
            op = "flatten";
        } else if (x < 0.96 && live.size() > 1) {
            delete live[k];
            live.erase(live.begin() + k);
            op = "delete";
        } else {
            // a configuration placed in another, then changed: the placed one stays
            Config::value_t g;
            if (l.c.tryGetAny(nm, g) && g.which() == 3) {
                Config::vector_t v = boost::get<Config::vector_t>(g);
                for (size_t i = 0; i < v.size(); i++) { v[i].set<double>("a", 1234.5); v[i].flatten(); }
                op = "edit-copy-of-value";
            } else
                continue;
        }
        hist += STR(op << k << "/" << nm << " ");
        mon.count("op:" + op);
        for (size_t j = 0; j < live.size(); j++) {
            std::string d = diff(live[j]->m, live[j]->c, j == k ? 1 << r.below(NN) | 1 << r.below(NN) : r.p(0.3) ? 1 << r.below(NN) : 0);
            mon.count("objects-compared");
            if (!mon.check(d.empty(), "differs-after-" + op, d.empty() ? "" : STR("object " << j << ": " << d << "\n" << hist))) {
                step = N;
                break;
            }
        }
        if (live.size() > 8) { delete live[0]; live.erase(live.begin()); }
    }
    mon.distinct(hist);
    mon.sample(hist);
    for (size_t j = 0; j < live.size(); j++) delete live[j];
}
}
