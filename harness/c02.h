// C02: values supplied by the caller of the C++ parser, also for several texts in a row and without a beamline.
#include <cmath>
namespace c02 {
typedef std::vector<double> dv;
inline bool eqd(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
struct V { int t; double n; dv v; std::string s; };
inline bool has(const Config& c, const std::string& k, const V& v)
{
    Config::value_t g;
    if (!c.tryGetAny(k, g) || g.which() != v.t) return false;
    if (v.t == 0) return eqd(boost::get<double>(g), v.n);
    if (v.t == 2) return boost::get<std::string>(g) == v.s;
    const dv& d = boost::get<dv>(g);
    if (d.size() != v.v.size()) return false;
    for (size_t i = 0; i < d.size(); i++)
        if (!eqd(d[i], v.v[i])) return false;
    return true;
}
inline V value(Rng& r)
{
    V v;
    v.t = r.below(3);
    v.n = r.p(0.1) ? 0.0 : (r.uni() - 0.5) * pow(10.0, r.uni(-30, 30));
    if (v.t == 1) for (size_t n = r.p(0.25) ? 0 : r.p(0.1) ? r.below(3000) : r.below(6); n--;) v.v.push_back(r.uni(-5, 5));
    if (v.t == 2) for (size_t n = r.below(12); n--;) v.s += (char)(r.p(0.9) ? r.range(32, 126) : r.range(1, 255));
    return v;
}
inline void run(int cs, Rng& r, Mon& mon)
{
    GLPSParser P;
    std::ostringstream msg;
    P.setPrinter(&msg);
    std::map<std::string, V> vars;
    std::string hist;
    for (int round = 0, nr = r.range(1, 4); round < nr; round++) {
        for (size_t n = r.below(4); n--;) {
            std::string nm = r.p(0.05) ? std::string("pi") : STR("v" << r.below(6));
            V v = value(r);
            if (v.t == 0) P.setVar(nm, v.n);
            else if (v.t == 1) P.setVar(nm, v.v);
            else P.setVar(nm, v.s);
            vars[nm] = v;
            hist += STR(nm << "=" << v.t << (v.t == 1 && v.v.empty() ? "e" : "") << " ");
            mon.count(STR("given:" << v.t));
        }
        // a text which hands every value on, and another which breaks a rule
        std::string txt;
        bool lat = r.p(0.7);
        std::map<std::string, V> want(vars), prop;
        for (std::map<std::string, V>::iterator i = vars.begin(); i != vars.end(); ++i) {
            if (r.p(0.6)) { txt += "c_" + i->first + " = " + i->first + ";\n"; want["c_" + i->first] = i->second; }
            if (i->second.t == 0 && r.p(0.6)) {
                txt += "d_" + i->first + " = " + i->first + "*2+1;\n";
                V w = i->second;
                w.n = w.n * 2 + 1;
                want["d_" + i->first] = w;
            }
        }
        // print() shows the line and the value
        std::vector<std::string> shown;
        for (std::map<std::string, V>::iterator i = vars.begin(); i != vars.end(); ++i) {
            if (!r.p(0.3) || (i->second.t == 2 && i->second.s.find('\n') != std::string::npos)) continue;
            for (size_t b = r.p(0.3) ? r.below(40) : 0; b--;) txt += "\n";
            txt += "print(" + i->first + ");\n";
            std::ostringstream o;
            o << "On line " << std::count(txt.begin(), txt.end(), '\n') << " : ";
            if (i->second.t == 0) o << i->second.n;
            else if (i->second.t == 2) o << '"' << i->second.s << '"';
            else {
                o << "[";
                for (size_t k = 0; k < i->second.v.size(); k++) o << i->second.v[k] << ", ";
                o << "]";
            }
            shown.push_back(o.str());
        }
        bool withpi = vars.count("pi") == 0 && r.p(0.3);
        if (withpi) { V w; w.t = 0; w.n = M_PI; txt += "mypi = pi;\n"; want["mypi"] = w; }
        std::string ev;
        if (lat) {
            txt += "E0: marker";
            for (std::map<std::string, V>::iterator i = vars.begin(); i != vars.end(); ++i)
                if (r.p(0.4)) { txt += ", p_" + i->first + " = " + i->first; prop["p_" + i->first] = i->second; }
            txt += ";\nL0: LINE = (E0);\n";
        }
        int bad = r.p(0.25) ? r.range(1, 2) : 0;
        if (bad == 1) { if (vars.empty()) bad = 0; else txt = vars.begin()->first + " = 3;\n" + txt; }
        else if (bad == 2) txt = "w = absent;\n" + txt;
        std::auto_ptr<Config> C;
        std::string err;
        size_t base = msg.str().size();
        bool threw = false, file = !lat || r.p(0.4);
        try {
            if (file) {
                FILE* f = tmpfile();
                if (!f) { fprintf(stderr, "no temporary file\n"); exit(3); }
                fwrite(txt.data(), 1, txt.size(), f);
                rewind(f);
                try { C.reset(P.parse_file(lat, f, 0)); } catch (...) { fclose(f); throw; }
                fclose(f);
            } else
                C.reset(r.p(0.5) ? P.parse_byte(txt.c_str(), txt.size()) : P.parse_byte(txt));
        } catch (std::exception& e) { threw = true; err = e.what(); }
        hist += STR((lat ? "L" : "l") << file << bad << " ");
        mon.count(bad ? "given-rejected" : "given-texts");
        if (bad) { mon.check(threw || !C.get(), "given:accepted", hist + "\n" + txt); continue; }
        if (!threw) {
            std::istringstream got(msg.str().substr(base));
            std::string l;
            size_t k = 0;
            bool same = true;
            while (std::getline(got, l)) {
                same = same && k < shown.size() && l == shown[k];
                k++;
            }
            mon.check(same && k == shown.size(), "given:printed", STR(msg.str().substr(base) << "\n" << hist << "\n" << txt));
            mon.count("printed", (long)shown.size());
        }
        if (!mon.check(!threw && C.get(), "given:rejected", STR(err << "\n" << msg.str() << "\n" << hist << "\n" << txt))) continue;
        size_t n = 0;
        for (Config::const_iterator i = C->begin(); i != C->end(); ++i) n++;
        mon.check(n == want.size() + (lat ? 2 : 0), "given:variables", STR(n << " of " << want.size() << "\n" << hist << "\n" << txt));
        for (std::map<std::string, V>::iterator i = want.begin(); i != want.end(); ++i) {
            mon.count("given-values");
            if (!mon.check(has(*C, i->first, i->second), "given:value", i->first + "\n" + hist + "\n" + txt)) break;
        }
        if (lat) {
            const Config::vector_t& es = C->get<Config::vector_t>("elements");
            if (mon.check(es.size() == 1, "given:elements", hist))
                for (std::map<std::string, V>::iterator i = prop.begin(); i != prop.end(); ++i)
                    mon.check(has(es[0], i->first, i->second), "given:property", i->first + "\n" + hist + "\n" + txt);
        }
        mon.sample(txt);
    }
    mon.distinct(hist);
}
}
