// C12 / C06: observers, trace stream and lookups through the C++ interface.
#include <dirent.h>
#include <algorithm>
#include "flame/base.h"
#include "flame/config.h"

namespace c12 {
std::vector<std::string> lats;
std::string PREP;

std::string dump(const StateBase* cs, bool next = true)
{
    StateBase* s = const_cast<StateBase*>(cs);
    std::string r;
    for (unsigned i = 0;; i++) {
        StateBase::ArrayInfo I;
        if (!s->getArray(i, I)) break;
        if (!next && !strcmp(I.name, "next_elem")) continue;
        r += I.name;
        size_t d[3] = {1, 1, 1}, x[3];
        for (unsigned k = 0; k < I.ndim; k++) { d[k] = I.dim[k]; r += STR(',' << d[k]); }
        r += '=';
        for (x[0] = 0; x[0] < d[0]; x[0]++)
            for (x[1] = 0; x[1] < d[1]; x[1]++)
                for (x[2] = 0; x[2] < d[2]; x[2]++)
                    r.append((const char*)I.raw(x), I.type == StateBase::ArrayInfo::Double ? sizeof(double) : sizeof(size_t));
        r += '\n';
    }
    return r;
}

std::string diff(const std::string& a, const std::string& b)
{
    // first attribute that differs
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t e = a.rfind('=', i);
    if (e == a.npos) return "at the beginning";
    size_t n = a.rfind('\n', e);
    return a.substr(n == a.npos ? 0 : n + 1, std::min<size_t>(e - (n == a.npos ? 0 : n + 1), 60));
}

void setup(Mon&)
{
    DIR* d = opendir(PREP.c_str());
    if (!d) exit(3);
    while (dirent* e = readdir(d)) {
        std::string n(e->d_name);
        if (n.size() > 7 && n.substr(0, 3) == "lat" && n.substr(n.size() - 4) == ".lat") lats.push_back(PREP + "/" + n);
    }
    closedir(d);
    std::sort(lats.begin(), lats.end());
    if (lats.empty()) exit(3);
}

struct View {
    const ElementVoid* e;
    const StateBase* s;
    std::string d;
    int who;
};
struct Obs : public Observer {
    std::vector<View>* log;
    int who;
    Obs(std::vector<View>* l, int w) : log(l), who(w) {}
    virtual ~Obs() {}
    virtual void view(const ElementVoid* e, const StateBase* s)
    {
        View v;
        v.e = e; v.s = s; v.d = dump(s); v.who = who;
        log->push_back(v);
    }
};

std::string run(Machine& M, StateBase* S, size_t start, int max)
{
    try {
        M.propagate(S, start, max);
        return "";
    } catch (std::exception& e) {
        return std::string("!") + e.what();
    }
}

void run12(int, Rng& r, Mon& mon)
{
    const std::string& fn = r.pick(lats);
    GLPSParser P;
    boost::shared_ptr<Config> C(P.parse_file(fn.c_str()));
    std::vector<View> log;
    std::vector<Obs*> obs;
    {
        Machine M(*C), N(*C);
        const size_t n = M.size();
        if (!mon.check(n > 0 && n == N.size(), "native-size", fn)) return;
        for (size_t i = 0; i < n; i++) obs.push_back(r.p(0.5) ? new Obs(&log, (int)i) : 0);
        for (size_t i = 0; i < n; i++) {
            mon.check(!M[i]->observer(), "native-observer-initial", fn);
            M[i]->set_observer(obs[i]);
        }
        for (int rep = 0, reps = (int)r.range(2, 4); rep < reps; rep++) {
            std::ostringstream tr;
            bool traced = r.p(0.5);
            M.set_trace(traced ? &tr : 0);
            mon.check(M.trace() == (traced ? &tr : 0), "native-trace-get", fn);
            if (r.p(0.3)) {         // move observers around between passes
                size_t i = r.below(n);
                if (obs[i]) { M[i]->set_observer(0); delete obs[i]; obs[i] = 0; }
                else M[i]->set_observer(obs[i] = new Obs(&log, (int)i));
            }
            size_t start = r.p(0.4) ? 0 : r.below(n + 1);
            int max = r.p(0.4) ? INT_MAX : (int)r.below(n + 3);
            bool back = M.simtype() == "MomentMatrix" && r.p(0.15);
            if (back) { start = r.below(n); max = -(int)r.range(1, n + 1); }
            boost::shared_ptr<StateBase> S(M.allocState(*C)), T(N.allocState(*C));
            log.clear();
            std::string o = run(M, S.get(), start, max);
            // stepwise on an unobserved, untraced machine
            std::vector<size_t> visit;
            std::string p, want;
            std::vector<std::string> dumps;
            size_t k = start;
            for (unsigned c = 0; c < (back ? 0u - (unsigned)max : (unsigned)max) && k < n; c++) {
                p = run(N, T.get(), k, back ? -1 : 1);
                if (!p.empty()) break;
                visit.push_back(k);
                dumps.push_back(dump(T.get()));
                want += STR("[" << k << "]" << N[k]->name << ";");
                if (back) k--; else k++;
            }
            mon.count("native-passes");
            mon.check(o == p, "native-outcome", STR(fn << ": '" << o << "' against '" << p << "'"));
            if (o.empty() && p.empty() && !visit.empty())
                mon.check(dump(S.get(), false) == dump(T.get(), false), "native-observing-changes-result", STR(fn << " " << diff(dump(S.get()), dump(T.get()))));
            size_t j = 0;
            for (size_t v = 0; v < visit.size(); v++) {
                if (!obs[visit[v]]) continue;
                if (!mon.check(j < log.size(), "native-visit-missing", STR(fn << " element " << visit[v]))) break;
                const View& w = log[j++];
                mon.check(w.who == (int)visit[v] && w.e == M[visit[v]], "native-visit", STR(fn << " element " << visit[v] << " observed as " << w.who));
                mon.check(w.s == S.get(), "native-visit-state", STR(fn << " element " << visit[v]));
                mon.check(w.d == dumps[v], "native-view", STR(fn << " element " << visit[v] << " " << diff(w.d, dumps[v])));
                mon.count("native-views");
            }
            mon.check(j == log.size(), "native-visit-extra", STR(fn << ": " << log.size() << " views, " << j << " expected"));
            for (size_t i = 0; i < n; i++) mon.check(M[i]->observer() == obs[i], "native-observer-kept", fn);
            if (traced) {
                std::istringstream in(tr.str());
                std::string l, got;
                while (std::getline(in, l)) {
                    if (l.compare(0, 7, "After [")) continue;
                    size_t b = l.find(']');
                    if (b == l.npos) { got += "?" + l; continue; }
                    size_t e = l.find(' ', b + 2);
                    got += l.substr(6, b - 5) + l.substr(b + 2, e == l.npos ? l.npos : e - b - 2) + ";";
                }
                mon.check(got == want, "native-trace", STR(fn << " start " << start << " max " << max << "\ngot  " << got << "\nwant " << want));
                mon.count("native-traces");
                if (!visit.empty() && o.empty()) {
                    std::ostringstream last;
                    last << *S;
                    mon.check(tr.str().find(last.str()) != std::string::npos, "native-trace-state", fn);
                }
            }
            mon.distinct(STR(fn << start << ":" << max << ":" << log.size() << ":" << traced));
        }
        M.set_trace(0);
        // reconfiguration keeps the observer of an element
        size_t i = r.below(n);
        Config ec(M[i]->conf());
        if (r.p(0.4)) ec.set<std::string>("name", r.p(0.5) ? "renamed" : M[r.below(n)]->name);
        M.reconfigure(i, ec);
        for (size_t q = 0; q < n; q++) mon.check(M[q]->observer() == obs[q], "native-observer-after-reconfigure", STR(fn << " " << i << " " << q));
        if (r.p(0.3)) {
            Config bad(M[i]->conf());
            bad.set<std::string>("type", "nosuch");
            try { M.reconfigure(i, bad); mon.violate("native-reconfigured-to-nothing", fn); } catch (std::exception&) {}
            for (size_t q = 0; q < n; q++) mon.check(M[q]->observer() == obs[q], "native-observer-after-failure", STR(fn << " " << i << " " << q));
        }
        for (size_t q = 0; q < n; q++) { M[q]->set_observer(0); delete obs[q]; }
    }
    mon.sample(fn);
}

void run06(int idx, Rng& r, Mon& mon)
{
    static const char* NAMES[] = {"a", "ab", "abc", "a1", "a10", "A", "b", "drift", "marker", "source", "", "z", "aa", "a "};
    static const char* MT[] = {"marker", "drift", "bpm", "orbtrim"};
    static const char* LT[] = {"marker", "drift", "source"};
    Config C;
    int sim = (int)r.below(3);
    C.set<std::string>("sim_type", sim == 0 ? "MomentMatrix" : sim == 1 ? "Vector" : "TransferMatrix");
    std::vector<Config> es;
    std::vector<std::string> nm, ty;
    std::vector<double> len;
    size_t n = r.p(0.05) ? 0 : r.below(25);
    if (r.p(0.05)) n = r.range(200, 400);
    const bool huge = idx % 1000 == 500;
    if (huge) n = r.range(65530, 70000);     // more than 16 bits can count
    for (size_t i = 0; i < n; i++) {
        Config e(C.new_scope());
        nm.push_back(NAMES[r.below(14)]);
        ty.push_back(sim == 0 ? MT[r.below(4)] : LT[r.below(3)]);
        e.set<std::string>("name", nm[i]);
        e.set<std::string>("type", ty[i]);
        double L = r.p(0.8) ? r.uni(0, 2) : 0;
        if (r.p(0.9)) e.set<double>("L", L); else L = 0;
        len.push_back(L);
        es.push_back(e);
    }
    C.set<std::vector<Config> >("elements", es);
    Machine M(C);
    const Machine& K = M;
    std::string txt = STR(C);
    mon.check(M.size() == n && K.end() - K.begin() == (long)n && M.end() - M.begin() == (long)n, "native-size", txt);
    mon.check(M.simtype() == C.get<std::string>("sim_type"), "native-simtype", M.simtype());
    if (M.size() != n) return;
    for (int rep = 0; rep < (huge ? 2 : 3); rep++) {
        for (size_t i = 0; i < n; i++) {
            ElementVoid* e = M[i];
            mon.check(e == M.at(i) && e == K[i] && e == K.at(i) && *(M.begin() + i) == e, "native-access", STR(i));
            mon.check(e->index == i && e->name == nm[i] && ty[i] == e->type_name(), "native-element", STR(i << " " << e->index << " " << e->name << " " << e->type_name()));
            mon.check(e->length == len[i] || ty[i] != "drift", "native-length", STR(i << " " << e->length << " " << len[i]));
            mon.check(e->conf().get<std::string>("name") == nm[i] && e->conf().get<double>("L", 0) == len[i], "native-conf", STR(i));
        }
        bool thrown = false;
        try { M.at(n); } catch (std::out_of_range&) { thrown = true; }
        mon.check(thrown, "native-at", "");
        for (int q = 0; q < 14; q++) {
            std::vector<ElementVoid*> want, got;
            for (size_t i = 0; i < n; i++) if (nm[i] == NAMES[q]) want.push_back(M[i]);
            std::pair<Machine::lookup_iterator, Machine::lookup_iterator> p(M.equal_range(NAMES[q]));
            for (; p.first != p.second; ++p.first) got.push_back(*p.first);
            mon.check(got == want, "native-equal-range", STR(NAMES[q] << " " << got.size() << " " << want.size()));
            for (size_t k = 0; k < want.size() + 2; k += (huge && k + 100 < want.size() ? 97 : 1))
                mon.check(M.find(NAMES[q], k) == (k < want.size() ? want[k] : 0), "native-find", STR(NAMES[q] << " " << k));
            mon.check(M.find(NAMES[q]) == (want.empty() ? 0 : want[0]), "native-find", NAMES[q]);
            mon.check(M.find(NAMES[q], (size_t)-1) == 0, "native-find", NAMES[q]);
            mon.count("native-lookups");
        }
        const char* T[] = {"marker", "drift", "bpm", "orbtrim", "source", "mark", "", "zzz"};
        for (int q = 0; q < 8; q++) {
            std::vector<ElementVoid*> want, got;
            for (size_t i = 0; i < n; i++) if (ty[i] == T[q]) want.push_back(M[i]);
            std::pair<Machine::lookup_iterator, Machine::lookup_iterator> p(M.equal_range_type(T[q]));
            for (; p.first != p.second; ++p.first) got.push_back(*p.first);
            mon.check(got == want, "native-equal-range-type", STR(T[q] << " " << got.size() << " " << want.size()));
            mon.count("native-lookups");
        }
        std::set<ElementVoid*> all(M.begin(), M.end()), got;
        std::pair<Machine::lookup_iterator, Machine::lookup_iterator> p(M.all_range());
        size_t c = 0;
        for (; p.first != p.second; ++p.first, ++c) got.insert(*p.first);
        mon.check(got == all && c == n, "native-all-range", STR(c << " of " << n));
        // the listing shows every element in order
        std::string l = STR(M);
        size_t pos = 0;
        for (size_t i = 0; i < n; i++) {
            std::string w = STR("Element " << i << ": " << nm[i] << " (" << ty[i] << ")");
            size_t f = l.find(w, pos);
            if (!mon.check(f != l.npos, "native-listing", f != l.npos ? w : STR(w << " in\n" << l.substr(0, 4000)))) break;
            pos = f + w.size();
        }
        mon.count(huge ? "native-huge" : "native-machines");
        if (!huge) mon.distinct(STR(sim << txt << rep));
        // rename or lengthen some elements
        for (int q = 0; q < 3 && n; q++) {
            size_t i = r.below(n);
            Config e(M[i]->conf());
            nm[i] = NAMES[r.below(14)];
            e.set<std::string>("name", nm[i]);
            if (r.p(0.5)) e.set<double>("L", len[i] = r.uni(0, 2));
            ElementVoid* before = M[i];
            M.reconfigure(i, e);
            mon.check(M[i] == before, "native-reconfigure-moves-element", STR(i));
            mon.count("native-edits");
        }
    }
}
}
