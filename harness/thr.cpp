// Multi-threaded workloads, built with ThreadSanitizer.
#include "mon.h"
#include <thread>
#include <algorithm>
#include <mutex>
#include <atomic>
#include <memory>
#include <dirent.h>
#include <sched.h>
#include <math.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <boost/shared_ptr.hpp>
#include "flame/base.h"
#include "flame/config.h"
#include "flame/util.h"
#include "flame/state/vector.h"
#include "flame/linear.h"

static std::string PREP;
static std::vector<std::string> LAT;      // lattice files
static std::vector<std::string> TEXT;     // and their texts
static std::vector<std::string> DATAF;    // curve and cavity data files they refer to

static std::string slurp(const std::string& p)
{
    std::ifstream f(p.c_str(), std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}
static void touch(const std::string& p, time_t t)
{
    struct timeval tv[2] = {{t, 0}, {t, 0}};
    utimes(p.c_str(), tv);
}

struct Gate {
    std::atomic<int> n;
    int want;
    Gate(int w) : n(0), want(w) {}
    void wait() { n++; while (n.load() < want) sched_yield(); }
};

struct Digest {
    uint64_t h;
    Digest() : h(1469598103934665603ull) {}
    void raw(const void* p, size_t n) { const unsigned char* q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 1099511628211ull; }
    void str(const std::string& s) { raw(s.data(), s.size()); raw("\0", 1); }
    void state(StateBase& S)
    {
        for (unsigned k = 0;; k++) {
            StateBase::ArrayInfo I;
            if (!S.getArray(k, I)) break;
            str(I.name);
            size_t n = 1;
            for (unsigned i = 0; i < I.ndim; i++) { raw(&I.dim[i], sizeof I.dim[i]); n *= I.dim[i]; }
            for (size_t j = 0; j < n; j++) {
                size_t rem = j;
                const char* p = (const char*)I.ptr;
                for (int i = (int)I.ndim - 1; i >= 0; i--) { p += (rem % I.dim[i]) * I.stride[i]; rem /= I.dim[i]; }
                raw(p, 8);
            }
        }
    }
};

// ---------------------------------------------------------------- log collector
struct Collect : public Machine::Logger {
    std::mutex m;
    std::map<std::string, int> seen;
    long n;
    Collect() : n(0) {}
    virtual ~Collect() {}
    virtual void log(const Machine::LogRecord& r)
    {
        std::string s(r.strm.str());
        std::lock_guard<std::mutex> g(m);
        n++;
        if (s.compare(0, 6, "TOKEN ") == 0) seen[s]++;
    }
};

// ---------------------------------------------------------------- what one thread does
struct Op { int kind; int lat; uint64_t seed; };
typedef std::vector<Op> Prog;

// an element type registered while other threads work
struct RegMarker : public LinearElementBase<VectorState> {
    typedef LinearElementBase<VectorState> base_t;
    std::string nm;
    RegMarker(const Config& c) : base_t(c), nm(c.get<std::string>("type")) {}
    virtual ~RegMarker() {}
    virtual const char* type_name() const { return nm.c_str(); }
    virtual void assign(const ElementVoid* o) { base_t::assign(o); nm = static_cast<const RegMarker*>(o)->nm; }
};

struct Shared {
    std::vector<boost::shared_ptr<Config> > conf;     // shared by all threads, read only
    std::string phase;
    boost::shared_ptr<Collect> la, lb;
};

static void jitter(Rng& r)
{
    double x = r.uni();
    if (x < 0.25) sched_yield();
    else if (x < 0.35) usleep(r.below(200));
}

static std::string one(const Op& op, Shared& sh, int tid, int k, std::vector<std::string>& tokens, std::map<std::string, long>& cnt)
{
    Digest d;
    Rng r(op.seed, 3, 9);
    static const char* NAME[] = {"parse-text", "parse-file", "build-run", "reconfigure", "back", "table", "register", "log", "config", "fail", "clone", "curve"};
    cnt[std::string("op:") + NAME[op.kind]]++;
    try {
        switch (op.kind) {
        case 0: case 1: {
            GLPSParser P;
            std::unique_ptr<Config> c(op.kind == 0 ? P.parse_byte(TEXT[op.lat].c_str(), TEXT[op.lat].size()) : P.parse_file(LAT[op.lat].c_str()));
            std::ostringstream s;
            s << *c;
            d.str(s.str());
            if (r.p(0.5)) {
                Machine M(*c);
                std::unique_ptr<StateBase> S(M.allocState(*c));
                M.propagate(S.get());
                d.state(*S);
            }
            break;
        }
        case 2: case 3: case 4: case 10: {
            Machine M(*sh.conf[op.lat]);
            std::unique_ptr<StateBase> S(M.allocState(*sh.conf[op.lat]));
            M.propagate(S.get());
            d.state(*S);
            std::ostringstream s;
            s << M;
            d.str(s.str());
            if (op.kind == 3) {
                size_t i = r.below(M.size());
                Config c(M[i]->conf());
                if (r.p(0.7)) c.set<double>("L", r.uni(0.1, 1));
                else c.set<std::string>("name", "renamed");
                try { M.reconfigure(i, c); } catch (std::exception& e) { d.str(e.what()); }
                std::unique_ptr<StateBase> S2(M.allocState(*sh.conf[op.lat]));
                M.propagate(S2.get());
                d.state(*S2);
            } else if (op.kind == 4) {
                try { M.propagate(S.get(), M.size() - 1, -(int)M.size()); d.state(*S); } catch (std::exception& e) { d.str(e.what()); }
            } else if (op.kind == 10) {
                std::unique_ptr<StateBase> A(S->clone());
                try { M.propagate(A.get(), r.below(M.size()), 3); } catch (std::exception& e) { d.str(e.what()); }
                d.state(*S);
                d.state(*A);
            }
            break;
        }
        case 5: {
            static const char* F[] = {"Multipole41/EFocus1_41.txt", "axisData_41.txt", "axisData_85.txt"};
            (void)F;
            numeric_table_cache* c = numeric_table_cache::get();
            if (r.p(0.2)) c->clear();
            for (int i = 0; i < 3; i++) {
                numeric_table_cache::table_pointer t(c->fetch(STR(PREP << "/tab" << r.below(3) << ".dat")));
                for (size_t a = 0; a < t->table.size1(); a++)
                    for (size_t b = 0; b < t->table.size2(); b++) { double v = t->table(a, b); d.raw(&v, 8); }
            }
            break;
        }
        case 6: {
            std::string name = STR("reg" << sh.phase << "_" << tid << "_" << k);
            Machine::registerElement<RegMarker>("Vector", name.c_str());
            bool again = false;
            try { Machine::registerState<VectorState>("Vector"); } catch (std::logic_error&) { again = true; }
            d.str(again ? "refused" : "accepted twice");
            Config c, e;
            e.set<std::string>("type", name);
            e.set<std::string>("name", "x");
            Config::vector_t es(1 + r.below(3), e);
            c.set<Config::vector_t>("elements", es);
            c.set<std::string>("sim_type", "Vector");
            Machine M(c);
            d.str(STR(M.size()));
            if (r.p(0.5)) {
                std::string sname = STR("sim" << sh.phase << "_" << tid << "_" << k);
                Machine::registerState<VectorState>(sname.c_str());
                Machine::registerElement<RegMarker>(sname.c_str(), name.c_str());
                c.set<std::string>("sim_type", sname);
                Machine M2(c);
                d.str(STR(M2.size()));
            }
            break;
        }
        case 7: {
            int n = 1 + r.below(4);
            for (int i = 0; i < n; i++) {
                std::string t = STR("TOKEN " << sh.phase << "/" << tid << "/" << k << "/" << i);
                tokens.push_back(t);
                FLAME_LOG(ERROR) << t;
                if (r.p(0.2)) Machine::set_logger(r.p(0.5) ? sh.la : sh.lb);
            }
            break;
        }
        case 8: {
            Config c(*sh.conf[op.lat]);
            Config in(c.new_scope());
            c.set<double>("mine", tid);
            in.set<double>("inner", k);
            Config flat(in);
            flat.flatten();
            std::ostringstream s;
            s << c.get<double>("mine") - tid << in.get<std::string>("sim_type", "none") << flat.get<double>("inner") - k;
            d.str(s.str());
            Config::vector_t es(c.get<Config::vector_t>("elements"));
            for (size_t i = 0; i < es.size(); i++) { es[i].set<double>("L", 0.25); d.str(es[i].get<std::string>("name")); }
            const Config::vector_t& orig = sh.conf[op.lat]->get<Config::vector_t>("elements");
            for (size_t i = 0; i < orig.size(); i++) { double L = orig[i].get<double>("L", -1); d.raw(&L, 8); }
            break;
        }
        case 9: {
            int w = r.below(3);
            GLPSParser P;
            if (w == 0) {
                std::string t = TEXT[op.lat].substr(0, r.below(TEXT[op.lat].size()));
                std::unique_ptr<Config> c(P.parse_byte(t.c_str(), t.size()));
                std::ostringstream s;
                s << *c;
                d.str(s.str());
            } else if (w == 1) {
                Config c(*sh.conf[op.lat]);
                c.set<std::string>("sim_type", "nosuch");
                Machine M(c);
            } else {
                Config c(*sh.conf[op.lat]);
                Config::vector_t es(c.get<Config::vector_t>("elements"));
                Config e;
                e.set<std::string>("type", "nosuch");
                e.set<std::string>("name", "n");
                es.push_back(e);
                c.set<Config::vector_t>("elements", es);
                Machine M(c);
            }
            break;
        }
        }
    } catch (std::exception& e) {
        d.str(e.what());
        cnt["errors"]++;
    }
    char b[32];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)d.h);
    return std::string(NAME[op.kind]) + ":" + b;
}

static std::vector<std::string> runprog(const Prog& p, Shared& sh, int tid, uint64_t js, std::vector<std::string>& tokens, std::map<std::string, long>& cnt, Gate* g)
{
    std::vector<std::string> out;
    Rng j(js, tid, 77);
    if (g) g->wait();
    for (size_t i = 0; i < p.size(); i++) {
        if (g) jitter(j);
        out.push_back(one(p[i], sh, tid, i, tokens, cnt));
    }
    return out;
}

static time_t clock0 = 1100000000;

static void c25(int cs, Rng& r, Mon& mon)
{
    // cold caches: data files get a new modification time
    clock0 += 2 + cs % 7;
    numeric_table_cache::get()->clear();
    for (size_t i = 0; i < DATAF.size(); i++) touch(DATAF[i], clock0);
    int level = r.p(0.25) ? FLAME_DEBUG : FLAME_ERROR;
    Machine::log_detail = level;
    int nt = r.range(2, 6), len = level == FLAME_ERROR ? r.range(4, 10) : r.range(2, 4);
    int focus = r.p(0.5) ? r.below(12) : -1;      // everybody does the same thing at once
    int onelat = r.p(0.5) ? r.below(LAT.size()) : -1;
    std::vector<Prog> prog(nt);
    std::string shape;
    for (int t = 0; t < nt; t++) {
        for (int i = 0; i < len; i++) {
            Op o;
            do { o.kind = focus >= 0 && r.p(0.8) ? focus : r.below(11); } while (o.kind > 10);
            if (focus == 11) o.kind = 2;
            o.lat = onelat >= 0 ? onelat : r.below(LAT.size());
            o.seed = r.p(0.5) ? cs * 1000 + i : r.next();
            prog[t].push_back(o);
            shape += (char)('a' + o.kind);
        }
        shape += '/';
    }
    Shared sh;
    for (size_t i = 0; i < LAT.size(); i++) sh.conf.push_back(boost::shared_ptr<Config>());
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < len; i++) {
            int l = prog[t][i].lat;
            if (!sh.conf[l]) { GLPSParser P; sh.conf[l].reset(P.parse_byte(TEXT[l].c_str(), TEXT[l].size())); }
        }
    std::vector<std::vector<std::string> > res[2];
    for (int ph = 0; ph < 2; ph++) {
        sh.phase = STR(cs << (ph ? "s" : "c"));
        sh.la.reset(new Collect);
        sh.lb.reset(new Collect);
        Machine::set_logger(sh.la);
        std::vector<std::vector<std::string> > tokens(nt);
        std::vector<std::map<std::string, long> > cnt(nt);
        res[ph].resize(nt);
        if (ph == 0) {
            Gate g(nt);
            std::vector<std::thread> th;
            uint64_t js = r.next();
            for (int t = 0; t < nt; t++)
                th.push_back(std::thread([&, t]() { res[0][t] = runprog(prog[t], sh, t, js, tokens[t], cnt[t], &g); }));
            for (int t = 0; t < nt; t++) th[t].join();
        } else
            for (int t = 0; t < nt; t++) res[1][t] = runprog(prog[t], sh, t, 0, tokens[t], cnt[t], 0);
        Machine::set_logger(boost::shared_ptr<Machine::Logger>());
        if (ph == 0)
            for (int t = 0; t < nt; t++)
                for (std::map<std::string, long>::iterator i = cnt[t].begin(); i != cnt[t].end(); ++i) mon.count(i->first, i->second);
        size_t want = 0;
        for (int t = 0; t < nt; t++)
            for (size_t i = 0; i < tokens[t].size(); i++) {
                int got = (sh.la->seen.count(tokens[t][i]) ? sh.la->seen[tokens[t][i]] : 0) + (sh.lb->seen.count(tokens[t][i]) ? sh.lb->seen[tokens[t][i]] : 0);
                want++;
                mon.check(got == 1, "log-record-not-once", got == 1 ? "" : STR(tokens[t][i] << " was delivered " << got << " times"));
            }
        mon.check(sh.la->seen.size() + sh.lb->seen.size() == want, "log-records", "");
        mon.count("log-records", want);
        mon.count("other-log-records", sh.la->n + sh.lb->n - want);
    }
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < len; i++) {
            bool ok = res[0][t][i] == res[1][t][i];
            mon.count("digests");
            mon.check(ok, "result-differs-from-sequential", ok ? "" : STR("thread " << t << " operation " << i << " (" << LAT[prog[t][i].lat] << "): " << res[0][t][i] << " alone " << res[1][t][i]));
        }
    mon.count("runs");
    mon.count("threads", nt);
    mon.distinct(STR(nt << shape));
    mon.sample(STR(nt << " threads: " << shape));
    Machine::log_detail = FLAME_WARN;
}

// ---------------------------------------------------------------- C21: fetching while files are replaced
static void c21(int cs, Rng& r, Mon& mon)
{
    numeric_table_cache own;
    numeric_table_cache& C = r.p(0.5) ? own : *numeric_table_cache::get();
    const int NF = r.range(1, 3), NT = r.range(2, 6), NW = r.range(3, 12);
    std::vector<std::atomic<int> > pending(NF), done(NF);
    std::vector<std::string> path;
    std::string dir(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : ".");
    std::vector<int> cols;
    struct W {
        static void put(const std::string& p, int ver, int nc, time_t mt)
        {
            std::string q = p + ".new";
            FILE* f = fopen(q.c_str(), "wb");
            fprintf(f, "%% ver a b\n");
            for (int i = 0; i < 20 + ver % 5; i++) {
                for (int j = 0; j < nc; j++) fprintf(f, "%d ", ver * 1000 + i * 10 + j);
                fprintf(f, "\n");
            }
            fclose(f);
            touch(q, mt);
            rename(q.c_str(), p.c_str());
        }
    };
    for (int f = 0; f < NF; f++) {
        path.push_back(STR(dir << "/c" << cs << "_" << f << ".dat"));
        cols.push_back(r.range(1, 5));
        W::put(path[f], 1, cols[f], 1000000000);
        pending[f] = done[f] = 1;
    }
    std::atomic<bool> stop(false);
    std::atomic<long> fetches(0), bad(0), moved(0);
    std::mutex em;
    std::string err;
    Gate g(NT + 1);
    std::vector<std::thread> th;
    uint64_t js = r.next();
    bool clearer = r.p(0.3);
    for (int t = 0; t < NT; t++)
        th.push_back(std::thread([&, t]() {
            Rng j(js, t, 5);
            std::vector<int> lastver(NF, 0);
            g.wait();
            numeric_table_cache::table_pointer keep;
            for (int k = 0; k < 200 && !(stop.load() && k > 40); k++) {
                int f = j.below(NF), lo = done[f].load();
                std::string why;
                try {
                    numeric_table_cache::table_pointer p(C.fetch(path[f]));
                    int hi = pending[f].load();
                    int ver = p->table.size1() ? (int)(p->table(0, 0) / 1000) : -1;
                    if (ver < lo || ver > hi) why = STR("stale: version " << ver << " not in " << lo << ".." << hi);
                    if ((int)p->table.size1() != 20 + ver % 5 || (int)p->table.size2() != cols[f]) why = "torn shape";
                    else
                        for (size_t a = 0; a < p->table.size1(); a++)
                            for (size_t b = 0; b < p->table.size2(); b++)
                                if (p->table(a, b) != ver * 1000 + (double)a * 10 + b) why = "torn contents";
                    if (p->colnames.size() != 3) why = "torn names";
                    if (ver != lastver[f]) { if (lastver[f]) moved++; lastver[f] = ver; }
                    if (j.p(0.3)) keep = p;
                } catch (std::exception& e) { why = e.what(); }
                fetches++;
                if (!why.empty()) { bad++; std::lock_guard<std::mutex> l(em); err = why; }
                if (clearer && t == 0 && j.p(0.1)) C.clear();
                if (j.p(0.1)) jitter(j);
            }
        }));
    {
        Rng j(js, 99, 5);
        g.wait();
        for (int v = 2; v < 2 + NW; v++) {
            int f = j.below(NF);
            int ver = done[f].load() + 1;
            pending[f] = ver;
            W::put(path[f], ver, cols[f], 1000000000 + ver * (j.p(0.5) ? 1 : 1) + (ver % 2 ? 0 : 5000));
            done[f] = ver;
            usleep(j.below(400));
        }
        stop = true;
    }
    for (int t = 0; t < NT; t++) th[t].join();
    mon.check(bad.load() == 0, "concurrent-fetch", err);
    mon.count("concurrent-fetches", fetches.load());
    mon.count("versions-seen-to-change", moved.load());
    mon.count("concurrent-runs");
    mon.distinct(STR(NT << "." << NF << "." << NW << "." << moved.load()));
    mon.sample(STR(NT << " threads, " << NF << " files, " << NW << " replacements: " << fetches.load() << " fetches, " << moved.load() << " changes seen"));
    for (int f = 0; f < NF; f++) unlink(path[f].c_str());
    numeric_table_cache::get()->clear();
}

// each worker process has its own copy of the prepared files, as it changes their modification times
static void setup25(Mon&)
{
    std::string dst(STR((getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : ".") << "/p"));
    mkdir(dst.c_str(), 0777);
    DIR* d = opendir(PREP.c_str());
    std::vector<std::string> names;
    while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
    closedir(d);
    std::sort(names.begin(), names.end());
    for (size_t i = 0; i < names.size(); i++) {
        std::string t = slurp(PREP + "/" + names[i]), p = dst + "/" + names[i];
        for (size_t q; (q = t.find(PREP)) != t.npos;) t.replace(q, PREP.size(), "%%");
        for (size_t q; (q = t.find("%%")) != t.npos;) t.replace(q, 2, dst);
        std::ofstream(p.c_str(), std::ios::binary) << t;
        if (names[i].compare(0, 3, "lat") == 0) { LAT.push_back(p); TEXT.push_back(t); }
        else DATAF.push_back(p);
    }
    PREP = dst;
    for (int i = 0; i < 3; i++) {
        std::ofstream f(STR(PREP << "/tab" << i << ".dat").c_str());
        for (int a = 0; a < 30; a++) f << a * 0.37 + i << " " << a << "\n";
    }
}

int main(int argc, char** argv)
{
    registerLinear();
    registerMoment();
    if (argc > 7) PREP = argv[7];
    Mode modes[] = {
        {"c25", setup25, c25, 0},
        {"c21t", 0, c21, 0},
        {0, 0, 0, 0},
    };
    int rc = drive(argc, argv, modes);
    Machine::registeryCleanup();
    return rc;
}
