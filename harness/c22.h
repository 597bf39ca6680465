// C22: histories of H5StateWriter against what an independent reader (the HDF5 C interface) finds in the file.
#include <hdf5.h>
#include <math.h>
#include "flame/base.h"
#include "flame/h5writer.h"
#include "flame/h5loader.h"

namespace c22 {
struct Arr {
    std::string name;
    int type;
    std::vector<size_t> dim;
    std::vector<double> d;
    std::vector<uint64_t> u;
    bool operator==(const Arr& o) const
    {
        return name == o.name && type == o.type && dim == o.dim && u == o.u && d.size() == o.d.size() && (d.empty() || memcmp(&d[0], &o.d[0], d.size() * sizeof(double)) == 0);
    }
};
typedef std::vector<Arr> Snap;
Snap snap(StateBase& S)
{
    Snap r;
    for (unsigned k = 0;; k++) {
        StateBase::ArrayInfo I;
        if (!S.getArray(k, I)) break;
        Arr a;
        a.name = I.name;
        a.type = I.type;
        size_t n = 1;
        for (unsigned i = 0; i < I.ndim; i++) { a.dim.push_back(I.dim[i]); n *= I.dim[i]; }
        for (size_t j = 0; j < n; j++) {
            size_t rem = j;
            const char* p = (const char*)I.ptr;
            for (int i = (int)I.ndim - 1; i >= 0; i--) { p += (rem % I.dim[i]) * I.stride[i]; rem /= I.dim[i]; }
            if (I.type == StateBase::ArrayInfo::Double) a.d.push_back(*(const double*)p);
            else a.u.push_back(*(const size_t*)p);
        }
        r.push_back(a);
    }
    return r;
}
typedef std::vector<double> dv;
Config beam(Rng& r, int n)
{
    Config c;
    c.set<double>("IonEs", 931.49432e6);
    c.set<double>("IonEk", r.uni(1e6, 3e7));
    dv z, q;
    for (int i = 0; i < n; i++) {
        z.push_back((33.0 + i) / 238.0);
        q.push_back(r.uni(1, 1000));
        dv m0(7), m1(49);
        for (int k = 0; k < 6; k++) { m0[k] = r.uni(-1, 1); m1[k * 8] = r.uni(0.1, 2); }
        m0[6] = 1;
        c.set<dv>(STR("moment0" << i), m0);
        c.set<dv>(STR("initial" << i), m1);
    }
    c.set<dv>("IonChargeStates", z);
    c.set<dv>("NCharge", q);
    return c;
}
Config machine(Rng& r, const char* sim, int n)
{
    Config c = strcmp(sim, "MomentMatrix") ? Config() : beam(r, n);
    c.set<std::string>("sim_type", sim);
    if (strcmp(sim, "MomentMatrix")) {
        dv v;
        for (int i = strcmp(sim, "Vector") ? 36 : 6; i--;) v.push_back(r.uni(-1, 1));
        c.set<dv>("initial", v);
    }
    Config::vector_t es;
    size_t N = 1 + r.below(6);
    for (size_t i = 0; i < N; i++) {
        Config e(c.new_scope());
        e.set<std::string>("name", STR("e" << i));
        double x = r.uni();
        if (x < 0.4) { e.set<std::string>("type", "drift"); e.set<double>("L", r.uni(0, 2)); }
        else if (x < 0.6) { e.set<std::string>("type", "quadrupole"); e.set<double>("L", 0.2); e.set<double>("B2", r.uni(-5, 5)); e.set<double>("K", r.uni(-5, 5)); }
        else if (x < 0.8 && !strcmp(sim, "MomentMatrix")) {
            e.set<std::string>("type", "stripper");
            e.set<std::string>("charge_model", "off");
            dv z, q;
            for (size_t k = 1 + r.below(5); k--;) { z.push_back((70.0 + k) / 238.0); q.push_back(r.uni(1, 10)); }
            e.set<dv>("IonChargeStates", z);
            e.set<dv>("NCharge", q);
        } else
            e.set<std::string>("type", "marker");
        es.push_back(e);
    }
    c.set<Config::vector_t>("elements", es);
    return c;
}
// what a group is expected to hold
struct Group {
    std::vector<Snap> rec;
    std::map<std::string, std::string> attr;
};
void verify(Mon& mon, const std::string& file, const std::map<std::string, Group>& groups, const std::string& hist)
{
    hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (!mon.check(f >= 0, "unreadable-file", hist)) return;
    for (std::map<std::string, Group>::const_iterator g = groups.begin(); g != groups.end(); ++g) {
        hid_t grp = H5Gopen2(f, g->first.c_str(), H5P_DEFAULT);
        if (!mon.check(grp >= 0, "group-lost", g->first + "\n" + hist)) continue;
        for (std::map<std::string, std::string>::const_iterator a = g->second.attr.begin(); a != g->second.attr.end(); ++a) {
            hid_t at = H5Aopen(grp, a->first.c_str(), H5P_DEFAULT);
            if (!mon.check(at >= 0, "attribute-lost", a->first + "\n" + hist)) continue;
            hid_t ty = H5Aget_type(at);
            std::vector<char> b(H5Tget_size(ty) + 1, 0);
            H5Aread(at, ty, &b[0]);
            mon.check(a->second == &b[0], "attribute-value", a->second + " read as " + &b[0] + "\n" + hist);
            mon.count("attributes");
            H5Tclose(ty);
            H5Aclose(at);
        }
        const std::vector<Snap>& R = g->second.rec;
        if (R.empty()) { H5Gclose(grp); continue; }
        for (size_t k = 0; k < R[0].size(); k++) {
            const std::string& name = R[0][k].name;
            hid_t d = H5Dopen2(grp, name.c_str(), H5P_DEFAULT);
            if (!mon.check(d >= 0, "dataset-missing", g->first + "/" + name + "\n" + hist)) continue;
            hid_t sp = H5Dget_space(d);
            int nd = H5Sget_simple_extent_ndims(sp);
            hsize_t dims[8];
            H5Sget_simple_extent_dims(sp, dims, 0);
            std::vector<size_t> want(R[0][k].dim.size(), 0);
            for (size_t i = 0; i < R.size(); i++)
                for (size_t j = 0; j < want.size(); j++) want[j] = std::max(want[j], R[i][k].dim[j]);
            bool ok = nd == (int)want.size() + 1 && dims[0] == R.size();
            for (size_t j = 0; ok && j < want.size(); j++) ok = dims[j + 1] == want[j];
            if (mon.check(ok, "shape", ok ? "" : STR(g->first << "/" << name << " has " << dims[0] << " records of rank " << nd << ", " << R.size() << " states were written\n" << hist))) {
                size_t per = 1;
                for (size_t j = 0; j < want.size(); j++) per *= want[j];
                std::vector<double> D;
                std::vector<uint64_t> U;
                bool dbl = R[0][k].type == StateBase::ArrayInfo::Double;
                hid_t ty = H5Dget_type(d);
                mon.check((H5Tget_class(ty) == H5T_FLOAT) == dbl && H5Tget_size(ty) == 8, "element-type", name);
                H5Tclose(ty);
                if (dbl) { D.resize(per * R.size() + 1); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &D[0]); }
                else { U.resize(per * R.size() + 1); H5Dread(d, H5T_NATIVE_UINT64, H5S_ALL, H5S_ALL, H5P_DEFAULT, &U[0]); }
                for (size_t i = 0; i < R.size(); i++) {
                    const Arr& a = R[i][k];
                    size_t n = 1;
                    for (size_t j = 0; j < a.dim.size(); j++) n *= a.dim[j];
                    bool good = true;
                    for (size_t j = 0; good && j < n; j++) {
                        // position of element j of the record in the dataset
                        size_t rem = j, off = 0, mul = 1;
                        for (int q = (int)a.dim.size() - 1; q >= 0; q--) { off += (rem % a.dim[q]) * mul; mul *= want[q]; rem /= a.dim[q]; }
                        off += i * per;
                        good = dbl ? memcmp(&D[off], &a.d[j], 8) == 0 : U[off] == a.u[j];
                    }
                    mon.count("records");
                    if (!mon.check(good, "record-value", good ? "" : STR(g->first << "/" << name << " record " << i << "\n" << hist))) break;
                }
            }
            H5Sclose(sp);
            H5Dclose(d);
        }
        H5Gclose(grp);
    }
    H5Fclose(f);
}
void loader(Rng& r, Mon& mon)
{
    H5Loader reused;
    for (int rep = 0, nrep = r.range(1, 3); rep < nrep; rep++) {
        // a dataset some groups down
        static const char* GN[] = {"g", "h", "group", "m", "load.h5", "x y"};
        std::vector<std::string> gs;
        for (int n = r.range(0, 3); n--;) gs.push_back(GN[r.below(6)]);
        std::string fn = STR("load" << r.below(2) << ".h5");
        hid_t f = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
        hid_t g = H5Gopen2(f, "/", H5P_DEFAULT);
        for (size_t i = 0; i < gs.size(); i++) {
            hid_t n = H5Gcreate2(g, gs[i].c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
            H5Gclose(g);
            g = n;
        }
        int nd = r.below(4);
        bool big = r.p(0.1);
        hsize_t dims[3] = {big ? 1 + r.below(200) : 1 + r.below(5), big ? 1 + r.below(60) : 1 + r.below(5), 1 + r.below(3)};
        if (nd == 0) dims[0] = dims[1] = dims[2] = 1;
        if (nd == 1) dims[1] = dims[2] = 1;
        if (nd == 2) dims[2] = 1;
        dv v;
        for (size_t n = dims[0] * dims[1] * dims[2]; n--;) v.push_back(r.uni(-9, 9));
        int ty = r.below(5);        // how it is stored
        hid_t T[] = {H5T_NATIVE_DOUBLE, H5T_NATIVE_INT, H5T_IEEE_F32LE, H5T_IEEE_F64BE, H5T_STD_I64BE};
        for (size_t i = 0; i < v.size(); i++) v[i] = ty == 1 || ty == 4 ? floor(v[i]) : ty == 2 ? (double)(float)v[i] : v[i];
        hid_t sp = nd ? H5Screate_simple(nd, dims, 0) : H5Screate(H5S_SCALAR);
        hid_t pl = H5Pcreate(H5P_DATASET_CREATE);
        if (nd && r.p(0.3)) {
            hsize_t ch[3] = {2, 2, 2};
            for (int i = 0; i < nd; i++) if (ch[i] > dims[i]) ch[i] = dims[i];
            H5Pset_chunk(pl, nd, ch);
            if (r.p(0.5)) H5Pset_shuffle(pl);
        }
        hid_t d = H5Dcreate2(g, "m0", T[ty], sp, H5P_DEFAULT, pl, H5P_DEFAULT);
        H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v[0]);
        H5Dclose(d); H5Pclose(pl); H5Sclose(sp); H5Gclose(g); H5Fclose(f);
        char cwd[4096];
        size_t cut = r.below(gs.size() + 1);        // so many groups in the location, the others in the name
        std::string spec = std::string(r.p(0.5) ? getcwd(cwd, sizeof cwd) + std::string("/") : r.p(0.2) ? "./" : "") + fn, name;
        for (size_t i = 0; i < cut; i++) spec += (r.p(0.1) ? "//" : "/") + gs[i];
        for (size_t i = cut; i < gs.size(); i++) name += gs[i] + "/";
        name += "m0";
        std::string what = STR(spec << " " << name << " rank " << nd << " type " << ty);
        try {
            H5Loader own;
            H5Loader& L0 = r.p(0.5) ? own : reused;
            if (r.p(0.3)) { try { L0.open("absent.h5/x"); mon.violate("loader:absent", ""); } catch (std::runtime_error&) {} }
            if (r.p(0.2)) { try { L0.open(spec + "/nogroup"); mon.violate("loader:absent-group", what); } catch (std::runtime_error&) {} }
            std::auto_ptr<H5Loader> made;
            int how = r.below(5);
            if (how == 0) made.reset(new H5Loader(spec));
            else if (how == 1) made.reset(new H5Loader(spec.c_str()));
            else if (how == 2) L0.open(spec.c_str());
            else L0.open(spec);
            if (r.p(0.1)) { try { H5Loader bad(r.p(0.5) ? std::string("absent.h5/x") : spec + "/nogroup"); mon.violate("loader:absent-constructed", what); } catch (std::runtime_error&) {} }
            H5Loader& L = made.get() ? *made : L0;
            if (r.p(0.3)) { try { L.load("absent"); mon.violate("loader:absent-set", ""); } catch (std::runtime_error&) {} }
            for (int again = 0; again < 1 + (int)r.p(0.3); again++) {
                H5Loader::matrix_t M(r.p(0.5) ? L.load(name) : L.load(name.c_str()));
                bool ok = M.size1() == dims[0] && M.size2() == dims[1];
                for (size_t i = 0; ok && i < dims[0]; i++)
                    for (size_t j = 0; ok && j < dims[1]; j++) ok = M(i, j) == v[i * dims[1] + j];
                mon.check(nd < 3 && ok, "loader:value", what);
            }
            if (r.p(0.5)) L.close();
        } catch (std::runtime_error& e) {
            mon.check(nd == 3, "loader:refused", what + " " + e.what());
        }
        reused.close();
        mon.count("loads");
    }
    unlink("load0.h5");
    unlink("load1.h5");
}
void setup(Mon&)
{
    H5Eset_auto2(H5E_DEFAULT, 0, 0);
    H5StateWriter::dontPrint();
    H5Loader::dontPrint();
}
void run(int i, Rng& r, Mon& mon)
{
    const char* SIM[] = {"MomentMatrix", "Vector", "TransferMatrix"};
    std::map<std::string, std::map<std::string, Group> > files;      // file -> group -> content
    std::set<std::string> all;
    std::string hist;
    std::auto_ptr<H5StateWriter> kept;
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) return;
    for (size_t sess = 1 + r.below(4); sess--;) {
        std::string file = STR("o" << r.below(2) << ".h5"), grp = r.p(0.3) ? "/" : STR("g" << r.below(3));
        bool old = files.count(file) != 0;
        std::string spec = (r.p(0.4) ? std::string(cwd) + "/" : "") + file + (grp == "/" ? "" : "/" + grp);
        bool nested = grp != "/" && r.p(0.15);
        if (nested) {
            // one level deeper exists only below an existing group
            std::string sub = grp + "/s";
            bool can = old && files[file].count(grp);
            spec += "/s";
            hist += "[nested " + spec + "] ";
            try {
                H5StateWriter w(spec);
                mon.check(can, "missing-parent-accepted", hist);
            } catch (std::runtime_error&) {
                mon.check(!can, "nested-refused", hist);
            }
            mon.count("nested");
            all.insert(file);
            files[file];
            if (can) { files[file][sub] = Group(); }
            verify(mon, file, files[file], hist);
            continue;
        }
        hist += "[" + spec + "] ";
        const char* sim = SIM[r.p(0.6) ? 0 : r.below(3)];
        int n = r.p(0.1) ? 5 + r.below(20) : 1 + r.below(4);
        H5StateWriter* w = 0;
        try {
            if (kept.get() && r.p(0.7)) { w = kept.release(); w->open(spec); mon.count("reused-writers"); hist += "reused "; }
            else if (r.p(0.5)) w = new H5StateWriter(spec);
            else { w = new H5StateWriter; w->open(spec); }
        } catch (std::runtime_error& e) {
            mon.violate("open-refused", spec + ": " + e.what() + "\n" + hist);
            delete w;
            return;
        }
        all.insert(file);
        std::map<std::string, Group>& G = files[file];
        if (grp != "/") {
            // an existing group of that name is replaced
            for (std::map<std::string, Group>::iterator it = G.begin(); it != G.end();)
                if (it->first.substr(0, grp.size() + 1) == grp + "/") G.erase(it++);
                else ++it;
            G[grp] = Group();
        }
        bool full = grp == "/" && G.count("/") && !G["/"].rec.empty();    // root datasets exist already
        Group& g = G[grp];
        std::auto_ptr<Machine> M;
        std::auto_ptr<StateBase> S;
        {
            Config c = machine(r, sim, n);
            M.reset(new Machine(c));
            S.reset(M->allocState(c));
        }
        size_t nrec = r.p(0.05) ? 1030 + r.below(30) : r.below(12);
        for (size_t k = 0; k < nrec; k++) {
            if (r.p(0.7)) {
                try { M->propagate(S.get(), r.below(M->size()), 1 + r.below(3)); } catch (std::runtime_error&) {}
            }
            if (r.p(0.05)) { Config c = machine(r, sim, 1 + r.below(r.p(0.2) ? 20 : 5)); S.reset(M->allocState(c)); }
            Snap a = snap(*S);
            if (full) {
                bool failed = false;
                try { w->append(S.get()); } catch (std::runtime_error&) { failed = true; }
                mon.check(failed, "existing-datasets-overwritten", hist);
                mon.count("refused-root");
                break;
            }
            try {
                if (k == 0 && r.p(0.2)) w->prepare(S.get());
                w->append(S.get());
            } catch (std::exception& e) {
                mon.violate("append-refused", STR(e.what() << " record " << k << "\n" << hist));
                break;
            }
            mon.check(snap(*S) == a, "append-changes-state", hist);
            g.rec.push_back(a);
            mon.count("appends");
            if (r.p(0.05)) {
                // a state of another type
                const char* o = SIM[r.below(3)];
                if (strcmp(o, sim)) {
                    Config c = machine(r, o, 2);
                    Machine M2(c);
                    std::auto_ptr<StateBase> T(M2.allocState(c));
                    bool failed = false;
                    try { w->append(T.get()); } catch (std::runtime_error&) { failed = true; }
                    mon.check(failed, "other-type-accepted", hist);
                    mon.count("other-type");
                    hist += "other ";
                }
            }
            if (r.p(0.05)) {
                std::string an = STR("at" << r.below(3)), av(r.p(0.3) ? r.below(3000) : r.below(40), 'x');
                for (size_t q = 0; q < av.size(); q++) av[q] = "abc xyz0/"[r.below(9)];
                w->setAttr(an.c_str(), av);
                g.attr[an] = av;
            }
        }
        hist += STR(sim << n << "x" << g.rec.size() << " ");
        bool closed = false;
        if (r.p(0.5)) {
            closed = true;
            kept.reset();
            w->close();
            // after close() nothing of the file is held: it can be replaced, moved, read by another
            mon.check(H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR) == 0, "held-after-close", hist);
            mon.count("closed");
            if (r.p(0.3)) w->close();
        }
        if (r.p(0.1)) {
            // a closed or unopened writer refuses
            H5StateWriter u;
            bool failed = false;
            try { u.append(S.get()); } catch (std::exception&) { failed = true; }
            mon.check(failed, "unopened-accepted", hist);
        }
        if (kept.get()) kept.reset();
        if (r.p(closed ? 0.5 : 0.3)) kept.reset(w);         // closed or still open
        else delete w;
        for (std::set<std::string>::iterator it = all.begin(); it != all.end(); ++it) verify(mon, *it, files[*it], hist);
        mon.count("sessions");
    }
    if (r.p(0.2)) {
        const char* BADS[] = {"/no/such/dir/x.h5", "", "/", "nodir/a/b/c.h5", "notes.txt", "notes.txt/g", "/proc/x.h5"};
        std::ofstream("notes.txt") << "not hdf5";
        for (int k = 0; k < 7; k++) {
            bool failed = false;
            try { H5StateWriter w(BADS[k]); } catch (std::runtime_error&) { failed = true; }
            mon.check(failed, "bad-location-accepted", BADS[k]);
            mon.count("bad-locations");
        }
        std::ifstream f("notes.txt");
        std::string x;
        std::getline(f, x);
        mon.check(x == "not hdf5", "foreign-file-damaged", x);
    }
    kept.reset();
    if (r.p(0.3)) loader(r, mon);
    for (std::set<std::string>::iterator it = all.begin(); it != all.end(); ++it) unlink(it->c_str());
    mon.distinct(hist);
    mon.sample(hist);
}
}
