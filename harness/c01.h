// C01: the parser on generated, mutated, truncated and random texts.
#include <dirent.h>
#include <ctype.h>
#include "flame/config.h"
#include "flame/util.h"

namespace c01 {
std::vector<std::string> corpus;
std::string dir;
static const char* SEEDS[] = {
    "sim_type = \"MomentMatrix\";\nx = 1.5e-3*(2+3)/4-1;\nv = [1, 2.5, -x, pi];\ns = \"text # ; =\";\nA: drift, L = x*2;\nB: quadrupole, L=0.1, B2 = -x;\nC: LINE = (A, B, 2*A, -(A,B));\ncell: LINE = (C, -C, 3*C, A);\nUSE: cell;\n",
    "A: marker;\nL: LINE = (A);\n",
    "print(3);\nprint(\"a\");\nprint([1,2]);\nA: marker;\nprint(A);\nL: line = (A, A);\nprint(L);\nEND;\n",
    "q = sin(1)+cos(2)*tan(3)-arcsin(0.5)/acos(0.2);\nr = deg2rad(180); t = rad2deg(pi);\nA: marker, q=q, v=[q,r,t];\nL: LINE=(A*3, 2*A, -A);\n",
    "S: source, vector_variable=\"moment0\", matrix_variable=\"initial\";\nm:LINE=(S);",
    "f = file(\".\");\nd = dir(\"..\");\nA: marker;\nL: LINE=(A);\n",
    "R = parse(\"sub.lat\");\nA: marker, c = R;\nL: LINE=(A);\n",
    "R = parse(\"self.lat\");\nA: marker;\nL: LINE=(A);\n",
    "h = h5file(\"t.h5/group\");\nA: marker;\nL: LINE=(A);\n",
    "empty: LINE = ();\nA: marker;\nL: LINE = (empty, A, -empty, 0*A);\n",
};
static const char* TOK[] = {"=", ":", ";", "(", ")", "[", "]", ",", "+", "-", "*", "/", "\"", "\n", " ", "\t", "#", "# c\n", "\r", "\r\n", "1", "0", "2", "3.5", "1e5", "1e400", "1e-400", "1.",
                            "x", "A", "B", "L", "LINE", "line", "USE", "pi", "sin", "parse", "file", "dir", "h5file", "print", "END", "name", "elements", "type", "\"x\"", "\"sub.lat\"",
                            "[1,2]", "[]", "()", ";;", "a:b", "a:", "0x1", "$", "\x80", "\xff", "_", "~", "'", "A*2", "-A", "x = 1;\n", "A: marker;\n", "L: LINE = (A);\n", "1/0", "x = x;\n", "((((", "))))", "[[[["};
enum { NT = sizeof(TOK) / sizeof(TOK[0]), NS = sizeof(SEEDS) / sizeof(SEEDS[0]) };

void setup(Mon&)
{
    const char* repo = getenv("VERIF_REPO");
    std::string d = std::string(repo ? repo : "/repo") + "/python/flame/test";
    std::set<std::string> names;
    if (DIR* D = opendir(d.c_str())) {
        while (dirent* e = readdir(D)) {
            std::string n = e->d_name;
            if (n.size() > 4 && n.substr(n.size() - 4) == ".lat") names.insert(n);
        }
        closedir(D);
    }
    for (std::set<std::string>::iterator i = names.begin(); i != names.end(); ++i) {
        std::ifstream f((d + "/" + *i).c_str());
        std::ostringstream s;
        s << f.rdbuf();
        corpus.push_back(s.str());
    }
    for (int i = 0; i < NS; i++) corpus.push_back(SEEDS[i]);
    char b[4096];
    dir = getcwd(b, sizeof b) ? b : ".";
    std::ofstream((dir + "/sub.lat").c_str()) << "z = 4; A: marker; L: LINE=(A,A);\n";
    std::ofstream((dir + "/self.lat").c_str()) << "z = parse(\"self.lat\"); A: marker; L: LINE=(A,A);\n";
}

std::string num(Rng& r)
{
    static const char* N[] = {"0", "1", "2", "10", "1.5", "4e1", "0.", "3.25E-2", "1e308", "4e-320", "123456789012345678901234567890", "00012", "7e+1", "1e-5"};
    return N[r.below(sizeof(N) / sizeof(N[0]))];
}
std::string expr(Rng& r, int d)
{
    double x = r.uni();
    if (d <= 0 || x < 0.3) {
        if (x < 0.12) return num(r);
        static const char* V[] = {"x", "y", "pi", "s", "v", "A", "L", "undefined", "\"str\"", "[1,2]", "[]", "e"};
        return r.p(0.98) ? V[r.below(3)] : V[r.below(12)];
    }
    if (x < 0.6) return expr(r, d - 1) + "+-*/"[r.below(4)] + expr(r, d - 1);
    if (x < 0.7) return "-" + expr(r, d - 1);
    if (x < 0.85) return "(" + expr(r, d - 1) + ")";
    if (x < 0.99) {
        static const char* F[] = {"sin", "cos", "tan", "asin", "acos", "atan", "deg2rad", "rad2deg", "nofn", "parse", "file", "h5file", "dir", "print"};
        return std::string(F[r.p(0.95) ? r.below(8) : r.below(14)]) + "(" + expr(r, d - 1) + ")";
    }
    std::string s = "[";
    for (size_t n = r.below(5); n--;) s += expr(r, d - 1) + (n ? "," : "");
    return s + "]";
}
std::string lexpr(Rng& r, int d)
{
    double x = r.uni();
    if (d <= 0 || x < 0.5) {
        static const char* V[] = {"A", "B", "L", "M", "x", "nope", "[1]", "\"q\"", "1"};
        return r.p(0.97) ? V[r.below(3)] : V[r.below(9)];
    }
    if (x < 0.65) return "-" + lexpr(r, d - 1);
    if (x < 0.8) return num(r) + "*" + lexpr(r, d - 1);
    if (x < 0.9) return lexpr(r, d - 1) + "*" + num(r);
    return "(" + lexpr(r, d - 1) + ")";
}
std::string statement(Rng& r, int k)
{
    double x = r.uni();
    static const char* NM[] = {"x", "y", "s", "v", "A", "B", "L", "M", "N", "a:b", "USE", "name", "type", "longer_name_with_0123456789"};
    std::string n = r.p(0.1) ? NM[r.below(14)] : STR("n" << k);
    if (x < 0.35) return n + " = " + expr(r, 4) + ";";
    if (x < 0.6) {
        std::string s = n + ": " + NM[r.below(14)];
        for (size_t k = r.below(5); k--;) s += std::string(", ") + NM[r.below(14)] + " = " + expr(r, 3);
        return s + ";";
    }
    if (x < 0.85) {
        std::string s = n + ": " + (r.p(0.98) ? "LINE" : "LIEN") + " = (";
        for (size_t k = r.below(6); k--;) s += lexpr(r, 3) + (k ? ", " : "");
        return s + ");";
    }
    if (x < 0.92) return std::string(r.p(0.95) ? "print" : "foo") + "(" + expr(r, 3) + ");";
    return std::string(r.p(0.95) ? "END" : "STOP") + ";";
}
std::string generate(Rng& r)
{
    std::string t;
    if (r.p(0.9)) t = "x = 2;\ny = 3.5; s = \"abc\";\nv = [1,2,3];\nA: marker; B: drift, L=x;\n";
    if (r.p(0.9)) t += "L: LINE = (A,B);\n";
    for (size_t n = r.below(12); n--;) t += statement(r, n) + (r.p(0.8) ? "\n" : " ");
    if (r.p(0.5)) t += "Z: LINE = (A, B);\n";
    return t;
}
std::string mutate(Rng& r, std::string t)
{
    for (size_t n = 1 + r.below(r.p(0.3) ? 12 : 3); n--;) {
        size_t a = r.below(t.size() + 1), b = std::min(t.size(), a + r.below(r.p(0.2) ? 200 : 12));
        switch (r.below(9)) {
        case 0: t.erase(a, b - a); break;
        case 1: t.insert(a, TOK[r.below(NT)]); break;
        case 2: if (a < t.size()) t[a] = (char)r.below(256); break;
        case 3: t.insert(r.below(t.size() + 1), t.substr(a, b - a)); break;
        case 4: t.resize(a); break;
        case 5: t.replace(a, b - a, TOK[r.below(NT)]); break;
        case 6: t.insert(a, 1, '\0'); break;
        case 7: { const std::string& o = r.pick(corpus); size_t c = r.below(o.size() + 1); t.insert(a, o.substr(c, r.below(80))); } break;
        case 8: if (a < t.size()) t[a] ^= 1 << r.below(8); break;
        }
        if (t.size() > 60000) t.resize(60000);
    }
    return t;
}
std::string deep(Rng& r)
{
    size_t n = r.p(0.3) ? r.range(9000, 30000) : r.range(10, 3000);
    std::string t = "A: marker;\n", rep;
    switch (r.below(7)) {
    case 0: rep = "x = " + std::string(n, '(') + "1" + (r.p(0.5) ? std::string(n, ')') : "") + ";\n"; break;
    case 1: rep = "x = " + std::string(n, '-') + "1;\n"; break;
    case 2: rep = "x = " + std::string(n, '[') + "1" + std::string(n, ']') + ";\n"; break;
    case 3: rep = "x = 1"; for (size_t i = 0; i < n; i++) rep += "+1"; rep += ";\n"; break;
    case 4: rep = "x = ["; for (size_t i = 0; i < n; i++) rep += "1,"; rep += "1];\n"; break;
    case 5: for (size_t i = 0; i < std::min(n, (size_t)2000); i++) rep += STR("x" << i << " = " << i << ";\n"); break;
    case 6: rep = "x = " + std::string(n, '9') + ";\ny = \"" + std::string(n * 3, 'a') + "\";\n" + std::string(n, 'k') + " = 1;\n"; break;
    }
    return t + rep + "L: LINE = (A);\n";
}
struct Out {
    bool ok;
    std::string text;
};
// how: 0 buffer, 1 string, 2 FILE, 3 file name
Out parse1(GLPSParser& P, const std::string& t, int how, Mon& mon)
{
    Out o;
    o.ok = false;
    try {
        Config* c = 0;
        if (how == 0) {
            // exactly as long as the text: reading past the end is seen
            char* b = (char*)malloc(t.size() ? t.size() : 1);
            memcpy(b, t.data(), t.size());
            try { c = P.parse_byte(b, t.size(), dir.c_str()); } catch (...) { free(b); throw; }
            free(b);
        } else if (how == 1)
            c = P.parse_byte(t, dir.c_str());
        else if (how == 2) {
            FILE* f = fopen("in.lat", "rb");
            try { c = P.parse_file(true, f, dir.c_str()); } catch (...) { fclose(f); throw; }
            fclose(f);
        } else
            c = P.parse_file((dir + "/in.lat").c_str());
        if (!c) {
            mon.violate("no-result", "neither a configuration nor an error\n" + t);
            return o;
        }
        o.ok = true;
        std::ostringstream s;
        s.precision(17);
        s << *c;
        delete c;
        o.text = s.str();
    } catch (std::exception& e) {
        o.text = e.what();
        if (o.text.empty()) mon.violate("empty-error", t);
    }
    return o;
}
void run(int i, Rng& r, Mon& mon)
{
    std::string t;
    const char* kind;
    int expect = 0;
    switch (i % 8) {
    case 0: case 1: t = generate(r); kind = "generated"; break;
    case 2: t = mutate(r, generate(r)); kind = "mutated-generated"; break;
    case 3: case 4: {
        const std::string& o = r.pick(corpus);
        size_t a = r.p(0.5) ? 0 : r.below(o.size());
        t = mutate(r, o.substr(a, r.p(0.9) ? 3000 : 40000));
        kind = "mutated-corpus";
        break;
    }
    case 5:
        kind = "tokens";
        for (size_t n = r.below(60); n--;) { t += TOK[r.below(NT)]; if (r.p(0.3)) t += ' '; }
        break;
    case 6:
        if (i % 64 == 6) { t = deep(r); kind = "deep"; }
        else { kind = "bytes"; for (size_t n = r.below(200); n--;) t += r.p(0.5) ? (char)r.below(256) : "x=1;:()[]\",#\n "[r.below(15)]; }
        break;
    default: {
        // one bad statement on its own line
        kind = "bad-line";
        static const char* BAD[] = {"q = ;", "q = 1 + ;", "= 3;", "q = (1;", "q = [1,;", "e: f, g;", "e: f, g=;", "1 = 2;", "q == 1;", "q = 1 2;", "q = \"abc;", "q = $;", "foo(1);", "STOP;",
                                    "e: LIEN = (A);", "q = 1e999;", "\x80", "q = 'a';", "e: f, g=1, ;", "e: LINE = (A,, A);", "e: LINE = A;", "q = undefinedname;", "q = sin();", "q = sin(1,2);", "A: marker;", "x = 1;",
                                    "q = 1/0;", "q = -\"a\";", "q = [1, \"a\"];", "q = A;", "e: LINE = (3);", "e: LINE = (nope);", "e: LINE = (-1*A);", "q = parse(\"absent.lat\");", "q = file(\"absent\");", "q = parse(3);", "q = parse(\".\");", "q = parse(\"sub.lat/x\");", "q ! 1;", "q = 1\r;",
                                    "q = 3;; w = 4;", ": marker;", "e: ;", "e: , a=1;", "print 3;", "print(;", "print();", "q = parse(\"self.lat\");", "q = [1 2];", "q = );"};
        std::vector<std::string> L;
        L.push_back("x = 1;");
        L.push_back("A: marker;");
        for (size_t n = r.below(8); n--;) {
            static const char* G[] = {"", "# comment", "   ", "k%d = 3*(x+1);", "E%d: drift, L=x;", "\tm%d = [1,2];", "s%d = \"a;b#c\"; t%d = 4; # tail", "l%d: LINE = (A, 2*A);", "print(x);", "s%d = \"a#b\";"};
            char b[200];
            const char* g = G[r.below(10)];
            snprintf(b, sizeof b, g, (int)n, (int)n + 20);
            L.push_back(b);
        }
        if (r.p(0.006)) {       // far down
            L.insert(L.begin() + 2, (r.p(0.5) ? r.range(32000, 34000) : r.range(64000, 70000)), std::string(r.p(0.5) ? "" : "#"));
            mon.count("far-down");
        }
        size_t at = L.size() > 1000 ? L.size() - r.below(8) : 2 + r.below(L.size() - 1);
        const char* b = BAD[r.below(sizeof(BAD) / sizeof(BAD[0]))];
        L.insert(L.begin() + at, b);
        expect = at + 1;
        L.push_back("Z: LINE = (A);");
        if (r.p(0.4)) {     // further mistakes do not hide the first
            static const char* B2[] = {"x = 2;", "A: marker;", "w = undefinedname;", "w = 1/0;", "w = nofunc(1);", "w = -\"a\";", "w = [1, \"a\"];", "foo(1);", "w = parse(\"absent.lat\");", "Z: LINE = (A);", "w = ;", "y: drift, L=1, L=2;", "w = \"abc"};
            for (size_t n = 1 + r.below(3); n--;) L.push_back(B2[r.below(13)]);
            mon.count("several-mistakes");
        }
        for (size_t k = 0; k < L.size(); k++) t += L[k] + "\n";
        mon.count(std::string("bad:") + (b[0] & 0x80 ? "high" : b));
    }
    }
    {
        FILE* f = fopen("in.lat", "wb");
        fwrite(t.data(), 1, t.size(), f);
        fclose(f);
    }
    std::ostringstream printed;
    GLPSParser P;
    P.setPrinter(r.p(0.9) ? &printed : 0);
    if (!expect && r.p(0.3)) P.setVar("x", Config::value_t(2.0));
    if (!expect && r.p(0.1)) P.setVar("s", Config::value_t(std::string("given")));
    if (!expect && r.p(0.1)) P.setVar("v", Config::value_t(std::vector<double>(3, 1.0)));
    Out a = parse1(P, t, 0, mon);
    for (int how = 1; how < 4; how++) {
        Out b = parse1(P, t, how, mon);
        mon.check(a.ok == b.ok && a.text == b.text, STR("differs-by-source:" << how), a.ok == b.ok && a.text == b.text ? "" : "buffer: " + a.text + "\nother: " + b.text + "\n" + t);
    }
    if (i % 200 == 7) {
        // what cannot be read is an error
        const char* W[] = {".", "absent.lat", "/", "", "in.lat/x"};
        for (int k = 0; k < 5; k++) {
            bool failed = false;
            try { std::auto_ptr<Config> c(P.parse_file(W[k])); } catch (std::exception&) { failed = true; }
            mon.check(failed, "unreadable-accepted", W[k]);
        }
        mon.count("unreadable");
    }
    if (expect) {
        unsigned line = 0;
        bool got = sscanf(a.text.c_str(), "On line %u:", &line) == 1;
        mon.check(!a.ok, "bad-line-accepted", a.ok ? t : "");
        if (!a.ok) mon.check(got && line == (unsigned)expect, "error-line", got && line == (unsigned)expect ? "" : STR("wanted " << expect << " got " << a.text << "\n" << t));
        mon.count("error-lines");
    } else if (!a.ok) {
        unsigned line = 0;
        if (sscanf(a.text.c_str(), "On line %u:", &line) == 1) {
            size_t nl = 1;
            for (size_t k = 0; k < t.size(); k++) nl += t[k] == '\n';
            mon.check(line >= 1 && line <= nl, "error-line-range", line >= 1 && line <= nl ? "" : STR(a.text << " of " << nl << " lines\n" << t));
            mon.count("errors-with-line");
        } else
            mon.count("errors-without-line");
    }
    // repeating it leaves no memory behind
    size_t h0 = 0, h1 = 0;
    int rep = 0;
    for (; rep < 4; rep++) {
        printed.str("");
        h0 = heap();
        {
            Out b = parse1(P, t, r.below(4), mon);
            (void)b;
        }
        printed.str("");
        h1 = heap();
        if (h1 <= h0) break;
    }
    mon.check(rep < 4, "leak", rep < 4 ? "" : STR((h1 - h0) << " bytes per parse remain (" << (a.ok ? "accepted" : a.text) << ")\n" << t));
    mon.count(a.ok ? "accepted" : "rejected");
    mon.count(std::string("kind:") + kind);
    mon.distinct(kind + (a.ok ? std::string("ok") : a.text.substr(0, 60)));
    mon.sample(t);
}
}
