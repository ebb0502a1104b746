// Bounded companion of the proofs: runs the same contracts on the real code with generated inputs (seeded), in forked sections so that
// a crash or a hang is itself reported with the last input.  Output protocol: "FAIL <tag>: <input and mismatch>", "CASES n".
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <ufjfmltk/Core.hpp>
namespace hh {
struct Shared { long cases; char last[4096]; char fails[64][96]; int nf[64]; };
inline Shared *sh = nullptr;
inline uint64_t seed0 = 1;
inline bool thorough = false;
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    int in(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
    double real(double a, double b) { return a + (b - a) * (double)(next() >> 11) / 9007199254740992.0; }
    // values that make ties, zeros and exact arithmetic likely
    double val() { switch (in(0, 3)) { case 0: return in(-3, 3); case 1: return in(-40, 40) / 4.0; default: return real(-10, 10); } }
    bool coin() { return next() & 1; }
    template <class V> void shuffle(V &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[in(0, (int)i - 1)]); }
};
inline std::string str(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
template <class V> std::string strv(const V &v) { std::string s = "["; size_t n = 0; for (auto x : v) { if (n++) s += ","; if (n > 40) { s += "..."; break; } s += str((double)x); } return s + "]"; }
inline void input(const std::string &s) { strncpy(sh->last, s.c_str(), sizeof(sh->last) - 1); sh->last[sizeof(sh->last) - 1] = 0; sh->cases++; }
inline bool fail(const std::string &tag, const std::string &what) {
    for (int i = 0; i < 64; i++) {
        if (sh->fails[i][0] == 0) { strncpy(sh->fails[i], tag.c_str(), 95); }
        if (tag.compare(0, 95, sh->fails[i]) == 0) { if (sh->nf[i]++ >= 2) return false; break; }
    }
    printf("FAIL %s: %s | input: %s\n", tag.c_str(), what.c_str(), sh->last); fflush(stdout);
    return false;
}
inline bool check(bool ok, const std::string &tag, const std::string &what = "contract violated") { return ok ? true : fail(tag, what); }
inline bool near(double a, double b, double tol = 1e-9) {
    if (a == b) return true;
    if (std::isnan(a) && std::isnan(b)) return true;
    if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
inline bool checkeq(double got, double want, const std::string &tag, double tol = 1e-9) { return near(got, want, tol) ? true : fail(tag, "got " + str(got) + ", expected " + str(want)); }
// runs f in a child process; a signal or time-out is a failure of the section
inline void section(const std::string &name, const std::function<void(Rng &)> &f, int secs = 40) {
    if (getenv("HH_ONLY") && name.find(getenv("HH_ONLY")) == std::string::npos) return;
    fflush(stdout); sh->last[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        alarm(secs);
        if (!getenv("HH_V")) { if (!freopen("/dev/null", "w", stderr)) {} }
        uint64_t hsh = 1469598103934665603ULL; for (char c : name) hsh = (hsh ^ (unsigned char)c) * 1099511628211ULL;
        Rng r(seed0 * 7919 + hsh);
        try { f(r); } catch (const std::exception &e) { fail(name + "/exception", e.what()); } catch (...) { fail(name + "/exception", "unknown exception"); }
        fflush(stdout); _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { printf("FAIL %s/exit: the code under test ended the program (status %d) | input: %s\n", name.c_str(), WEXITSTATUS(st), sh->last); fflush(stdout); }
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGALRM) printf("FAIL %s/hang: no result after %d s | input: %s\n", name.c_str(), secs, sh->last);
        else printf("FAIL %s/crash: signal %d | input: %s\n", name.c_str(), WTERMSIG(st), sh->last);
        fflush(stdout);
    }
}
inline void begin(int argc, char **argv) {
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, sizeof(Shared));
    seed0 = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1; thorough = argc > 2 && std::string(argv[2]) == "thorough";
}
inline int end() { printf("CASES %ld\n", sh->cases); fflush(stdout); return 0; }
inline int reps(int q, int factor = 10) { return thorough ? q * factor : q; }

// mostly small, sometimes large sizes
inline int bigsz(Rng &r, int a, int b, int big = 140) { return r.in(0, 39) == 0 ? r.in(30, big) : r.in(a, b); }

// ---------------------------------------------------------------- generators
using P = mltk::Point<double>;
using D = mltk::Data<double>;
inline std::vector<double> rvec(Rng &r, int n) { std::vector<double> v(n); for (auto &x : v) x = r.val(); return v; }
inline P point(const std::vector<double> &v, double y = 0, size_t id = 0) { P p(v.size()); for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; p.Y() = y; p.Id() = id; return p; }
struct Row { std::vector<double> x; double y; size_t id; };
inline std::vector<Row> rows(const D &d) {
    std::vector<Row> out;
    for (auto &q : d.points()) { Row w; for (size_t k = 0; k < q->size(); k++) w.x.push_back((*q)[k]); w.y = q->Y(); w.id = q->Id(); out.push_back(w); }
    return out;
}
inline bool same(const Row &a, const Row &b) { return a.x == b.x && a.y == b.y && a.id == b.id; }
inline std::string strr(const std::vector<Row> &v) { std::string s; size_t n = 0; for (auto &w : v) { if (n++ > 14) { s += "..."; break; } s += "{" + std::to_string(w.id) + ":" + strv(w.x) + "->" + str(w.y) + "} "; } return s; }
// classification data with n points, dim features, labels drawn from `labels` (each used at least once when n allows)
inline D dataset(Rng &r, int n, int dim, const std::vector<double> &labels, std::vector<Row> *spec = nullptr, bool classif = true) {
    D d; d.setDim(dim); 
    for (int i = 0; i < n; i++) {
        auto v = rvec(r, dim);
        double y = labels.empty() ? r.val() : (i < (int)labels.size() ? labels[i] : labels[r.in(0, (int)labels.size() - 1)]);
        auto p = std::make_shared<P>(point(v, y, 0));
        d.insertPoint(p);
        if (spec) spec->push_back(Row{v, y, (size_t)i + 1});
    }
    return d;
}
// the dataset holds exactly these points in this order
inline bool sameds(const D &d, const std::vector<Row> &sp, const std::string &tag) {
    auto got = rows(d);
    if (got.size() != sp.size() || d.size() != sp.size()) return fail(tag, "size " + std::to_string(got.size()) + ", expected " + std::to_string(sp.size()));
    for (size_t i = 0; i < sp.size(); i++) if (!same(got[i], sp[i])) return fail(tag, "position " + std::to_string(i) + " holds " + strr({got[i]}) + ", expected " + strr({sp[i]}));
    return true;
}
// multiset of rows, identifiers included or not
inline std::multiset<std::vector<double>> bag(const std::vector<Row> &v, bool ids) { std::multiset<std::vector<double>> s; for (auto &w : v) { auto x = w.x; x.push_back(w.y); if (ids) x.push_back(w.id); s.insert(x); } return s; }
inline std::vector<Row> operator+(std::vector<Row> a, const std::vector<Row> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Row rowOf(const mltk::Point<double> &p) { Row w; for (size_t i = 0; i < p.size(); i++) w.x.push_back(p[i]); w.y = p.Y(); w.id = p.Id(); return w; }
}
