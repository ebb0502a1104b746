#include "h.hpp"
using namespace hh;
static bool rowsame(const D &d, const std::vector<Row> &w, const std::string &tag) {
    auto g = rows(d); bool ok = check(g.size() == w.size() && d.size() == w.size(), tag + "/size", std::to_string(d.size()) + " points, expected " + std::to_string(w.size()));
    for (size_t i = 0; i < g.size() && i < w.size(); i++) if (!same(g[i], w[i])) return fail(tag + "/points", "position " + std::to_string(i) + " differs from its original");
    return ok;
}
static void consistent(const D &d, const std::string &tag) {
    auto g = rows(d); auto c = d.classes(); auto dist = d.classesDistribution();
    check(dist.size() == c.size(), tag + "/distribution length");
    for (size_t j = 0; j < c.size() && j < dist.size(); j++) { size_t n = 0; for (auto &w : g) n += (int)w.y == c[j]; check(dist[j] == n, tag + "/distribution", "class " + std::to_string(c[j]) + " counted " + std::to_string(dist[j]) + " has " + std::to_string(n)); }
    std::set<int> u(c.begin(), c.end()); check(u.size() == c.size(), tag + "/duplicate class");
    auto ix = d.getIndex(); check(ix.size() == g.size(), tag + "/index length");
    check(d.classesNames().size() == c.size(), tag + "/class names");
}
static D gen(Rng &r, int n, int m, int ncl, std::vector<Row> &f) {
    std::vector<double> labs; for (int i = 0; i < ncl; i++) labs.push_back((i % 2 ? -1 : 1) * (i + 1)); r.shuffle(labs);
    D d = dataset(r, n, m, labs, &f);
    if (r.in(0, 3) == 0) { d.shuffle(r.in(1, 50)); f = rows(d); }
    for (int i = 0; i < n; i++) if (r.in(0, 2) == 0) d[i]->Alpha() = r.in(1, 5);
    return d;
}
// mutates every observable part of d
static void scribble(D &d) { for (size_t i = 0; i < d.size(); i++) { (*d[i])[0] += 1000; d[i]->Id() += 77; d[i]->Alpha() = 9; } if (d.size()) d.updatePointValue(0, 4321); if (d.size() > 1) d.removePoint(d[1]->Id()); }
int main(int c, char **v) {
    begin(c, v);
    section("copies", [](Rng &r) {
        for (int it = 0; it < reps(900); it++) {
            std::vector<Row> f, g; int n = r.in(0, 9), m = r.in(1, 4); D d = gen(r, n, m, std::max(1, std::min(n, r.in(1, 3))), f); input(strr(f));
            auto al = [](const D &x) { std::vector<double> o; for (auto &q : x.points()) o.push_back(q->Alpha()); return o; };
            auto a0 = al(d); auto cl = d.classes(); auto di = d.classesDistribution();
            D e = d.copy(), k(d), z = gen(r, r.in(0, 4), m, 2, g); z.copy(d);
            D *cp[3] = {&e, &k, &z}; const char *nm[3] = {"copy()", "copy constructor", "copy(source)"};
            for (int i = 0; i < 3; i++) {
                rowsame(*cp[i], f, nm[i]); check(al(*cp[i]) == a0, std::string(nm[i]) + "/alpha"); check(cp[i]->classes() == cl && cp[i]->classesDistribution() == di, std::string(nm[i]) + "/classes"); check(cp[i]->dim() == d.dim(), std::string(nm[i]) + "/dim");
                check(cp[i]->getIndex() == d.getIndex() && cp[i]->getFeaturesNames() == d.getFeaturesNames(), std::string(nm[i]) + "/index and names"); check(cp[i]->isEmpty() == d.isEmpty() && cp[i]->getType() == d.getType(), std::string(nm[i]) + "/kind");
            }
            for (int i = 0; i < 3; i++) {
                scribble(*cp[i]); rowsame(d, f, std::string(nm[i]) + "/source after changing the copy"); check(d.classes() == cl && d.classesDistribution() == di, std::string(nm[i]) + "/source classes");
                for (int j = i + 1; j < 3; j++) rowsame(*cp[j], f, std::string(nm[j]) + "/after changing another copy");
            }
            D e2 = d.copy(); scribble(d); rowsame(e2, f, "copy()/after changing the source"); check(e2.classes() == cl, "copy()/classes after changing the source");
        }
    });
    section("copyZero", [](Rng &r) {
        for (int it = 0; it < reps(300); it++) {
            std::vector<Row> f, g; int m = r.in(1, 4); D d = gen(r, r.in(0, 6), m, 2, f), z = gen(r, r.in(0, 6), m, 2, g); input(strr(f) + " into " + strr(g));
            z.copyZero(d);
            check(z.size() == 0 && z.points().empty() && z.classes().empty() && z.classesDistribution().empty() && z.isEmpty() && z.getIndex().empty(), "copyZero/empty");
            check(z.getFeaturesNames() == d.getFeaturesNames(), "copyZero/feature names"); rowsame(d, f, "copyZero/source");
            auto p = std::make_shared<P>(point(rvec(r, m), 5)); if (check(z.insertPoint(p), "copyZero/insert afterwards")) { check(z.size() == 1 && z.classes() == std::vector<int>{5} && z.classesDistribution() == std::vector<size_t>{1}, "copyZero/counts afterwards"); }
        }
    });
    section("classesCopy", [](Rng &r) {
        for (int it = 0; it < reps(900); it++) {
            std::vector<Row> f, g; int n = r.in(1, 10), m = r.in(1, 3); D d = gen(r, n, m, std::min(n, r.in(1, 4)), f), z = gen(r, r.in(0, 4), m, 2, g);
            auto cl = d.classes(); auto pick = cl; r.shuffle(pick); pick.resize(r.in(1, (int)pick.size())); if (r.in(0, 4) == 0) pick.push_back(999);
            input(strr(f) + " classes " + strv(pick)); auto p0 = pick;
            z.classesCopy(d, pick); std::vector<Row> want; for (auto &w : f) if (std::find(pick.begin(), pick.end(), (int)w.y) != pick.end()) want.push_back(w);
            rowsame(z, want, "classesCopy"); check(z.classes() == p0, "classesCopy/classes"); consistent(z, "classesCopy"); rowsame(d, f, "classesCopy/source"); if (want.size()) check(z.dim() == d.dim(), "classesCopy/dim");
            auto ix = z.getIndex(); for (size_t i = 0; i < ix.size(); i++) check(ix[i] == (int)i, "classesCopy/index");
            auto dn = d.classesNames(), zn = z.classesNames(); for (size_t j = 0; j < p0.size() && j < zn.size(); j++) { size_t q = std::find(cl.begin(), cl.end(), p0[j]) - cl.begin(); if (q < dn.size()) check(zn[j] == dn[q], "classesCopy/class name of " + std::to_string(p0[j])); }
            scribble(z); rowsame(d, f, "classesCopy/source after changing the copy");
        }
    });
    section("join", [](Rng &r) {
        for (int it = 0; it < reps(900); it++) {
            std::vector<Row> f, g; int m = r.in(1, 4), n = r.in(0, 7), k = r.in(0, 7); D d = gen(r, n, m, std::max(1, std::min(n, r.in(1, 3))), f), e = gen(r, k, m, std::max(1, std::min(k, r.in(1, 4))), g);
            input(strr(f) + " joined with " + strr(g)); auto ecl = e.classes(), dcl = d.classes(); std::vector<P *> ptr; for (auto &q : d.points()) ptr.push_back(q.get());
            d.join(e); auto want = f; want.insert(want.end(), g.begin(), g.end());
            rowsame(d, want, "join"); if (want.size()) check(d.dim() == (size_t)m, "join/dim"); consistent(d, "join"); check(d.isEmpty() == want.empty(), "join/isEmpty");
            std::set<int> u(dcl.begin(), dcl.end()), w(ecl.begin(), ecl.end()), got; u.insert(w.begin(), w.end()); for (int x : d.classes()) got.insert(x); check(got == u, "join/classes");
            for (size_t j = 0; j < dcl.size(); j++) check(d.classes()[j] == dcl[j], "join/own classes first");
            auto ix = d.getIndex(); for (size_t i = 0; i < ix.size(); i++) check(ix[i] == (int)i, "join/index");
            for (size_t i = 0; i < ptr.size() && i < d.size(); i++) check(d[i].get() == ptr[i], "join/own points stay the same objects");
            rowsame(e, g, "join/source"); check(e.classes() == ecl, "join/source classes"); scribble(d); rowsame(e, g, "join/source after changing the joined set");
        }
    });
    return end();
}
