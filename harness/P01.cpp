#include "h.hpp"
using namespace hh;
// reference container: list of points and first-seen class list
struct Ref {
    std::vector<Row> pts; std::vector<int> classes; int dim = -1;
    void note(double y) { int c = (int)y; if (std::find(classes.begin(), classes.end(), c) == classes.end()) classes.push_back(c); }
    void drop() { for (size_t j = 0; j < classes.size();) { bool u = false; for (auto &p : pts) if ((int)p.y == classes[j]) u = true; if (!u) classes.erase(classes.begin() + j); else j++; } }
    std::map<int, size_t> dist() const { std::map<int, size_t> m; for (auto &p : pts) m[(int)p.y]++; return m; }
};
static void cmp(const D &d, const Ref &r, const std::string &tag, bool ids = true) {
    check(d.size() == r.pts.size(), tag + "/size", "size " + std::to_string(d.size()) + ", expected " + std::to_string(r.pts.size()));
    auto g = rows(d);
    if (g.size() != r.pts.size()) { fail(tag + "/points", "number of points"); return; }
    for (size_t i = 0; i < g.size(); i++) {
        if (g[i].x != r.pts[i].x || g[i].y != r.pts[i].y) { fail(tag + "/points", "point " + std::to_string(i) + " has " + strv(g[i].x) + "->" + str(g[i].y) + ", expected " + strv(r.pts[i].x) + "->" + str(r.pts[i].y)); return; }
        if (ids && g[i].id != r.pts[i].id) { fail(tag + "/ids", "id of point " + std::to_string(i) + ": " + std::to_string(g[i].id) + ", expected " + std::to_string(r.pts[i].id)); return; }
        if (d.point((int)i)->size() != d.dim()) { fail(tag + "/dim", "a point with " + std::to_string(d.point((int)i)->size()) + " components in a dataset of dimension " + std::to_string(d.dim())); return; }
        if (d(i).size() != g[i].x.size() || d(i).Y() != g[i].y) { fail(tag + "/access", "operator() disagrees with points()"); return; }
    }
    auto cl = d.classes(); auto ds = d.classesDistribution(); auto nm = d.classesNames();
    check(cl == r.classes, tag + "/classes", "classes " + strv(cl) + ", expected " + strv(r.classes));
    check(ds.size() == cl.size(), tag + "/distribution length", std::to_string(ds.size()) + " counts for " + std::to_string(cl.size()) + " classes");
    check(nm.size() == cl.size(), tag + "/names length", std::to_string(nm.size()) + " names for " + std::to_string(cl.size()) + " classes");
    auto m = r.dist();
    for (size_t j = 0; j < cl.size() && j < ds.size(); j++) check(ds[j] == m[cl[j]], tag + "/distribution", "class " + std::to_string(cl[j]) + " counted " + std::to_string(ds[j]) + ", has " + std::to_string(m[cl[j]]) + " points");
    check(d.getIndex().size() == r.pts.size(), tag + "/index length", std::to_string(d.getIndex().size()));
    check(d.isEmpty() == r.pts.empty(), tag + "/isEmpty");
}
static std::string hist;
static void act(const std::string &s) { hist += s + "; "; input(hist); }
int main(int c, char **v) {
    begin(c, v);
    section("histories", [](Rng &r) {
        for (int it = 0; it < reps(1500); it++) {
            hist = ""; D d; d.setType("Classification"); Ref f; int dim = r.in(1, 3); bool declared = r.coin();
            if (declared) { d.setDim(dim); act("setDim(" + std::to_string(dim) + ")"); }
            int steps = r.in(1, 25), lab = r.in(1, 5); size_t nid = 1; bool updated = false;
            for (int k = 0; k < steps; k++) {
                int op = r.in(0, 13);
                if (op < 7 || f.pts.empty()) {
                    auto x = rvec(r, dim); double y = r.in(-lab, lab); bool keep = r.in(0, 3) == 0; size_t id = keep ? 1000 + nid++ : f.pts.size() + 1;
                    act("insert " + strv(x) + "->" + str(y) + (keep ? " keeping id" : "")); bool ok;
                    if (r.coin()) { auto p = std::make_shared<P>(point(x, y, keep ? id : 0)); ok = d.insertPoint(p, keep); }
                    else { P p = point(x, y, keep ? id : 0); ok = d.insertPoint(p, keep); p[0] = 1234.5; p.Y() = 77; }
                    check(ok, "insert/accepted", "a point of the right dimension was rejected");
                    f.pts.push_back(Row{x, y, id}); f.note(y);
                } else if (op < 8) {
                    int w = dim + (r.coin() || dim == 1 ? 1 : -1); auto x = rvec(r, w); act("insert wrong dimension " + strv(x)); bool ok;
                    if (r.coin()) { auto p = std::make_shared<P>(point(x, 1)); ok = d.insertPoint(p); } else { P p = point(x, 1); ok = d.insertPoint(p); }
                    check(!ok, "wrong dimension/rejected", "a point of another dimension was accepted");
                } else if (op < 10) {
                    int n = r.in(1, 4); D o = dataset(r, n, dim, {1, -1}); int i = r.in(-2, n + 1); double y = r.in(-lab, lab); if (i >= 0 && i < n) o.point(i)->Y() = y;
                    act("insert from another dataset of " + std::to_string(n) + ", position " + std::to_string(i)); bool ok = d.insertPoint(o, i);
                    bool in = i >= 0 && i < n; check(ok == in, "insert from dataset/accepted", ok ? "position out of range accepted" : "valid position rejected");
                    if (in) { auto q = rows(o)[i]; q.id = f.pts.size() + 1; f.pts.push_back(Row{q.x, y, q.id}); f.note(y); }
                } else if (op < 13) {
                    size_t i = r.in(0, (int)f.pts.size()); double y = r.in(-lab, lab); act("label of " + std::to_string(i) + " := " + str(y)); bool ok = d.updatePointValue(i, y);
                    check(ok == (i < f.pts.size()), "update label/accepted");
                    if (i < f.pts.size()) { f.pts[i].y = y; f.drop(); f.note(y); }
                } else if (r.in(0, 3) == 0) { act("clear"); d.clear(); f = Ref(); if (d.dim() != 0) fail("clear/dim", "dimension left " + std::to_string(d.dim())); }
                else { act("computeClassesDistribution"); d.computeClassesDistribution(); }
                cmp(d, f, updated ? "history" : "history");
            }
        }
    });
    section("constructor", [](Rng &r) {
        for (int n = 1; n < 12; n++) for (int m = 1; m < 6; m++) {
            double val = r.val(); input("Data(" + std::to_string(n) + "," + std::to_string(m) + "," + str(val) + ")"); D d(n, m, val);
            check(d.size() == (size_t)n && d.dim() == (size_t)m, "constructor/size");
            for (int i = 0; i < n; i++) { check(d.point(i)->Id() == (size_t)i + 1, "constructor/ids"); for (int k = 0; k < m; k++) check((*d.point(i))[k] == val, "constructor/components"); }
            if (n > 1) { (*d.point(0))[0] = val + 1; check((*d.point(1))[0] == val, "constructor/distinct points"); }
        }
    });
    section("labels of a regression set", [](Rng &r) {
        for (int it = 0; it < reps(200); it++) {
            int n = r.in(1, 12), m = r.in(1, 3); std::vector<Row> f; D d = dataset(r, n, m, {}, &f); d.setType("Regression"); input(strr(f));
            auto g = rows(d); for (int i = 0; i < n; i++) check(same(g[i], f[i]), "regression set/points"); P y = d.getLabels(); P y2 = d.labels();
            for (int i = 0; i < n; i++) { check(y[i] == f[i].y && y2[i] == f[i].y, "labels()"); }
            for (int k = 0; k < m; k++) { P q = d.getFeature(k); check(q.size() == (size_t)n, "getFeature/size"); for (int i = 0; i < n; i++) check(q[i] == f[i].x[k], "getFeature"); }
        }
    });
    return end();
}
