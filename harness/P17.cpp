#include "h.hpp"
#include <ufjfmltk/Clusterer.hpp>
using namespace hh;
using PD = mltk::Point<double>;
struct K : mltk::clusterer::KMeans<double> {
    using B = mltk::clusterer::KMeans<double>; using B::B; using B::m_centers; using B::m_clusters; using B::samples;
};
using C = std::vector<std::vector<double>>; using L = std::vector<std::vector<size_t>>;
static double d2(const std::vector<double> &a, const std::vector<double> &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
static C centers(K &k) { C c; for (auto &p : k.centers()) c.push_back(p.X()); return c; }
static L lists(const std::vector<mltk::Point<size_t>> &v) { L l; for (auto &q : v) l.push_back(q.X()); return l; }
// every position in exactly one list, of a nearest centre
static void nearest(const L &l, const C &c, const std::vector<Row> &sp, const std::string &tag) {
    std::vector<int> in(sp.size(), 0); if (l.size() != c.size()) { fail(tag + ": one list per centre", std::to_string(l.size())); return; }
    for (size_t q = 0; q < l.size(); q++) for (size_t i : l[q]) {
        if (i >= sp.size()) { fail(tag + ": positions of points", std::to_string(i)); return; }
        in[i]++; for (auto &e : c) if (d2(e, sp[i].x) < d2(c[q], sp[i].x) - 1e-9) { fail(tag + ": listed with the nearest centre", "point " + std::to_string(i + 1) + " in list " + std::to_string(q)); break; }
    }
    for (int q : in) if (q != 1) { fail(tag + ": every point in exactly one list", std::to_string(q)); break; }
}
static double cost(const C &c, const std::vector<Row> &sp) { double s = 0; for (auto &w : sp) { double b = 1e300; for (auto &e : c) b = std::min(b, d2(e, w.x)); s += b; } return s; }
static C means(const L &l, const C &old, const std::vector<Row> &sp) {
    C c = old; for (size_t q = 0; q < l.size(); q++) if (!l[q].empty()) { std::vector<double> m(old[q].size(), 0); for (size_t i : l[q]) for (size_t k = 0; k < m.size(); k++) m[k] += sp[i].x[k]; for (auto &e : m) e /= l[q].size(); c[q] = m; } return c;
}
static bool close(const C &a, const C &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return false; for (size_t k = 0; k < a[i].size(); k++) if (!near(a[i][k], b[i][k], 1e-7)) return false; } return true; }
int main(int c, char **v) {
    begin(c, v);
    section("k-means", [](Rng &r) {
        for (int it = 0; it < reps(1500); it++) {
            int n = bigsz(r, 1, 12, 60), dim = r.in(1, 3), k = r.in(1, std::min(n, 5)); std::vector<Row> sp; D d = dataset(r, n, dim, {}, &sp, false); bool pp = r.coin(); int seed = r.in(0, 50);
            input(std::string(pp ? "kmeanspp" : "random") + " k=" + std::to_string(k) + " seed=" + std::to_string(seed) + " " + strr(sp));
            K m(d, k, pp ? "kmeanspp" : "random", seed);
            // one step from arbitrary centres
            C c0; for (int q = 0; q < k; q++) { c0.push_back(rvec(r, dim)); m.m_centers[q] = c0[q]; m.m_clusters[q].clear(); }
            checkeq(m.assign_clusters(m.samples->points()), cost(c0, sp), "assignment: sum of the squared distances to the nearest centres", 1e-7);
            L l = lists(m.m_clusters); nearest(l, c0, sp, "assignment");
            check(centers(m) == c0, "assignment leaves the centres as they are"); m.compute_centers();
            C c1 = centers(m); check(close(c1, means(l, c0, sp)), "a centre is the mean of the points of its cluster"); check(cost(c1, sp) <= cost(c0, sp) + 1e-6, "a step does not increase the cost");
            auto x = rvec(r, dim); PD p(x); size_t e = (size_t)m.evaluate(p); bool ok = e < c1.size(); if (ok) for (auto &q : c1) ok = ok && d2(c1[e], x) <= d2(q, x) + 1e-9; check(ok, "evaluation: the nearest centre", "got " + std::to_string(e));
            for (int rep = 0; rep < 2; rep++) nearest(lists(m.clusters()), c1, sp, "clusters()");
            check(centers(m) == c1, "listing the clusters leaves the centres as they are");
            // training
            K t(d, k, pp ? "kmeanspp" : "random", seed); check(t.train(), "training succeeds"); C ct = centers(t);
            check(ct.size() == (size_t)k, "as many centres as asked for"); bool box = true; for (auto &q : ct) for (int j = 0; j < dim; j++) { double lo = 1e300, hi = -1e300; for (auto &w : sp) lo = std::min(lo, w.x[j]), hi = std::max(hi, w.x[j]); box = box && q[j] >= lo - 1e-9 && q[j] <= hi + 1e-9; } check(box, "trained centres lie among the points");
            nearest(lists(t.clusters()), ct, sp, "clusters() of the trained clusterer");
            if (k == 1) check(close(ct, means(lists(t.clusters()), ct, sp)), "one cluster: the mean of all points");
            sameds(d, sp, "dataset untouched");
        }
    });
    return end();
}
