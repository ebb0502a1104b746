#include "h.hpp"
#include <ufjfmltk/Classifier.hpp>
#include <ufjfmltk/Regressor.hpp>
#include <ufjfmltk/core/DistanceMatrix.hpp>
using namespace hh;
namespace dd = mltk::metrics::dist;
using PD = mltk::Point<double>;
static std::vector<double> labels(Rng &r) { int k = r.in(1, 6); std::vector<double> l; while ((int)l.size() < k) { double y = r.in(-3, 8); if (std::find(l.begin(), l.end(), y) == l.end()) l.push_back(y); } return l; }
// the k nearest points are those nearer than the k-th smallest distance and any choice among those at exactly that distance
struct Near { std::vector<int> sure, tie; int slots; };
static Near nearest(const std::vector<double> &ds, int k) {
    auto s = ds; std::sort(s.begin(), s.end()); double t = s[k - 1]; Near n; n.slots = k;
    for (size_t i = 0; i < ds.size(); i++) if (ds[i] < t) { n.sure.push_back(i); n.slots--; } else if (ds[i] == t) n.tie.push_back(i);
    return n;
}
// c can be a most frequent class for some choice among the ties
static bool admissible(const Near &n, const std::vector<Row> &sp, double c) {
    std::map<double, int> base, tie; for (int i : n.sure) base[sp[i].y]++; for (int i : n.tie) tie[sp[i].y]++;
    int x = std::min(tie[c], n.slots), v = base[c] + x, room = 0;
    for (auto &kv : base) if (kv.second > v) return false;
    for (auto &kv : tie) if (kv.first != c) room += std::min(kv.second, v - base[kv.first]);
    return room >= n.slots - x;
}
template <class F> static void run(Rng &r, const char *name) {
    for (int it = 0; it < reps(700); it++) {
        int n = bigsz(r, 1, 14, 150), dim = r.in(1, 3), k = r.in(1, std::min(n, r.coin() ? 5 : n)); auto lab = labels(r);
        std::vector<Row> sp; D d = dataset(r, n, dim, lab, &sp);
        std::vector<double> x(dim); for (auto &e : x) e = r.val(); if (r.coin()) x = sp[r.in(0, n - 1)].x;
        PD p(x); F f; std::vector<double> ds(n); for (int i = 0; i < n; i++) ds[i] = f(p, *d[i]);
        input(std::string(name) + " k=" + std::to_string(k) + " x=" + strv(x) + " " + strr(sp));
        Near ne = nearest(ds, k);
        { mltk::classifier::KNNClassifier<double, F> c(d, k); c.train(); double y = c.evaluate(p);
          check(admissible(ne, sp, y), "KNN classifier: most frequent class of the k nearest points", "got " + str(y)); check(c.evaluate(p) == y, "KNN classifier: repeated evaluation");
          sameds(*c.getSamples(), sp, "KNN classifier: dataset untouched"); check(p.X() == x, "KNN classifier: point untouched");
          mltk::classifier::KNNClassifier<double, F> q(k); q.setSamples(d); check(admissible(ne, sp, q.evaluate(p)), "KNN classifier: most frequent class of the k nearest points, samples set later"); }
        { std::vector<double> yr(n); D e; std::vector<Row> se = sp; for (int i = 0; i < n; i++) { auto q = mltk::make_point<double>(*d[i]); q->Y() = yr[i] = se[i].y = r.in(-40, 40) / 4.0; e.insertPoint(q); } e.setType("Regression");
          mltk::regressor::KNNRegressor<double, F> g(e, k); g.train(); double y = g.evaluate(p) * k, base = 0, lo, hi; std::vector<double> t; for (int i : ne.sure) base += yr[i]; for (int i : ne.tie) t.push_back(yr[i]);
          bool ok = false;
          if (t.size() <= 10) { for (int m = 0; m < (1 << t.size()) && !ok; m++) if (__builtin_popcount(m) == ne.slots) { double s = base; for (size_t i = 0; i < t.size(); i++) if (m >> i & 1) s += t[i]; ok = near(s, y, 1e-9); } }
          else { std::sort(t.begin(), t.end()); lo = hi = base; for (int i = 0; i < ne.slots; i++) { lo += t[i]; hi += t[t.size() - 1 - i]; } ok = y >= lo - 1e-9 && y <= hi + 1e-9; }
          check(ok, "KNN regressor: mean of the values of the k nearest points", "got " + str(y / k)); }
        // distances computed beforehand: the evaluated point is a point of the dataset
        { bool diag = r.coin(); std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i; if (r.coin()) r.shuffle(ord); D e; std::vector<Row> se; for (int i : ord) { e.insertPoint(d[i], true); se.push_back(sp[i]); }
          input(std::string(name) + (diag ? " diagonal matrix" : " matrix") + " k=" + std::to_string(k) + " " + strr(se));
          dd::DistanceMatrix<F> m(e, diag, r.in(1, 3)); mltk::classifier::KNNClassifier<double, F> c(e, k); c.setPrecomputedDistances(m);
          for (int q = 0; q < 3; q++) { int j = r.in(0, n - 1); for (int i = 0; i < n; i++) ds[i] = i == j ? 0 : f(*e[j], *e[i]); check(admissible(nearest(ds, k), se, c.evaluate(*e[j])), "KNN classifier: most frequent class with computed distances", "point " + std::to_string(j)); } }
    }
}
int main(int c, char **v) {
    begin(c, v);
    section("euclidean", [](Rng &r) { run<dd::Euclidean<double>>(r, "Euclidean"); });
    section("manhattan", [](Rng &r) { run<dd::Manhattan<double>>(r, "Manhattan"); });
    section("chebyshev", [](Rng &r) { run<dd::Chebyshev<double>>(r, "Chebyshev"); });
    return end();
}
