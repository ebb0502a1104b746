#include "h.hpp"
#include <ufjfmltk/core/Statistics.hpp>
using namespace hh;
using V = std::vector<double>;
static double sq(double x) { return x * x; }
static double mean(const V &a) { double s = 0; for (double x : a) s += x; return s / a.size(); }
static double ss(const V &a) { double m = mean(a), s = 0; for (double x : a) s += sq(x - m); return s; }
int main(int c, char **v) {
    begin(c, v);
    section("points", [](Rng &r) {
        for (int it = 0; it < reps(1500); it++) {
            int n = bigsz(r, 1, 9); V a = rvec(r, n), b = rvec(r, n); const P p = point(a), q = point(b);
            input("a=" + strv(a) + " b=" + strv(b));
            checkeq(mltk::stats::mean(p), mean(a), "mean of a point"); checkeq(mltk::stats::var(p), ss(a) / n, "variance of a point", 1e-8); checkeq(mltk::stats::std_dev(p), std::sqrt(ss(a) / n), "standard deviation of a point", 1e-7);
            checkeq(mltk::stats::mean(p * 2.0 - q), 2 * mean(a) - mean(b), "mean of an expression", 1e-8);
            if (n > 1) { double ma = mean(a), mb = mean(b), s = 0; for (int k = 0; k < n; k++) s += (a[k] - ma) * (b[k] - mb); checkeq(mltk::stats::covar(p, q), s / (n - 1), "covariance of two points", 1e-8); }
            check(p.X() == a && q.X() == b, "operands untouched");
        }
    });
    section("datasets", [](Rng &r) {
        for (int it = 0; it < reps(600); it++) {
            int n = bigsz(r, 1, 10), dim = bigsz(r, 1, 6); std::vector<Row> sp; D d = dataset(r, n, dim, {1, -1}, &sp);
            std::vector<int> names = d.getFeaturesNames();
            if (r.in(0, 2) == 0) { r.shuffle(names); d.setFeaturesNames(names); }
            input("names=" + strv(names) + " " + strr(sp));
            auto colv = [&](int j) { V x; for (auto &q : sp) x.push_back(q.x[j]); return x; };
            for (int f = 0; f < dim; f++) {
                V x = colv(f);
                checkeq(mltk::stats::mean(d, f), mean(x), "mean of a feature", 1e-8);
                checkeq(mltk::stats::std_dev(d, f), n == 1 ? 0 : std::sqrt(ss(x) / (n - 1)), "standard deviation of a feature", 1e-7);
            }
            for (int f = -1; f <= dim + 1; f++) {
                std::vector<V> cols; for (int j = 0; j < dim; j++) if (f < 0 || names[j] != f) cols.push_back(colv(j));
                double tot = 0; for (auto &x : cols) tot += ss(x);
                if (f >= 0) checkeq(mltk::stats::var(d, (size_t)f), tot / n, "total variance", 1e-8);
                double rad = 0, mxa = 0;
                for (int i = 0; i < n; i++) { double q = 0; for (auto &x : cols) { q += sq(x[i] - mean(x)); mxa = std::max(mxa, std::fabs(x[i])); } rad = std::max(rad, std::sqrt(q)); }
                checkeq(mltk::stats::radius(d, f, 2), rad, "radius (q = 2)", 1e-7); checkeq(mltk::stats::radius(d, f, 1), mxa, "radius (q = 1)");
                int np = 0, nn = 0; for (auto &q : sp) (q.y == 1 ? np : nn)++;
                if (np && nn) {
                    auto dist = [&](std::function<bool(int)> use) { double q = 0; for (int j = 0; j < dim; j++) if (use(names[j])) { double cp = 0, cn = 0; for (auto &w : sp) (w.y == 1 ? cp : cn) += w.x[j]; q += sq(cp / np - cn / nn); } return std::sqrt(q); };
                    checkeq(mltk::stats::distCenters(d, f), dist([&](int nm) { return f < 0 || nm != f; }), "distance of the class centres", 1e-7);
                    std::vector<int> ex; for (int j = 1; j <= dim; j++) if (r.in(0, 3) == 0) ex.push_back(j); r.shuffle(ex);
                    input("f=" + std::to_string(f) + " excluded=" + strv(ex) + " names=" + strv(names) + " " + strr(sp));
                    checkeq(mltk::stats::distCentersWithoutFeats(d, ex, f), dist([&](int nm) { return (f < 0 || nm != f) && std::find(ex.begin(), ex.end(), nm) == ex.end(); }), "distance of the class centres without features", 1e-7);
                }
            }
            sameds(d, sp, "dataset untouched");
        }
    });
    return end();
}
