#include "h.hpp"
#include <ufjfmltk/core/DistanceMetric.hpp>
#include <ufjfmltk/core/DistanceMatrix.hpp>
using namespace hh;
namespace dd = mltk::metrics::dist;
using V = std::vector<double>;
template <class F> static double S(const V &a, const V &b, F f) { double s = 0; for (size_t k = 0; k < a.size(); k++) s += f(a[k], b[k]); return s; }
#define SUM(E) S(a, b, [](double x, double y) -> double { (void)x; (void)y; return E; })
#define T(N, E) { dd::N<double> m; input(std::string(#N) + " a=" + strv(a) + " b=" + strv(b)); double want = E; checkeq(m(p, q), want, #N ": definition", 1e-7); }
#define SYM(N) { dd::N<double> m; input(std::string(#N) + " a=" + strv(a) + " b=" + strv(b)); checkeq(m(p, q), m(q, p), #N ": symmetric"); check(m(p, q) >= -1e-9, #N ": never negative"); if (nz(a)) check(std::fabs(m(p, p)) < 1e-9, #N ": zero between equal points"); }
static bool nz(const V &a) { for (double x : a) if (x == 0) return false; return true; }
static double has(double x, double y) { double l = std::min(x, y), h = std::max(x, y); return l >= 0 ? 1 - (1 + l) / (1 + h) : 1 - 1 / (1 + h - l); }
static double sq(double x) { return x * x; }
int main(int c, char **v) {
    begin(c, v);
    section("general", [](Rng &r) {
        for (int it = 0; it < reps(1500); it++) {
            int n = bigsz(r, 1, 7); V a = rvec(r, n), b = rvec(r, n); if (r.in(0, 4) == 0) b[0] = a[0];
            for (int k = 0; k < n; k++) if (a[k] == 0 && b[k] == 0) a[k] = 1;
            const P p = point(a), q = point(b);
            double mxd = 0; for (int k = 0; k < n; k++) mxd = std::max(mxd, std::fabs(a[k] - b[k]));
            double l1 = SUM(std::fabs(x - y)), l2 = SUM((x - y) * (x - y)), xx = SUM(x * x), yy = SUM(y * y), xy = SUM(x * y), s = SUM(x + y);
            T(Euclidean, std::sqrt(l2)) T(Manhattan, l1) T(Chebyshev, mxd) T(Lorentzian, SUM(std::log(1 + std::fabs(x - y)))) T(Canberra, SUM(std::fabs(x - y) / (std::fabs(x) + std::fabs(y))))
            if (std::fabs(s) > 1e-3) T(Sorensen, l1 / s)
            T(AvgManhattan, l1 / n) T(NonIntersection, l1 / 2) T(SquaredEuclidean, l2) T(Average, std::sqrt(l2 / n)) T(AverageL1Linf, (l1 + mxd) / 2)
            if (std::fabs(xx + yy - xy) > 1e-3) T(Jaccard, l2 / (xx + yy - xy))
            if (xx > 1e-3 && yy > 1e-3) { T(Cosine, 1 - xy / (std::sqrt(xx) * std::sqrt(yy))) T(Dice, 1 - 2 * xy / (xx + yy)) }
            T(Clark, std::sqrt(SUM(sq((x - y) / (std::fabs(x) + std::fabs(y))))))
            T(Hassanat, SUM(has(x, y)))
            bool ok = true; for (int k = 0; k < n; k++) ok = ok && std::fabs(a[k] + b[k]) > 1e-2;
            if (ok) { T(SquaredChiSquared, SUM(sq(x - y) / std::fabs(x + y))) SYM(SquaredChiSquared) }
            SYM(Euclidean) SYM(Manhattan) SYM(Chebyshev) SYM(Lorentzian) SYM(Clark) SYM(Canberra) SYM(NonIntersection) SYM(AvgManhattan) SYM(SquaredEuclidean) SYM(Average) SYM(AverageL1Linf) SYM(Hassanat)
            if (a != b) { dd::Euclidean<double> e; dd::Manhattan<double> m; dd::Chebyshev<double> h; dd::Hassanat<double> ha; dd::Lorentzian<double> lo; input("a=" + strv(a) + " b=" + strv(b)); check(e(p, q) > 0 && m(p, q) > 0 && h(p, q) > 0 && ha(p, q) > 0 && lo(p, q) > 0, "positive between different points"); }
        }
    });
    section("positive components", [](Rng &r) {
        for (int it = 0; it < reps(1500); it++) {
            int n = bigsz(r, 1, 7); V a(n), b(n); for (auto &x : a) x = r.coin() ? r.in(1, 4) : r.real(0.05, 5); for (auto &x : b) x = r.coin() ? r.in(1, 4) : r.real(0.05, 5);
            const P p = point(a), q = point(b);
            double sc = SUM(sq(std::sqrt(x) - std::sqrt(y)));
            T(Bhattacharyya, -std::log(SUM(std::sqrt(x * y)))) T(SquaredChord, sc) T(Matusita, std::sqrt(sc)) T(Hellinger, std::sqrt(2 * sc))
            T(Neyman, SUM(sq(x - y) / x)) T(Pearson, SUM(sq(x - y) / y)) T(Squared, SUM(sq(x - y) / (x + y))) T(ProbabilisticSymmetric, 2 * SUM(sq(x - y) / (x + y)))
            T(Divergence, 2 * SUM(sq(x - y) / sq(x + y))) T(AdditiveSymmetric, 2 * SUM(sq(x - y) * (x + y) / (x * y)))
            T(KullbackLeibler, SUM(x * std::log(x / y))) T(Jeffreys, SUM((x - y) * std::log(x / y))) T(KDivergence, SUM(x * std::log(2 * x / (x + y))))
            double to = SUM(x * std::log(2 * x / (x + y))) + SUM(y * std::log(2 * y / (x + y)));
            T(Topsoe, to) T(JensenShannon, to / 2) T(JensenDifference, SUM((x * std::log(x) + y * std::log(y)) / 2 - (x + y) / 2 * std::log((x + y) / 2)) / 2)
            T(MaxSymmetric, std::max(SUM(sq(x - y) / x), SUM(sq(x - y) / y))) T(MinSymmetric, std::min(SUM(sq(x - y) / x), SUM(sq(x - y) / y)))
            T(KumarJohnson, SUM(sq(x * x + y * y) / (2 * std::pow(x * y, 1.5)))) T(Taneja, SUM((x + y) / 2 * std::log((x + y) / (2 * std::sqrt(x * y)))))
            SYM(SquaredChord) SYM(Matusita) SYM(Hellinger) SYM(Squared) SYM(ProbabilisticSymmetric) SYM(Divergence) SYM(AdditiveSymmetric) SYM(JensenDifference) SYM(Topsoe) SYM(JensenShannon) SYM(Jeffreys)
        }
    });
    section("distance matrix", [](Rng &r) {
        for (int it = 0; it < reps(60, 5); it++) {
            int n = r.in(1, 12), dim = r.in(1, 4); std::vector<Row> sp; D d = dataset(r, n, dim, {1, -1}, &sp); bool diag = r.coin(); size_t th = r.in(1, 4);
            if (r.coin()) { std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i; r.shuffle(ord); D e; for (int i : ord) e.insertPoint(d[i], true); d = e; }   // identifiers out of order
            input("n=" + std::to_string(n) + " diag=" + std::to_string(diag) + " threads=" + std::to_string(th) + " " + strr(sp));
            dd::DistanceMatrix<dd::Euclidean<double>> m(d, diag, th);
            check(m.size() == (size_t)n && m.isDiagonalMatrix() == diag, "distance matrix: size");
            for (int i = 0; i < n; i++) for (int j = 0; j < (diag ? i + 1 : n); j++) { double q = 0; for (int k = 0; k < dim; k++) q += sq(sp[i].x[k] - sp[j].x[k]); checkeq(m[i][j], std::sqrt(q), "distance matrix: entry"); }
        }
    });
    return end();
}
