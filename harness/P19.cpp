#include "h.hpp"
#include <ufjfmltk/Regressor.hpp>
#include <ufjfmltk/regressor/LMS.hpp>
#include <ufjfmltk/regressor/Metrics.hpp>
using namespace hh;
using PD = mltk::Point<double>;
int main(int c, char **v) {
    begin(c, v);
    section("regression", [](Rng &r) {
        for (int it = 0; it < reps(1500); it++) {
            int n = bigsz(r, 1, 10, 40), dim = r.in(1, 3); std::vector<Row> sp; D d = dataset(r, n, dim, {}, &sp, false); double mx = 1; for (auto &w : sp) { double h = 1; for (double e : w.x) h += e * e; mx = std::max(mx, h); }
            double rate = r.in(1, 9) / 10.0 / mx; int its = r.in(1, 40);
            input("rate=" + str(rate) + " its=" + std::to_string(its) + " " + strr(sp));
            { mltk::regressor::LMSPrimal<double> m(d, rate); m.setMaxIterations(its); check(m.train(), "training succeeds"); auto s = m.getSolution();
              std::vector<double> w(dim, 0); double b = 0, old = 0; for (int q = 0; q < its; q++) { double cost = 0; for (auto &p : sp) { double f = b; for (int k = 0; k < dim; k++) f += p.x[k] * w[k]; double e = p.y - f; cost += e * e; for (int k = 0; k < dim; k++) w[k] += rate * e * p.x[k]; b += rate * e; } cost /= 2; if (std::fabs(cost - old) <= 1e-7) break; old = cost; }
              bool ok = s.w.size() == (size_t)dim && near(s.bias, b, 1e-7); for (int k = 0; k < dim && ok; k++) ok = near(s.w[k], w[k], 1e-7); check(ok, "least mean squares: weights and bias of the delta rule", "bias " + str(s.bias) + ", expected " + str(b));
              auto x = rvec(r, dim); double f = s.bias; for (int k = 0; k < dim; k++) f += s.w[k] * x[k]; for (bool raw : {false, true}) checkeq(m.evaluate(PD(x), raw), f, "evaluate: weights times features plus bias");
              check(near(m.evaluate(PD(x)), m.evaluate(PD(x))), "repeated evaluation"); }
            { // targets on a plane: the error vanishes
              auto w = rvec(r, dim); double b = r.val(); D e; e.setDim(dim); for (auto &p : sp) { double y = b; for (int k = 0; k < dim; k++) y += w[k] * p.x[k]; e.insertPoint(std::make_shared<P>(point(p.x, y))); }
              mltk::regressor::LMSPrimal<double> m(e, 0.5 / mx); m.setMaxIterations(4000); m.train(); double se = 0, so = 0; for (auto &p : rows(e)) { double q = m.evaluate(PD(p.x)); se += (q - p.y) * (q - p.y); so += p.y * p.y; } check(se <= 0.25 * so + 1e-6, "targets on a plane: the squared error falls", str(se) + " of " + str(so)); }
            { auto a = rvec(r, n), b = rvec(r, n); double s = 0; for (int k = 0; k < n; k++) s += (a[k] - b[k]) * (a[k] - b[k]); PD pa(a), pb(b); checkeq(mltk::metrics::MSE(pa, pb), s / n, "mean squared error"); check(pa.X() == a && pb.X() == b, "mean squared error leaves its arguments as they are"); }
            sameds(d, sp, "dataset untouched");
        }
    });
    return end();
}
