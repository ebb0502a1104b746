#include "h.hpp"
#include <ufjfmltk/Classifier.hpp>
using namespace hh;
using PD = mltk::Point<double>;
struct Prim : mltk::classifier::PrimalClassifier<double> { bool train() override { return true; } };
struct Dual : mltk::classifier::DualClassifier<double> { bool train() override { return true; } };
static double kern(mltk::KernelType t, double p, const std::vector<double> &a, const std::vector<double> &b) {
    double s = 0, d = 0; for (size_t i = 0; i < a.size(); i++) { s += a[i] * b[i]; d += (a[i] - b[i]) * (a[i] - b[i]); }
    return t == mltk::KernelType::INNER_PRODUCT ? s : t == mltk::KernelType::POLYNOMIAL ? (p > 1 ? std::pow(s, p) : s) : std::exp(-d * p);
}
static bool clear(double f, double scale) { return f == 0 || std::fabs(f) > 1e-9 * scale; }    // the sign does not depend on rounding
int main(int c, char **v) {
    begin(c, v);
    section("primal", [](Rng &r) {
        for (int it = 0; it < reps(3000); it++) {
            int n = bigsz(r, 0, 9, 300); std::vector<double> w(n), x(n); bool grid = r.coin(); for (auto &e : w) e = grid ? r.in(-3, 3) : r.val(); for (auto &e : x) e = grid ? r.in(-3, 3) : r.val(); double b = r.in(0, 2) ? (grid ? r.in(-4, 4) : r.val()) : 0, y = r.in(-2, 2);
            input("w=" + strv(w) + " bias=" + str(b) + " x=" + strv(x));
            Prim m; mltk::Solution s; s.w = PD(w); s.bias = b; m.setSolution(s); PD p(x); p.Y() = y;
            double f = b, sc = std::fabs(b); for (int i = 0; i < n; i++) { f += w[i] * x[i]; sc += std::fabs(w[i] * x[i]); }
            if (clear(f, sc)) check(m.evaluate(p) == (f >= 0 ? 1 : -1), "primal: side of the hyperplane", "got " + str(m.evaluate(p)) + ", decision function " + str(f));
            checkeq(m.evaluate(p, true), f, "primal: raw value is the decision function", 1e-9 * std::max(1.0, sc));
            check(p.X() == x && p.Y() == y, "primal: point untouched"); check(m.getSolution().w.X() == w && m.getSolution().bias == b, "primal: model untouched");
        }
    });
    section("dual", [](Rng &r) {
        for (int it = 0; it < reps(1500); it++) {
            int n = bigsz(r, 1, 12, 80), dim = r.in(1, 4); std::vector<Row> sp; D d = dataset(r, n, dim, {-1, 1}, &sp); std::vector<double> al(n), x(dim); for (auto &e : al) switch (r.in(0, 4)) { case 0: e = 0; break; case 1: e = r.in(1, 9) * 1e-4; break; case 2: e = -r.in(0, 8) / 4.0; break; default: e = r.in(0, 8) / 4.0; } for (auto &e : x) e = r.val(); double b = r.coin() ? r.val() : 0;
            mltk::KernelType t = (mltk::KernelType)r.in(0, 2); double par = t == mltk::KernelType::POLYNOMIAL ? r.in(0, 3) : r.in(1, 8) / 8.0;
            input("kernel=" + std::to_string((int)t) + " param=" + str(par) + " alpha=" + strv(al) + " bias=" + str(b) + " x=" + strv(x) + " data " + strr(sp));
            mltk::Kernel<double> K(t, par); Dual m; m.setKernel(&K); m.setSamples(mltk::make_data<double>(d)); mltk::Solution s; s.alpha = al; s.bias = b; m.setSolution(s); PD p(x);
            double f = b, sc = std::fabs(b); for (int i = 0; i < n; i++) { double e = al[i] * sp[i].y * kern(t, par, x, sp[i].x); f += e; sc += std::fabs(e); }
            if (clear(f, sc)) check(m.evaluate(p) == (f >= 0 ? 1 : -1), "dual: sign of the kernel expansion", "got " + str(m.evaluate(p)) + ", decision function " + str(f));
            checkeq(m.evaluate(p, true), f, "dual: raw value is the decision function", 1e-9 * std::max(1.0, sc));
            check(p.X() == x, "dual: point untouched"); sameds(*m.getSamples(), sp, "dual: dataset untouched");
            auto &ds = *m.getSamples(); for (int i = 0; i < n; i++) ds[i]->Alpha() = al[i];
            auto w = m.getWeight(); check(w.size() == (size_t)dim, "getWeight: one weight per component"); for (int k = 0; k < dim && k < (int)w.size(); k++) { double e = 0; for (int i = 0; i < n; i++) e += al[i] * sp[i].y * sp[i].x[k]; checkeq(w[k], e, "getWeight: weights of the linear expansion"); }
            if (t == mltk::KernelType::INNER_PRODUCT) { auto q = m.getDualWeightProdInt(); for (int k = 0; k < dim; k++) { double e = 0; for (int i = 0; i < n; i++) e += al[i] * sp[i].y * sp[i].x[k]; checkeq(q[k], e * e, "getDualWeightProdInt: squared weights of the linear expansion", 1e-7); }
                auto q2 = m.getDualWeight(); for (int k = 0; k < dim; k++) { double e = 0; for (int i = 0; i < n; i++) e += al[i] * sp[i].y * sp[i].x[k]; checkeq(q2[k], e * e, "getDualWeight: squared weights of the linear expansion", 1e-7); } }
        }
    });
    return end();
}
