#include "h.hpp"
#include <ufjfmltk/Classifier.hpp>
using namespace hh;
using PD = mltk::Point<double>; using KT = mltk::KernelType;
static std::vector<double> vec(const PD &p) { return p.X(); }
// every training point lies strictly on the side of its label
template <class M> static void separated(M &m, const std::vector<Row> &sp, const std::string &tag, double margin = 0) {
    for (auto &w : sp) { double f = m.evaluate(PD(w.x), true); if (!(w.y * f > margin - 1e-9 * (1 + std::fabs(f)))) { fail(tag + ": success means every training point is on its side", "value " + str(f) + " for label " + str(w.y)); return; } if ((w.y > 0 ? f > 1e-9 : f < -1e-9) && m.evaluate(PD(w.x)) != w.y) { fail(tag + ": success means every training point is predicted with its label", "value " + str(f)); return; } }
}
int main(int c, char **v) {
    begin(c, v);
    section("training", [](Rng &r) {
        for (int it = 0; it < reps(500); it++) {
            int n = bigsz(r, 2, 12, 50), dim = r.in(1, 3); bool sep = r.in(0, 3) != 0; std::vector<Row> sp; D d; d.setDim(dim);
            auto w = rvec(r, dim); double b = r.val(); double nw = 0; for (double e : w) nw += e * e; nw = std::sqrt(nw); if (nw < 0.5) { w[0] = 1; nw = 0; for (double e : w) nw += e * e; nw = std::sqrt(nw); }
            for (int i = 0, g = 0; i < n && g < 2000; g++) {
                auto x = rvec(r, dim); double f = b; for (int k = 0; k < dim; k++) f += w[k] * x[k]; double y = f > 0 ? 1 : -1; if (std::fabs(f) / nw < 0.5) continue; if (!sep) y = r.coin() ? 1 : -1;
                d.insertPoint(std::make_shared<P>(point(x, y))); sp.push_back({x, y, (size_t)++i});
            }
            if (sp.size() < 2) continue;
            double rate = r.in(1, 8) / 8.0; int its = sep ? 1000000000 : r.in(1, 60);
            input(std::string(sep ? "separable" : "any") + " rate=" + str(rate) + " its=" + std::to_string(its) + " " + strr(sp));
            auto conf = [&](auto &m) { m.setLearningRate(rate); m.setMaxIterations(its); m.setMaxEpochs(its); m.setMaxUpdates(sep ? 1000000000 : 400); m.setMaxTime(3); };
            { mltk::classifier::PerceptronPrimal<double> m(d, 2, rate); conf(m); bool ok = m.train(); if (ok) separated(m, sp, "perceptron"); if (sep) check(ok, "perceptron: separable data are separated");
              if (ok) { auto s = m.getSolution(); for (auto &q : sp) { double f = s.bias; for (int k = 0; k < dim; k++) f += s.w[k] * q.x[k]; if (!(q.y * f > 0)) { fail("perceptron: the solution separates", str(f)); break; } } double h = 0; for (double e : vec(s.w)) h += e * e; if (h > 0) checkeq(s.norm, std::sqrt(h), "perceptron: norm of the weights", 1e-7); } }
            { double g = r.coin() ? 0 : r.in(1, 8) / 16.0; int q = r.in(0, 3) == 0 ? 1 : r.in(0, 3) == 0 ? -1 : 2; mltk::classifier::PerceptronFixedMarginPrimal<double> m(d, g, q, rate); conf(m); if (g > 0) { m.setMaxIterations(3000); m.setMaxTime(1); } bool ok = m.train();
              if (ok) { auto s = m.getSolution(); double h = 0; if (g > 0) for (double e : vec(s.w)) h = q == 1 ? h + std::fabs(e) : q == 2 ? h + e * e : std::max(h, std::fabs(e)); if (q == 2) h = std::sqrt(h); if (g > 0 && h > 0) checkeq(s.norm, h, "fixed margin perceptron: norm of the weights", 1e-7); separated(m, sp, "fixed margin perceptron", g > 0 ? g * h * (1 - 1e-9) : 0); }
              if (sep && g == 0) check(ok, "fixed margin perceptron without margin: separable data are separated"); }
            { KT kt = r.in(0, 2) ? KT::INNER_PRODUCT : KT::GAUSSIAN; mltk::classifier::PerceptronDual<double> m(d, kt, 1, rate); conf(m); bool ok = m.train(); if (ok) separated(m, sp, "dual perceptron"); if (sep && kt == KT::INNER_PRODUCT) check(ok, "dual perceptron: separable data are separated"); }
            { mltk::classifier::PerceptronFixedMarginDual<double> m(d, KT::INNER_PRODUCT, 0, 0, rate); conf(m); bool ok = m.train(); if (ok) separated(m, sp, "fixed margin dual perceptron"); if (sep) check(ok, "fixed margin dual perceptron without margin: separable data are separated"); }
            { double g = r.in(1, 8) / 16.0; mltk::classifier::PerceptronFixedMarginDual<double> m(d, KT::INNER_PRODUCT, 0, g, rate); conf(m); m.setMaxIterations(2000); m.setMaxTime(1); bool ok = m.train(); if (ok) separated(m, sp, "fixed margin dual perceptron with a margin"); }
            { mltk::classifier::BalancedPerceptron<double> m(d, (size_t)r.in(1, 9)); conf(m); bool ok = m.train(); if (ok) { for (auto &q : sp) if (m.evaluate(PD(q.x), false) != q.y) { fail("balanced perceptron: success means every training point is predicted with its label", str(q.y)); break; } } if (sep) check(ok, "balanced perceptron: separable data are separated"); }
            sameds(d, sp, "dataset untouched");
        }
    }, 120);
    return end();
}
