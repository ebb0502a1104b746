#include "h.hpp"
#include <ufjfmltk/Classifier.hpp>
#include <ufjfmltk/classifier/OneVsAll.hpp>
#include <ufjfmltk/classifier/OneVsOne.hpp>
using namespace hh;
using PD = mltk::Point<double>;
static std::vector<double> labels(Rng &r) { int k = r.in(2, 6); std::vector<double> l; while ((int)l.size() < k) { double y = r.in(-3, 8); if (std::find(l.begin(), l.end(), y) == l.end()) l.push_back(y); } return l; }
static int salt = 0;
// the value of a base learner depends on what it was trained on, coarse enough for ties
static double value(const std::vector<Row> &t, const std::vector<double> &x) { double h = salt; for (auto &w : t) h = std::fmod(h * 7 + w.id * 3 + (w.y + 2) * 11, 1009); for (double v : x) h += v * 5; return std::floor(std::fmod(std::fabs(h) * 3, 9)) / 2 - 2; }
static std::vector<std::vector<Row>> trained;
template <class T> struct Rec : mltk::classifier::PrimalClassifier<T> {
    std::vector<Row> seen;
    bool train() override { seen = rows(*this->samples); trained.push_back(seen); return true; }
    double evaluate(const mltk::Point<T> &p, bool raw = false) override { std::vector<double> x(p.size()); for (size_t i = 0; i < x.size(); i++) x[i] = p[i]; double v = value(seen, x); return raw ? v : v >= 0 ? 1 : -1; }
};
// the binary problem of class a against class b (all others when b is null), in the order of the dataset
static std::vector<Row> binary(const std::vector<Row> &sp, double a, const double *b) { std::vector<Row> t; for (auto w : sp) if (w.y == a || !b || w.y == *b) { w.y = w.y == a ? 1 : -1; t.push_back(w); } return t; }
int main(int c, char **v) {
    begin(c, v);
    section("multi-class", [](Rng &r) {
        for (int it = 0; it < reps(700); it++) {
            int n = bigsz(r, 2, 14, 60), dim = r.in(1, 3); auto lab = labels(r); std::vector<Row> sp; D d = dataset(r, n, dim, lab, &sp); auto cl = d.classes(); size_t m = cl.size(); if (m < 2) continue;
            std::vector<double> x(dim); for (auto &e : x) e = r.val(); PD p(x); salt = r.in(0, 500);
            input("salt=" + std::to_string(salt) + " x=" + strv(x) + " " + strr(sp));
            Rec<double> base;
            { trained.clear(); mltk::classifier::OneVsAll<double> o(d, base); o.train(); check(trained.size() == m, "one against all: one learner per class");
              std::vector<double> val; for (size_t i = 0; i < m; i++) { auto t = binary(sp, cl[i], nullptr); val.push_back(value(t, x)); if (i < trained.size()) check(bag(trained[i], true) == bag(t, true), "one against all: trained on the class against the others"); if (i < trained.size()) val[i] = value(trained[i], x); }
              double y = o.evaluate(p); size_t q = std::find(cl.begin(), cl.end(), (int)y) - cl.begin(); check(q < m && val[q] == *std::max_element(val.begin(), val.end()), "one against all: the class with the largest raw value", "got " + str(y) + " values " + strv(val));
              sameds(d, sp, "one against all: dataset untouched"); }
            { trained.clear(); mltk::classifier::OneVsOne<double> o(d, base); o.train(); check(trained.size() == m * (m - 1), "one against one: one learner per pair of classes");
              std::vector<double> votes(m); size_t k = 0;
              for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) if (i != j) { double b = cl[j]; auto t = binary(sp, cl[i], &b); if (k < trained.size()) { check(bag(trained[k], true) == bag(t, true), "one against one: trained on the points of the two classes"); t = trained[k]; } k++; votes[value(t, x) >= 0 ? i : j]++; }
              double y = o.evaluate(p); size_t q = std::find(cl.begin(), cl.end(), (int)y) - cl.begin(); check(q < m && votes[q] == *std::max_element(votes.begin(), votes.end()), "one against one: the class with the most votes", "got " + str(y) + " votes " + strv(votes));
              sameds(d, sp, "one against one: dataset untouched"); }
            check(p.X() == x, "point untouched");
        }
    });
    return end();
}
