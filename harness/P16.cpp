#include "h.hpp"
#include <ufjfmltk/Ensemble.hpp>
using namespace hh;
using PD = mltk::Point<double>;
static std::vector<double> labels(Rng &r) { int k = r.in(1, 6); std::vector<double> l; while ((int)l.size() < k) { double y = r.in(-3, 8); if (std::find(l.begin(), l.end(), y) == l.end()) l.push_back(y); } return l; }
static std::vector<int> trains; static std::vector<std::vector<Row>> seen;
struct Fixed : mltk::classifier::PrimalClassifier<double> {     // answers a fixed class
    double y; int id;
    Fixed(double y, int id) : y(y), id(id) {}
    bool train() override { trains.push_back(id); seen.push_back(rows(*this->samples)); return true; }
    double evaluate(const PD &, bool = false) override { return y; }
};
using V = mltk::ensemble::VotingClassifier<double>;
static std::unique_ptr<V> make(D &d, const std::string &t, const std::vector<double> &a) {
    std::vector<mltk::LearnerPointer<double>> l; for (size_t i = 0; i < a.size(); i++) l.push_back(std::make_shared<Fixed>(a[i], (int)i));
    auto v = std::make_unique<V>(d, t); v->setLearners(l); return v;
}
int main(int c, char **v) {
    begin(c, v);
    section("votes", [](Rng &r) {
        for (int it = 0; it < reps(2000); it++) {
            int n = bigsz(r, 1, 8, 40), dim = r.in(1, 3), L = bigsz(r, 1, 7, 40); auto lab = labels(r); std::vector<Row> sp; D d = dataset(r, n, dim, lab, &sp); auto cl = d.classes();
            std::vector<double> ans, w; for (int i = 0; i < L; i++) { ans.push_back(cl[r.in(0, (int)cl.size() - 1)]); w.push_back(r.in(0, 8) / 4.0); } bool soft = r.coin();
            input(std::string(soft ? "soft" : "hard") + " answers=" + strv(ans) + " weights=" + strv(w) + " classes=" + strv(cl));
            auto e = make(d, soft ? "soft" : "hard", ans); trains.clear(); seen.clear(); e->train(); check((int)trains.size() == L && std::set<int>(trains.begin(), trains.end()).size() == (size_t)L, "every learner is trained once"); for (auto &s : seen) check(bag(s, true) == bag(sp, true), "learners are trained on the dataset");
            bool set = soft || r.coin(); if (set) e->setWeights(w); std::vector<double> use = soft ? w : std::vector<double>(L, 1);
            auto ok = [&](double y) { std::map<double, double> t; for (int q : cl) t[q] = 0; for (int i = 0; i < L; i++) t[ans[i]] += use[i]; if (!t.count(y)) return false; for (auto &kv : t) if (kv.second > t[y] + 1e-9) return false; return true; };
            PD p(dim, 1.0); double y = e->evaluate(p); check(ok(y), soft ? "soft vote: the class with the largest sum of weights" : "hard vote: the most frequent answer", "got " + str(y)); check(e->evaluate(p) == y, "repeated evaluation");
            if (soft) { check(e->getWeights().X() == w, "weights are those set"); e->setVotingType("hard"); use.assign(L, 1); y = e->evaluate(p); check(ok(y), "voting type changed to hard", "got " + str(y)); }
            else { if (!set) e->setWeights(w); else check(e->getWeights().X() == w, "a hard vote leaves the weights as set"); e->setVotingType("soft"); use = w; y = e->evaluate(p); check(ok(y), "voting type changed to soft", "got " + str(y)); }
            sameds(d, sp, "dataset untouched");
        }
    });
    return end();
}
