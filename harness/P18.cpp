#include "h.hpp"
#include <ufjfmltk/valid/Validation.hpp>
using namespace hh;
using mltk::validation::TrainTestPair;
static bool described(const D &d, const std::string &tag) {
    auto rs = rows(d); auto cl = d.classes(); auto n = d.classesDistribution();
    if (d.size() != rs.size()) return fail(tag, "size() differs from the number of points");
    if (std::set<int>(cl.begin(), cl.end()).size() != cl.size()) return fail(tag, "a class is listed twice");
    if (n.size() != cl.size()) return fail(tag, "one count per class");
    for (size_t k = 0; k < cl.size(); k++) { size_t q = 0; for (auto &w : rs) q += w.y == cl[k]; if (n[k] != q) return fail(tag, "count of class " + std::to_string(cl[k])); }
    for (auto &w : rs) if (std::find(cl.begin(), cl.end(), (int)w.y) == cl.end()) return fail(tag, "label not listed");
    return true;
}
static std::map<double, int> per(const std::vector<Row> &v) { std::map<double, int> m; for (auto &w : v) m[w.y]++; return m; }
static void balanced(const std::vector<std::vector<Row>> &parts, const std::vector<Row> &all, bool strat, const std::string &tag) {
    size_t lo = 1e9, hi = 0; for (auto &p : parts) { lo = std::min(lo, p.size()); hi = std::max(hi, p.size()); }
    if (!strat) check(hi - lo <= 1, tag + ": part sizes differ by at most one", "sizes from " + std::to_string(lo) + " to " + std::to_string(hi));
    if (strat) for (auto &kv : per(all)) { int a = 1e9, b = 0; for (auto &p : parts) { int q = per(p)[kv.first]; a = std::min(a, q); b = std::max(b, q); } check(b - a <= 1, tag + ": class counts of the parts differ by at most one", "class " + str(kv.first)); }
}
static std::vector<double> labels(Rng &r) { int k = r.in(1, 6); std::vector<double> l; while ((int)l.size() < k) { double y = r.in(-3, 8); if (std::find(l.begin(), l.end(), y) == l.end()) l.push_back(y); } return l; }
// a classifier whose behaviour is known: predicts a fixed function of the point, and records what it was trained and asked on
struct Log { std::vector<std::vector<Row>> train, asked; };
static double guess(const std::vector<double> &lab, const std::vector<double> &x, int salt) { double h = salt; for (double v : x) h = h * 31 + v * 7; long k = (long)std::floor(std::fabs(h) * 4); return lab[k % (long)lab.size()]; }
template <class Base> struct Stub : Base {
    std::vector<double> lab; Log *log; int salt; bool ok;
    Stub(std::vector<double> l, Log *g, int s, bool o) : lab(l), log(g), salt(s), ok(o) {}
    bool train() override { log->train.push_back(this->samples ? rows(*this->samples) : std::vector<Row>()); log->asked.push_back({}); return ok; }
    double evaluate(const mltk::Point<double> &p, bool raw = false) override { auto w = rowOf(p); if (log->asked.empty()) log->asked.push_back({}); log->asked.back().push_back(w); return guess(lab, w.x, salt); }
};
using SP = Stub<mltk::classifier::PrimalClassifier<double>>; using SD = Stub<mltk::classifier::DualClassifier<double>>;
static bool emptyTest(const std::vector<Row> &sp, int k, bool strat) { if (!strat) return (int)sp.size() < k; int m = 0; for (auto &kv : per(sp)) m = std::max(m, kv.second); return m < k; }
struct Exp { double err = 0; size_t fp = 0, fn = 0, tp = 0, tn = 0; };
static Exp folds(const Log &g, size_t from, int k, const std::vector<Row> &sp, const std::vector<double> &lab, int salt, bool strat, const std::string &tag, bool dual) {
    Exp e; std::vector<Row> asked; std::vector<std::vector<Row>> parts;
    for (size_t q = from; q < from + k && q < g.train.size(); q++) {
        auto &t = g.train[q], &a = g.asked[q]; parts.push_back(a); asked = asked + a;
        if (dual && bag(t, true) == bag(sp, true)) fail("cross validation of a dual classifier trains on the test fold", "trained on all " + std::to_string(t.size()) + " points, asked on " + std::to_string(a.size()) + " of them");
        else check(bag(t + a, true) == bag(sp, true), tag + ": trained on the points outside the test fold, asked on the fold");
        size_t w = 0; for (auto &x : a) { bool bad = guess(lab, x.x, salt) != x.y; w += bad; if (x.y == -1) (bad ? e.fp : e.tn)++; else (bad ? e.fn : e.tp)++; }
        e.err += 100.0 * w / a.size();
    }
    check(bag(asked, true) == bag(sp, true), tag + ": every point is tested once"); balanced(parts, sp, strat, tag);
    e.err /= k; return e;
}
template <class S> static void crossval(Rng &r) {
    const bool dual = std::is_same<S, SD>::value;
    for (int it = 0; it < reps(150); it++) {
        int n = bigsz(r, 4, 24, 60), dim = r.in(1, 3), k = r.in(2, 6); auto lab = r.coin() ? std::vector<double>{-1, 1} : labels(r);
        std::vector<Row> sp; D d = dataset(r, n, dim, lab, &sp); bool strat = r.coin(); size_t seed = r.in(1, 500); int salt = r.in(0, 9);
        auto cl = d.classes(); std::vector<double> pl(cl.begin(), cl.end());
        if (emptyTest(sp, k, strat)) continue;
        input("folds=" + std::to_string(k) + " strat=" + std::to_string(strat) + " seed=" + std::to_string(seed) + " salt=" + std::to_string(salt) + " " + strr(sp));
        { Log g; S c(pl, &g, salt, r.coin()); auto rep = mltk::validation::kfold<double>(d, c, (size_t)k, strat, seed, 0);
          if (!check(g.train.size() == (size_t)k, "kfold: one training per fold")) continue;
          Exp e = folds(g, 0, k, sp, pl, salt, strat, "kfold", dual); checkeq(rep.error, e.err, "kfold: error is the mean percentage of wrong predictions per fold"); checkeq(rep.accuracy, 100 - e.err, "kfold: accuracy");
          if (cl.size() == 2) { check(rep.falseNegative == e.fn && rep.truePositive == e.tp && rep.falsePositive == e.fp && rep.trueNegative == e.tn, "kfold: counts of right and wrong predictions",
              "tp " + std::to_string(rep.truePositive) + "/" + std::to_string(e.tp) + " tn " + std::to_string(rep.trueNegative) + "/" + std::to_string(e.tn) + " fp " + std::to_string(rep.falsePositive) + "/" + std::to_string(e.fp) + " fn " + std::to_string(rep.falseNegative) + "/" + std::to_string(e.fn)); } }
        { Log g; S c(pl, &g, salt, r.coin()); int q = r.in(1, 3); auto rep = mltk::validation::kkfold<double>(d, c, (size_t)q, (size_t)k, strat, seed, 0);
          if (!check(g.train.size() == (size_t)(k * q + 1), "kkfold: one training per fold and execution and a final one")) continue;
          double err = 0; for (int e = 0; e < q; e++) err += folds(g, e * k, k, sp, pl, salt, strat, "kkfold", dual).err;
          if (dual && bag(g.train.back(), true) == bag(sp, true)) fail("cross validation of a dual classifier trains on the test fold", "final validation of kkfold");
          else check(bag(g.train.back() + g.asked.back(), true) == bag(sp, true), "kkfold: final validation is trained on the points it is not asked");
          checkeq(rep.error, err / q, "kkfold: error is the mean over the executions"); checkeq(rep.accuracy, 100 - err / q, "kkfold: accuracy"); }
        sameds(d, sp, "cross validation leaves the dataset untouched");
    }
}
static void derivedOf(const mltk::validation::ValidationReport &f, const std::string &t) {
    double tp = f.tp, tn = f.tn, fp = f.fp, fn = f.fn;
    if (tp + fn > 0) { checkeq(f.sensitivity, tp / (tp + fn), t + ": sensitivity"); checkeq(f.recall, tp / (tp + fn), t + ": recall"); }
    if (tn + fp > 0) checkeq(f.specificity, tn / (tn + fp), t + ": specificity");
    if (tp + fp > 0) checkeq(f.precision, tp / (tp + fp), t + ": precision");
    if (tp > 0) checkeq(f.fscore, 2 * tp / (2 * tp + fp + fn), t + ": F1");
}
static void measures(Rng &r) {
    for (int it = 0; it < reps(400); it++) {
        int n = bigsz(r, 1, 20, 200), dim = r.in(1, 3); auto lab = labels(r); std::vector<Row> sp; D d = dataset(r, n, dim, lab, &sp); auto cl = d.classes(); std::vector<double> pl(cl.begin(), cl.end()); int salt = r.in(0, 9); size_t m = cl.size();
        input("salt=" + std::to_string(salt) + " " + strr(sp));
        Log g; SP c(pl, &g, salt, true);
        auto cm = mltk::validation::generateConfusionMatrix<double>(d, c); std::vector<std::vector<size_t>> want(m, std::vector<size_t>(m, 0)); size_t ok = 0;
        auto pos = [&](double y) { return std::find(cl.begin(), cl.end(), (int)y) - cl.begin(); };
        for (auto &w : sp) { double p = guess(pl, w.x, salt); want[pos(w.y)][pos(p)]++; ok += p == w.y; }
        check(cm == want, "confusion matrix: rows are true labels, columns predictions");
        checkeq(mltk::validation::confusionMatrixAccuracy(want), 100.0 * ok / n, "accuracy of a confusion matrix");
        checkeq(mltk::validation::accuracy(d, c), (double)ok / n, "accuracy"); size_t t0 = g.train.size(); mltk::validation::accuracy(d, c, false); check(g.train.size() == t0 + 1, "accuracy: trains an untrained model");
        { struct Off : SP { using SP::SP; double evaluate(const mltk::Point<double> &p, bool raw = false) override { double v = SP::evaluate(p, raw); return p[0] < 0 ? v + 0.25 : v; } };    // predictions off the labels
          Off o(pl, &g, salt, true); size_t right = 0; for (auto &w : sp) right += guess(pl, w.x, salt) + (w.x[0] < 0 ? 0.25 : 0) == w.y; checkeq(mltk::validation::accuracy(d, o), (double)right / n, "accuracy of real valued predictions"); }
        auto be = c.batchEvaluate(d); check(be.size() == (size_t)n, "batchEvaluate: one prediction per point"); for (int i = 0; i < n && i < (int)be.size(); i++) check(be[i] == guess(pl, sp[i].x, salt), "batchEvaluate: prediction of each point in order");
        std::vector<int> pos_l; for (auto y : cl) if (r.coin()) pos_l.push_back(y); r.shuffle(pos_l);
        size_t tp = 0, tn = 0, fp = 0, fn = 0; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) { bool p = pos_l.empty() || std::find(pos_l.begin(), pos_l.end(), cl[i]) != pos_l.end(); (i == j ? (p ? tp : tn) : (p ? fn : fp)) += want[i][j]; }
        auto f = mltk::validation::metricsReport(d, want, pos_l);
        check(f.tp == tp && f.tn == tn && f.fp == fp && f.fn == fn, "metricsReport: counts"); checkeq(f.accuracy, (double)ok / n, "metricsReport: accuracy"); checkeq(f.error, 1 - (double)ok / n, "metricsReport: error"); check(f.errors == n - ok, "metricsReport: errors"); derivedOf(f, "metricsReport");
        mltk::Point<int> a(n), b(n); bool two = r.coin(); std::set<int> u; tp = tn = fp = fn = ok = 0;
        for (int i = 0; i < n; i++) { a[i] = two ? (r.coin() ? 1 : -1) : r.in(-2, 3); b[i] = r.in(0, 2) ? a[i] : (two ? (r.coin() ? 1 : -1) : r.in(-2, 3)); u.insert(a[i]); u.insert(b[i]); ok += a[i] == b[i]; (a[i] == b[i] ? (a[i] == 1 ? tp : tn) : (a[i] == 1 ? fn : fp))++; }
        input("real=" + strv(a.X()) + " predicted=" + strv(b.X()));
        auto h = mltk::validation::classificationReport(a, b); checkeq(h.accuracy, (double)ok / n, "classificationReport: accuracy");
        if (u.size() == 2) check(h.tp == tp && h.tn == tn && h.fp == fp && h.fn == fn, "classificationReport: counts of two labels"); derivedOf(h, "classificationReport");
        sameds(d, sp, "the measures leave the dataset untouched");
    }
}
int main(int c, char **v) {
    begin(c, v);
    section("splits", [](Rng &r) {
        for (int it = 0; it < reps(400); it++) {
            int n = bigsz(r, 1, 16, 90), dim = r.in(1, 3), k = bigsz(r, 2, 7, 30); auto lab = labels(r);
            std::vector<Row> sp; D d = dataset(r, n, dim, lab, &sp);
            if (r.coin()) { std::vector<int> ord(n); for (int i = 0; i < n; i++) ord[i] = i; r.shuffle(ord); D e; std::vector<Row> s2; for (int i : ord) { e.insertPoint(d[i], true); s2.push_back(sp[i]); } d = e; sp = s2; }
            bool strat = r.coin(), keep = r.coin(); size_t seed = r.in(1, 1000);
            input("parts=" + std::to_string(k) + " strat=" + std::to_string(strat) + " keepIndex=" + std::to_string(keep) + " seed=" + std::to_string(seed) + " " + strr(sp));
            // by classes
            auto bc = d.splitByClasses(keep); auto cl = d.classes();
            check(bc.size() == cl.size(), "splitByClasses: one part per class");
            for (size_t q = 0; q < cl.size() && q < bc.size(); q++) {
                std::vector<Row> want; for (auto &w : sp) if (w.y == cl[q]) { want.push_back(w); if (!keep) want.back().id = want.size(); }
                sameds(bc[q], want, "splitByClasses: exactly the points of the class in order"); described(bc[q], "splitByClasses: description of the part");
                if (bc[q].size()) { auto &x = (*bc[q][0])[0]; double old = x; x = old + 5; sameds(d, sp, "splitByClasses: parts are independent of the dataset"); x = old; }
            }
            // sample
            auto ss = d.splitSample(k, strat, keep, seed); std::vector<Row> all; std::vector<std::vector<Row>> parts;
            check(ss.size() == (size_t)k, "splitSample: number of parts");
            for (auto &s : ss) { parts.push_back(rows(s)); all = all + parts.back(); described(s, "splitSample: description of the part"); if (!keep) for (size_t i = 0; i < parts.back().size(); i++) check(parts.back()[i].id == i + 1, "splitSample: identifiers"); }
            check(bag(all, keep) == bag(sp, keep), "splitSample: every point is in exactly one part"); balanced(parts, sp, strat, "splitSample");
            { auto s2 = d.splitSample(k, strat, keep, seed); for (int q = 0; q < k; q++) sameds(s2[q], parts[q], "splitSample: same seed, same parts"); }
            for (auto &s : ss) if (s.size()) (*s[0])[0] += 3;
            sameds(d, sp, "splitSample: the dataset is untouched and independent");
            // train / test
            auto tt = mltk::validation::partTrainTest(d, k, strat, keep, seed);
            check(bag(rows(tt.train) + rows(tt.test), keep) == bag(sp, keep), "partTrainTest: every point is in exactly one of the two sets");
            { int lo = n / k, t = tt.test.size(); check(strat || t == lo || t == lo + 1, "partTrainTest: the test set is one fold", "test size " + std::to_string(t)); }
            if (strat) for (auto &kv : per(sp)) { int q = per(rows(tt.test))[kv.first]; check(q == kv.second / k || q == kv.second / k + 1, "partTrainTest: the test set holds its share of every class"); }
            described(tt.train, "partTrainTest: description"); described(tt.test, "partTrainTest: description");
            // k folds
            auto kf = mltk::validation::kfoldsplit(d, (size_t)k, strat, true, seed);
            check(kf.size() == (size_t)k, "kfoldsplit: number of folds"); std::vector<Row> tests; parts.clear();
            for (auto &f : kf) {
                auto tr = rows(f.train), te = rows(f.test);
                check(bag(tr + te, true) == bag(sp, true), "kfoldsplit: training and test set of a fold partition the dataset");
                tests = tests + te; parts.push_back(te); described(f.train, "kfoldsplit: description"); described(f.test, "kfoldsplit: description");
                if (f.train.size()) (*f.train[0])[0] += 7; check(rows(f.test).size() == te.size() && bag(rows(f.test), true) == bag(te, true), "kfoldsplit: training and test sets share no point"); 
            }
            check(bag(tests, true) == bag(sp, true), "kfoldsplit: every point is tested exactly once"); balanced(parts, sp, strat, "kfoldsplit");
            for (size_t q = 0; q < kf.size(); q++) check(kf[q].fold == q + 1, "kfoldsplit: fold number");
            int ex = r.in(1, 3); auto kk = mltk::validation::kfoldsplit(d, (size_t)k, (size_t)ex, strat, true, seed);
            check(kk.size() == (size_t)k * ex, "kfoldsplit repeated: number of folds");
            for (int e = 0; e < ex && kk.size() == (size_t)k * ex; e++) { std::vector<Row> ts; for (int q = 0; q < k; q++) { auto &f = kk[e * k + q]; ts = ts + rows(f.test); check(f.execution == (size_t)e + 1 && f.fold == (size_t)q + 1, "kfoldsplit repeated: execution number"); check(bag(rows(f.train) + rows(f.test), true) == bag(sp, true), "kfoldsplit repeated: partition"); } check(bag(ts, true) == bag(sp, true), "kfoldsplit repeated: every point is tested once per execution"); }
            sameds(d, sp, "the dataset is untouched");
        }
    });
    section("kfold primal", [](Rng &r) { crossval<SP>(r); });
    section("kfold dual", [](Rng &r) { crossval<SD>(r); });
    section("measures", measures);
    return end();
}
