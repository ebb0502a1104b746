// Client translation unit: validation metrics and decision functions.
#include <ufjfmltk/Core.hpp>
#include <set>
#include <ufjfmltk/valid/Validation.hpp>
namespace mltk {
template class Data<double>;
template class Point<int>;
namespace client {
using P = Point<double>;
using D = Data<double>;
// an arbitrary trained learner: nothing is known about evaluate but its contract
struct AnyLearner : public Learner<double> {
    bool train() override;
    double evaluate(const P &p, bool raw_value = false) override;
    std::string getFormulationString() override;
};
struct AnyPrimal : public classifier::PrimalClassifier<double> { bool train() override; };
struct AnyDual : public classifier::DualClassifier<double> { bool train() override; };
using CM = std::vector<std::vector<size_t>>;
double cmacc(const CM &m) { return validation::confusionMatrixAccuracy(m); }
validation::ValidationReport mrep(const D &d, const CM &m, std::vector<int> pos) { return validation::metricsReport(d, m, pos); }
validation::ValidationReport crep(const Point<int> &a, const Point<int> &b) { return validation::classificationReport(a, b); }
double acc(const D &d, AnyLearner &l) { return validation::accuracy(d, l, true); }
CM gcm(D &d, AnyLearner &l) { return validation::generateConfusionMatrix<double>(d, l); }
double primal_eval(AnyPrimal &c, const P &p, bool raw) { return c.evaluate(p, raw); }
double dual_eval(AnyDual &c, const P &p, bool raw) { return c.evaluate(p, raw); }
P dual_weight(AnyDual &c) { return c.getWeight(); }
P batch(AnyLearner &l, const D &d) { return l.batchEvaluate(d); }
}}
