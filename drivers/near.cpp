// Client translation unit: nearest neighbours and linear regression.
#include <ufjfmltk/Core.hpp>
#include <ufjfmltk/classifier/KNNClassifier.hpp>
#include <ufjfmltk/regressor/KNNRegressor.hpp>
#include <ufjfmltk/regressor/LMS.hpp>
#include <ufjfmltk/regressor/Metrics.hpp>
namespace mltk {
template class Data<double>;
namespace client {
using P = Point<double>;
using D = Data<double>;
using KC = classifier::KNNClassifier<double>;
using KR = regressor::KNNRegressor<double>;
struct AnyRegressor : public regressor::PrimalRegressor<double> { bool train() override; };
double knnc(KC &c, const P &p) { return c.evaluate(p, false); }
double knnr(KR &c, const P &p) { return c.evaluate(p, false); }
double reval(AnyRegressor &c, const P &p) { return c.evaluate(p, false); }
double mse(const P &a, const P &b) { return metrics::MSE(a, b); }
}}
