// Client translation unit: the perceptrons.
#include <ufjfmltk/Core.hpp>
#include <ufjfmltk/classifier/Perceptron.hpp>
namespace mltk {
template class Data<double>;
namespace client {
using P = Point<double>;
double peval(classifier::PerceptronPrimal<double> &c, const P &p, bool raw) { return c.evaluate(p, raw); }
double feval(classifier::PerceptronFixedMarginPrimal<double> &c, const P &p, bool raw) { return c.evaluate(p, raw); }
double beval(classifier::BalancedPerceptron<double> &c, const P &p, bool raw) { return c.evaluate(p, raw); }
}}
