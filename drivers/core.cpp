// Client translation unit: instantiates the templates of /repo so that clang emits their real, instantiated bodies.
#include <ufjfmltk/Core.hpp>
namespace mltk {
template class Data<double>;
template class Point<double>;
template double dot(const Point<double>&, const Point<double>&);
template double max(const Point<double>&);
template double min(const Point<double>&);
template Point<double> normalize(Point<double>, const double);
template Point<double> linspace<double>(double, double, size_t);
namespace client {
using P = Point<double>;
P add(const P &a, const P &b) { return a + b; }
P sub(const P &a, const P &b) { return a - b; }
P mul(const P &a, const P &b) { return a * b; }
P div(const P &a, const P &b) { return a / b; }
P adds(const P &a, double s) { return a + s; }
P sadd(double s, const P &a) { return s + a; }
P subs(const P &a, double s) { return a - s; }
P ssub(double s, const P &a) { return s - a; }
P muls(const P &a, double s) { return a * s; }
P smul(double s, const P &a) { return s * a; }
P divs(const P &a, double s) { return a / s; }
P sdiv(double s, const P &a) { return s / a; }
P muli(const P &a, int s) { return a * s; }
P imul(int s, const P &a) { return s * a; }
P nested(const P &a, const P &b, const P &c) { return (a - b) * c + a; }
P absv(const P &a) { return mltk::abs(a); }
P powv(const P &a, double q) { return mltk::pow(a, q); }
P expv(const P &a) { return mltk::exp(a); }
P logv(const P &a) { return mltk::log(a); }
P cosv(const P &a) { return mltk::cos(a); }
P sinv(const P &a) { return mltk::sin(a); }
double sumexpr(const P &a, const P &b) { return (a * b).sum(); }
double sump(const P &a) { return a.sum(); }
void addeq_s(P &a, double s) { a += s; }
void muleq_s(P &a, double s) { a *= s; }
void subeq_s(P &a, double s) { a -= s; }
void diveq_s(P &a, double s) { a /= s; }
void addeq_own(P &a, size_t j) { a += a[j]; }
void subeq_own(P &a, size_t j) { a -= a[j]; }
void muleq_own(P &a, size_t j) { a *= a[j]; }
void diveq_own(P &a, size_t j) { a /= a[j]; }
void assign_own(P &a, size_t j) { a = a * a[j]; }
void addeq_e(P &a, const P &b, double s) { a += s * b; }
void subeq_e(P &a, const P &b, double s) { a -= s * b; }
void muleq_e(P &a, const P &b, double s) { a *= s * b; }
void diveq_e(P &a, const P &b, double s) { a /= s * b; }
void assign_e(P &a, const P &b, const P &c) { a = b + c; }
void assign_p(P &a, const P &b) { a = b; }
void assign_v(P &a, const std::vector<double> &b) { a = b; }
void assign_s(P &a, double s) { a = s; }
Data<double> copyd(const Data<double> &a) { Data<double> r(a); return r; }
P copyp(const P &a) { return P(a); }
P fromvec(const std::vector<double> &v) { return P(v); }
P filled(size_t n, double v) { return P(n, v); }
bool eq(const P &a, const P &b) { return a == b; }
bool ne(const P &a, const P &b) { return a != b; }
}
}
