// Client translation unit: kernels and descriptive statistics.
#include <ufjfmltk/Core.hpp>
#include <ufjfmltk/core/Kernel.hpp>
#include <ufjfmltk/core/Statistics.hpp>
namespace mltk {
template class Kernel<double>;
template class Data<double>;
namespace client {
using P = Point<double>;
using D = Data<double>;
double pmean(const P &p) { return stats::mean(p); }
double pstd(const P &p) { return stats::std_dev(p); }
double pvar(const P &p) { return stats::var(p); }
double pcovar(const P &p, const P &q) { return stats::covar(p, q); }
double dmean(const D &d, size_t f) { return stats::mean(d, f); }
double dstd(const D &d, size_t f) { return stats::std_dev(d, f); }
double dvar(const D &d, size_t f) { return stats::var(d, f); }
double dradius(const D &d, int f, double q) { return stats::radius(d, f, q); }
double dcenters(const D &d, int f) { return stats::distCenters(d, f); }
double dcentersw(const D &d, const std::vector<int> &fs, int i) { return stats::distCentersWithoutFeats(d, fs, i); }
using KN = Kernel<double>;
using PPT = PointPointer<double>;
using DPT = std::shared_ptr<D>;
double kfun(const KN &k, PPT a, PPT b, int dim) { return k.function(a, b, dim); }
double kfunw(KN &k, PPT a, PPT b, int j, int dim) { return k.functionWithoutDim(a, b, j, dim); }
double kop(const KN &k, const P &a, const P &b) { return k(a, b); }
void kcompute(KN &k, DPT d) { k.compute(d); }
dMatrix *kh(KN &k, DPT d) { return k.generateMatrixH(d); }
dMatrix *khw(KN &k, DPT d, int j) { return k.generateMatrixHwithoutDim(d, j); }
double knorm(KN &k, D d) { return k.norm(d); }
double kfnorm(KN &k, DPT d) { return k.featureSpaceNorm(d); }
}}
