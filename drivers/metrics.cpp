// Client translation unit: instantiates every distance functor and calls it.
#include <ufjfmltk/Core.hpp>
#include <ufjfmltk/core/DistanceMetric.hpp>
namespace mltk { namespace client {
using P = Point<double>;
namespace dd = mltk::metrics::dist;
#define M(N) double d##N(const P &a, const P &b) { dd::N<double> m; return m(a, b); }
M(Euclidean) M(Manhattan) M(Chebyshev) M(Lorentzian) M(Canberra) M(Sorensen) M(AvgManhattan) M(NonIntersection) M(Jaccard) M(Cosine) M(Dice)
M(Bhattacharyya) M(SquaredChord) M(Matusita) M(Hellinger) M(SquaredEuclidean) M(Clark) M(Neyman) M(Pearson) M(Squared) M(ProbabilisticSymmetric)
M(Divergence) M(AdditiveSymmetric) M(Average) M(SquaredChiSquared) M(KullbackLeibler) M(Jeffreys) M(KDivergence) M(Topsoe) M(JensenShannon)
M(JensenDifference) M(MaxSymmetric) M(MinSymmetric) M(AverageL1Linf) M(KumarJohnson) M(Taneja) M(Hassanat)
}}
