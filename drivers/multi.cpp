// Client translation unit: decisions combining several learners, and clustering.
#include <ufjfmltk/Core.hpp>
#include <ufjfmltk/classifier/OneVsAll.hpp>
#include <ufjfmltk/classifier/OneVsOne.hpp>
#include <ufjfmltk/ensemble/VotingClassifier.hpp>
#include <ufjfmltk/clusterer/KMeans.hpp>
namespace mltk {
template class Data<double>;
namespace client {
using P = Point<double>;
using D = Data<double>;
using KM = clusterer::KMeans<double>;
double ova(classifier::OneVsAll<double> &c, const P &p, bool raw) { return c.evaluate(p, raw); }
double ovo(classifier::OneVsOne<double> &c, const P &p, bool raw) { return c.evaluate(p, raw); }
double vote(ensemble::VotingClassifier<double> &c, const P &p, bool raw) { return c.evaluate(p, raw); }
double keval(KM &c, const P &p) { return c.evaluate(p, false); }
double kassign(KM &c, const std::vector<PointPointer<double>> &ps) { return c.assign_clusters(ps); }
void kcenters(KM &c) { c.compute_centers(); }
std::vector<Point<size_t>> kclusters(KM &c) { return c.clusters(); }
}}
