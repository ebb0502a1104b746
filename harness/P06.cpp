#include "h.hpp"
using namespace hh;
static void cmp(const P &got, const std::vector<double> &want, const std::string &tag) {
    if (got.size() != want.size()) { fail(tag + "/size", "size " + std::to_string(got.size()) + ", expected " + std::to_string(want.size())); return; }
    for (size_t k = 0; k < want.size(); k++) if (!near(got[k], want[k])) { fail(tag, "component " + std::to_string(k) + ": got " + str(got[k]) + ", expected " + str(want[k])); return; }
}
template <class F> static std::vector<double> map2(const std::vector<double> &a, const std::vector<double> &b, F f) { std::vector<double> r; for (size_t k = 0; k < a.size(); k++) r.push_back(f(a[k], b[k])); return r; }
template <class F> static std::vector<double> map1(const std::vector<double> &a, F f) { std::vector<double> r; for (double x : a) r.push_back(f(x)); return r; }
int main(int c, char **v) {
    begin(c, v);
    section("point algebra", [](Rng &r) {
        for (int it = 0; it < reps(2000); it++) {
            int n = bigsz(r, 0, 7); auto A = rvec(r, n), B = rvec(r, n), C = rvec(r, n); double s = r.val(); if (s == 0) s = 2; int si = r.in(-4, 4);
            for (auto &x : B) if (x == 0) x = 1.5;
            const P a = point(A, r.val(), 3), b = point(B, r.val(), 4), cc = point(C); 
            input("a=" + strv(A) + " b=" + strv(B) + " c=" + strv(C) + " s=" + str(s));
            cmp(a + b, map2(A, B, [](double x, double y) { return x + y; }), "point + point"); cmp(a - b, map2(A, B, [](double x, double y) { return x - y; }), "point - point");
            cmp(a * b, map2(A, B, [](double x, double y) { return x * y; }), "point * point"); cmp(a / b, map2(A, B, [](double x, double y) { return x / y; }), "point / point");
            cmp(a + s, map1(A, [&](double x) { return x + s; }), "point + scalar"); cmp(s + a, map1(A, [&](double x) { return x + s; }), "scalar + point");
            cmp(a - s, map1(A, [&](double x) { return x - s; }), "point - scalar"); cmp(s - a, map1(A, [&](double x) { return s - x; }), "scalar - point");
            cmp(a * s, map1(A, [&](double x) { return x * s; }), "point * scalar"); cmp(s * a, map1(A, [&](double x) { return x * s; }), "scalar * point");
            cmp(a / s, map1(A, [&](double x) { return x / s; }), "point / scalar"); cmp(s / b, map1(B, [&](double x) { return s / x; }), "scalar / point");
            cmp(a * si, map1(A, [&](double x) { return x * si; }), "point * int"); cmp(si * a, map1(A, [&](double x) { return x * si; }), "int * point");
            cmp((a - b) * cc + a, [&] { std::vector<double> q; for (int k = 0; k < n; k++) q.push_back((A[k] - B[k]) * C[k] + A[k]); return q; }(), "nested expression");
            cmp(mltk::abs(a), map1(A, [](double x) { return std::fabs(x); }), "abs(point)"); cmp(mltk::exp(a), map1(A, [](double x) { return std::exp(x); }), "exp(point)");
            cmp(mltk::log(a), map1(A, [](double x) { return std::log(x); }), "log(point)"); cmp(mltk::cos(a), map1(A, [](double x) { return std::cos(x); }), "cos(point)");
            cmp(mltk::sin(a), map1(A, [](double x) { return std::sin(x); }), "sin(point)"); cmp(mltk::pow(a, 2.0), map1(A, [](double x) { return std::pow(x, 2.0); }), "pow(point)");
            cmp(mltk::pow(mltk::abs(a), 0.5), map1(A, [](double x) { return std::pow(std::fabs(x), 0.5); }), "pow(point)");
            double dot = 0, sum = 0, sab = 0; for (int k = 0; k < n; k++) { dot += A[k] * B[k]; sum += A[k]; sab += A[k] * B[k]; }
            checkeq(mltk::dot(a, b), dot, "dot product"); checkeq(a.sum(), sum, "sum"); checkeq((a * b).sum(), sab, "sum of an expression");
            for (int p : {1, 2, 3}) { double q = 0; for (double x : A) q += std::pow(std::fabs(x), p); checkeq(a.norm(p), std::pow(q, 1.0 / p), "p-norm"); }
            if (n) {
                checkeq(mltk::max(a), *std::max_element(A.begin(), A.end()), "max of components"); checkeq(mltk::min(a), *std::min_element(A.begin(), A.end()), "min of components");
                double m = 0; for (double x : A) m = std::max(m, std::fabs(x)); checkeq(a.norm(0), m, "infinity norm");
                double q2 = 0; for (double x : A) q2 += x * x; if (q2 > 0) cmp(mltk::normalize(a, 2), map1(A, [&](double x) { return x / std::sqrt(q2); }), "normalize");
            }
            check((a == b) == (A == B), "equality"); check((a != b) == (A != B), "inequality"); check(a == P(a), "equality of a copy");
        }
    });
    section("assignment", [](Rng &r) {
        for (int it = 0; it < reps(1500); it++) {
            int n = bigsz(r, 0, 6), m = bigsz(r, 0, 6); auto A = rvec(r, n), B = rvec(r, n), M = rvec(r, m); double s = r.val(); if (s == 0) s = 2;
            for (auto &x : B) if (x == 0) x = 1.5;
            P b = point(B, 2, 9);
            input("a=" + strv(A) + " b=" + strv(B) + " m=" + strv(M) + " s=" + str(s));
            auto mk = [&] { P q = point(A, 1, 5); q.Alpha() = 0.25; return q; };
            auto done = [&](P &q, const std::vector<double> &w, const std::string &tag) { cmp(q, w, tag); check(q.Y() == 1 && q.Id() == 5 && q.Alpha() == 0.25, tag + "/label kept"); cmp(b, B, tag + "/operand"); };
            { P q = mk(); q += b; done(q, map2(A, B, [](double x, double y) { return x + y; }), "point += point"); } { P q = mk(); q -= b; done(q, map2(A, B, [](double x, double y) { return x - y; }), "point -= point"); }
            { P q = mk(); q *= b; done(q, map2(A, B, [](double x, double y) { return x * y; }), "point *= point"); } { P q = mk(); q /= b; done(q, map2(A, B, [](double x, double y) { return x / y; }), "point /= point"); }
            { P q = mk(); q += s; done(q, map1(A, [&](double x) { return x + s; }), "point += scalar"); } { P q = mk(); q -= s; done(q, map1(A, [&](double x) { return x - s; }), "point -= scalar"); }
            { P q = mk(); q *= s; done(q, map1(A, [&](double x) { return x * s; }), "point *= scalar"); } { P q = mk(); q /= s; done(q, map1(A, [&](double x) { return x / s; }), "point /= scalar"); }
            for (size_t j = 0; j < A.size(); j++) { double s2 = A[j]; { P q = mk(); q += q[j]; done(q, map1(A, [&](double x) { return x + s2; }), "point += own component"); } { P q = mk(); q -= q[j]; done(q, map1(A, [&](double x) { return x - s2; }), "point -= own component"); }
                { P q = mk(); q *= q[j]; done(q, map1(A, [&](double x) { return x * s2; }), "point *= own component"); } if (s2 != 0) { P q = mk(); q /= q[j]; done(q, map1(A, [&](double x) { return x / s2; }), "point /= own component"); }
                { P q = mk(); q = q * q[j]; done(q, map1(A, [&](double x) { return x * s2; }), "point = point * own component"); } }
            { P q = mk(); q += s * b; done(q, map2(A, B, [&](double x, double y) { return x + s * y; }), "point += expression"); } { P q = mk(); q -= s * b; done(q, map2(A, B, [&](double x, double y) { return x - s * y; }), "point -= expression"); }
            { P q = mk(); q *= s * b; done(q, map2(A, B, [&](double x, double y) { return x * (s * y); }), "point *= expression"); } { P q = mk(); q /= s * b; done(q, map2(A, B, [&](double x, double y) { return x / (s * y); }), "point /= expression"); }
            { P q = mk(); q = s; done(q, map1(A, [&](double) { return s; }), "point = scalar"); }
            { P q = mk(); P o = point(M); q = o; cmp(q, M, "assignment from a point"); } { P q = mk(); q = M; cmp(q, M, "assignment from a vector"); }
            { P q = mk(); q = b + b; cmp(q, map1(B, [](double x) { return x + x; }), "assignment from an expression"); }
            { P q = mk(); P o(q); cmp(o, A, "copy construction"); check(o.Y() == 1 && o.Id() == 5 && o.Alpha() == 0.25, "copy construction/label"); if (n) { o[0] = 77; cmp(q, A, "copy independence"); } }
        }
    });
    return end();
}
