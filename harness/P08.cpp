#include "h.hpp"
#include <ufjfmltk/core/Kernel.hpp>
using namespace hh;
using V = std::vector<double>;
using M = std::vector<V>;
static double kv(int ty, double par, const V &a, const V &b, int skip = -1) {
    double ip = 0, d2 = 0; for (size_t k = 0; k < a.size(); k++) if ((int)k != skip) { ip += a[k] * b[k]; d2 += (a[k] - b[k]) * (a[k] - b[k]); }
    return ty == mltk::INNER_PRODUCT ? ip : ty == mltk::POLYNOMIAL ? (par > 1 ? std::pow(ip, par) : ip) : std::exp(-d2 * par);
}
static bool same(const M &got, const M &want, const std::string &tag) {
    if (got.size() != want.size()) return fail(tag, "rows " + std::to_string(got.size()) + ", expected " + std::to_string(want.size()));
    for (size_t i = 0; i < want.size(); i++) { if (got[i].size() != want[i].size()) return fail(tag, "row " + std::to_string(i) + " has " + std::to_string(got[i].size()) + " columns");
        for (size_t j = 0; j < want.size(); j++) if (!near(got[i][j], want[i][j], 1e-8)) return fail(tag, "entry " + std::to_string(i) + "," + std::to_string(j) + " = " + str(got[i][j]) + ", expected " + str(want[i][j])); }
    return true;
}
int main(int c, char **v) {
    begin(c, v);
    section("kernels", [](Rng &r) {
        mltk::Kernel<double> k, reused;
        for (int it = 0; it < reps(500); it++) {
            int ty = r.in(0, 2); double par = ty == 1 ? r.in(0, 8) / 2.0 : ty == 2 ? r.real(0.05, 2) : r.in(0, 3);
            int n = bigsz(r, 1, 7, 50), dim = bigsz(r, 1, 6, 60);
            std::vector<Row> sp; D d = dataset(r, n, dim, {1, -1}, &sp); auto dp = std::make_shared<D>(d);
            for (int i = 0; i < n; i++) (*dp)[i]->Alpha() = r.in(0, 2) ? r.real(-1, 3) : 0;
            V al; for (int i = 0; i < n; i++) al.push_back((*dp)[i]->Alpha());
            if (r.coin()) k = mltk::Kernel<double>(ty, par); else { k.setType(ty); k.setParam(par); }
            input("type=" + std::to_string(ty) + " param=" + str(par) + " alpha=" + strv(al) + " " + strr(sp));
            check(k.getType() == ty && k.getParam() == par, "type and parameter");
            int i = r.in(0, n - 1), j = r.in(0, n - 1), sk = r.in(-1, dim);
            checkeq(k.function((*dp)[i], (*dp)[j], dim), kv(ty, par, sp[i].x, sp[j].x), "kernel value", 1e-8);
            checkeq(k(point(sp[i].x), point(sp[j].x)), kv(ty, par, sp[i].x, sp[j].x), "kernel operator", 1e-8);
            checkeq(k.functionWithoutDim((*dp)[i], (*dp)[j], sk, dim), kv(ty, par, sp[i].x, sp[j].x, sk), "kernel value without a component", 1e-8);
            M K(n, V(n)), H(n, V(n)), W(n, V(n));
            for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { K[a][b] = kv(ty, par, sp[a].x, sp[b].x); H[a][b] = K[a][b] * sp[a].y * sp[b].y; W[a][b] = kv(ty, par, sp[a].x, sp[b].x, sk) * sp[a].y * sp[b].y; }
            k.recompute(); k.compute(dp); same(k.getKernelMatrix(), K, "kernel matrix"); same(*k.getKernelMatrixPointer(), K, "kernel matrix"); check(k.size() == (size_t)n && k[i].size() == (size_t)n && near(k[i][j], K[i][j], 1e-8), "kernel matrix access");
            same(*k.generateMatrixH(dp), H, "H matrix"); same(*k.generateMatrixHwithoutDim(dp, sk), W, "H matrix without a component");
            same(k.getKernelMatrix(), K, "kernel matrix kept");
            // the same kernel object used for differently sized data; a new type or parameter recomputes
            reused.setType(ty); reused.setParam(par); reused.compute(dp); same(reused.getKernelMatrix(), K, "kernel matrix of a reused kernel"); same(*reused.generateMatrixH(dp), H, "H matrix of a reused kernel");
            // only the type, or only the parameter, changes between two computations
            { int ty2 = r.in(0, 2); double par2 = r.in(0, 8) / 4.0; bool what = r.coin(); M K2(n, V(n)); mltk::Kernel<double> sw(ty, par); sw.compute(dp); if (what) { sw.setType(ty2); par2 = par; } else { sw.setParam(par2); ty2 = ty; } sw.compute(dp);
              for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) K2[a][b] = kv(ty2, par2, sp[a].x, sp[b].x);
              same(sw.getKernelMatrix(), K2, what ? "kernel matrix after a change of type" : "kernel matrix after a change of parameter"); }
            double q = 0, f = 0; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { double t = sp[a].y * al[a] * sp[b].y * al[b] * K[a][b]; q += t; if (al[a] > 0 && al[b] > 0) f += t; }
            if (q > 1e-6) checkeq(k.norm(*dp), std::sqrt(q), "norm in the dual variables", 1e-6);
            if (f > 1e-6) checkeq(k.featureSpaceNorm(dp), std::sqrt(f), "norm in the feature space", 1e-6);
            sameds(*dp, sp, "dataset untouched");
            for (int a = 0; a < n; a++) check((*dp)[a]->Alpha() == al[a], "weights untouched");
            auto cu = [](const mltk::Point<double> &a, const mltk::Point<double> &b, double p) { return p + 2 * (a * b).sum(); };
            mltk::Kernel<double> ck(mltk::CUSTOM, 3.0); ck(*dp, cu); M C(n, V(n)); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) C[a][b] = 3 + 2 * kv(0, 0, sp[a].x, sp[b].x);
            same(ck.getKernelMatrix(), C, "custom kernel matrix");
        }
    });
    return end();
}
