#include "h.hpp"
using namespace hh;
static std::vector<Row> erase_ids(std::vector<Row> v, const std::set<int> &ids) { std::vector<Row> o; for (auto &w : v) if (!ids.count((int)w.id)) o.push_back(w); return o; }
static void cmp(const D &d, const std::vector<Row> &want, const std::vector<int> &cl, const std::string &tag) {
    auto g = rows(d);
    check(d.size() == want.size() && g.size() == want.size(), tag + "/size", "size " + std::to_string(d.size()) + " (" + std::to_string(g.size()) + " stored), expected " + std::to_string(want.size()));
    for (size_t i = 0; i < g.size() && i < want.size(); i++) if (!same(g[i], want[i])) { fail(tag + "/points", "position " + std::to_string(i) + " holds id " + std::to_string(g[i].id) + ", expected id " + std::to_string(want[i].id)); break; }
    auto dist = d.classesDistribution(); auto c = d.classes();
    check(c == cl, tag + "/classes"); check(dist.size() == c.size(), tag + "/distribution length");
    for (size_t j = 0; j < c.size() && j < dist.size(); j++) { size_t n = 0; for (auto &w : want) n += (int)w.y == c[j]; check(dist[j] == n, tag + "/distribution", "class " + std::to_string(c[j]) + " counted " + std::to_string(dist[j]) + ", has " + std::to_string(n)); }
    auto ix = d.getIndex(); check(ix.size() == want.size(), tag + "/index length", std::to_string(ix.size()));
    for (size_t i = 0; i < ix.size(); i++) if (ix[i] != (int)i) { fail(tag + "/index", "entry " + std::to_string(i) + " is " + std::to_string(ix[i])); break; }
}
int main(int c, char **v) {
    begin(c, v);
    section("remove one", [](Rng &r) {
        for (int it = 0; it < reps(1500); it++) {
            int n = r.in(1, 12), m = r.in(1, 3); std::vector<Row> f; std::vector<double> labs = {1, 2, 3}; labs.resize(r.in(1, 3)); D d = dataset(r, n, m, labs, &f); auto cl = d.classes();
            if (r.coin()) { d.shuffle(r.in(1, 99)); f = rows(d); d.resetIndex(); }
            std::string h = strr(f);
            for (int k = 0; k < r.in(1, n + 2); k++) {
                int id = r.in(-1, n + 2); h += " remove " + std::to_string(id); input(h);
                bool there = false; for (auto &w : f) there |= (int)w.id == id; bool want = there && f.size() > 1;
                bool ok = d.removePoint(id);
                check(ok == want, "remove/result", ok ? "removal reported although the point is absent or the last one" : "an existing point was not removed");
                if (want) f = erase_ids(f, {id});
                cmp(d, f, cl, "remove");
            }
        }
    });
    section("remove many", [](Rng &r) {
        for (int it = 0; it < reps(1500); it++) {
            int n = r.in(1, 12), m = r.in(1, 2); std::vector<Row> f; std::vector<double> labs = {1, 2, -1}; labs.resize(r.in(1, 3)); D d = dataset(r, n, m, labs, &f); auto cl = d.classes();
            if (r.coin()) { d.shuffle(r.in(1, 99)); f = rows(d); d.resetIndex(); }
            std::set<int> ids; int k = r.in(0, n + 1); for (int i = 0; i < k; i++) ids.insert(r.in(1, n + 3));
            std::vector<int> v(ids.begin(), ids.end()); input(strr(f) + " remove " + strv(v));
            auto fl = d.removePoints(v); auto want = erase_ids(f, ids);
            if (want.empty()) { check(d.size() == 1 && rows(d).size() == 1, "remove many/last point kept", "size " + std::to_string(d.size())); want = {f.back()}; }
            else { check(fl.size() == v.size(), "remove many/flags"); for (size_t i = 0; i < v.size() && i < fl.size(); i++) { bool there = false; for (auto &w : f) there |= (int)w.id == v[i]; check(fl[i] == !there, "remove many/flag of " + std::string(there ? "a present" : "an absent") + " identifier"); } }
            cmp(d, want, cl, "remove many");
        }
    });
    section("regression data", [](Rng &r) {
        for (int it = 0; it < reps(300); it++) {
            int n = r.in(2, 9); D d; d.setType("Regression"); std::vector<Row> f; for (int i = 0; i < n; i++) { auto x = rvec(r, 2); double y = r.val(); d.insertPoint(std::make_shared<P>(point(x, y))); f.push_back(Row{x, y, (size_t)i + 1}); }
            int id = r.in(1, n); input(strr(f) + " remove " + std::to_string(id)); check(d.removePoint(id), "regression/remove"); cmp(d, erase_ids(f, {id}), {}, "regression");
        }
    });
    return end();
}
