// Complete enumeration of bounded families of graphs.
#pragma once
#include "oracle.hpp"
namespace kv {
typedef std::vector<std::pair<int,int>> Topo;
// all multisets of at most maxE directed edges over n nodes; self: allow self loops; mult: max multiplicity; canon: only one per isomorphism class; conn: weakly connected only
inline std::vector<Topo> topologies(int n, int minE, int maxE, bool self, int mult, bool canon, bool conn) {
  std::vector<std::pair<int,int>> P; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (self || i != j) P.push_back({i, j});
  std::vector<Topo> R; std::set<Topo> seen; Topo cur;
  std::vector<int> cnt(P.size(), 0);
  for (;;) {
    int tot = 0; for (int x : cnt) tot += x;
    if (tot >= minE && tot <= maxE) { cur.clear(); for (size_t i = 0; i < P.size(); i++) for (int q = 0; q < cnt[i]; q++) cur.push_back(P[i]);
      G g; g.A.resize(n); for (auto& e : cur) { Chan c; c.s = e.first; c.t = e.second; c.m = 0; g.C.push_back(c); } int cc; wcc(g, &cc);
      bool ok = !(conn && cc > 1);
      if (ok && canon) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); Topo best; bool f = true; do { Topo t; for (auto& e : cur) t.push_back({p[e.first], p[e.second]}); std::sort(t.begin(), t.end()); if (f || t < best) { best = t; f = false; } } while (std::next_permutation(p.begin(), p.end())); ok = seen.insert(best).second; }
      if (ok) R.push_back(cur); }
    size_t i = 0; while (i < cnt.size() && (cnt[i] == mult)) cnt[i++] = 0; if (i == cnt.size()) break; cnt[i]++;
  }
  std::stable_sort(R.begin(), R.end(), [](const Topo& a, const Topo& b) { return a.size() < b.size(); });
  return R;
}
struct Family {
  std::string name; int n; std::vector<Topo> topos;
  std::vector<std::vector<int>> phaseCounts;          // tuples of phase counts per actor
  std::map<int, std::vector<std::vector<int>>> rates; // alphabet of rate vectors by phase count
  std::map<int, std::vector<std::vector<int>>> durs;  // alphabet of duration vectors by phase count
  std::function<int(const std::vector<int>&, const std::vector<int>&, bool selfloop)> maxTok; // largest preload
  std::vector<std::vector<int>> reent;                // tuples of reentrancy per actor
  ll maxN = 12;                                       // bound on sum of firings per iteration
  bool consistentOnly = true; int tden = 1; ll tok = 1;
  std::vector<G> list;                                // explicit graphs instead of a product
  bool skipTokSteps = false;                          // tokens multiples of gcd only
};
// all tuples of length n over values
inline std::vector<std::vector<int>> tuples(int n, std::vector<int> vals) { std::vector<std::vector<int>> r{{}}; for (int i = 0; i < n; i++) { std::vector<std::vector<int>> s; for (auto& t : r) for (int v : vals) { auto u = t; u.push_back(v); s.push_back(u); } r = s; } return r; }
inline std::vector<std::vector<int>> vecs(int len, int lo, int hi, bool nonzero = true) { std::vector<int> v; for (int i = lo; i <= hi; i++) v.push_back(i); auto t = tuples(len, v); std::vector<std::vector<int>> r; for (auto& x : t) if (!nonzero || sum(x) > 0) r.push_back(x); return r; }

struct Enumerator { // calls leaf(g, r); r empty when inconsistent
  template <class F> static void run(const Family& f, F leaf) {
    for (auto& g : f.list) { auto r = repetition(g); if (f.consistentOnly && r.empty()) continue; leaf(g, r); }
    for (auto& tp : f.topos) for (auto& pc : f.phaseCounts) {
      G g; g.tden = f.tden; g.tok = f.tok; g.A.resize(f.n); g.C.resize(tp.size()); for (size_t i = 0; i < tp.size(); i++) { g.C[i].s = tp[i].first; g.C[i].t = tp[i].second; }
      for (int a = 0; a < f.n; a++) g.A[a].dur.assign(pc[a], 1);
      std::function<void(size_t)> rates = [&](size_t i) {
        if (i == tp.size()) { auto r = repetition(g); if (f.consistentOnly) { if (r.empty()) return; ll s = 0; for (int a = 0; a < f.n; a++) s += r[a] * pc[a]; if (s > f.maxN) return; }
          std::function<void(size_t)> toks = [&](size_t k) {
            if (k == tp.size()) {
              std::function<void(int)> durs = [&](int a) {
                if (a == f.n) { for (auto& re : f.reent) { for (int b = 0; b < f.n; b++) g.A[b].reent = re[b]; leaf(g, r); } return; }
                for (auto& d : f.durs.at(pc[a])) { g.A[a].dur = d; durs(a + 1); } };
              durs(0); return; }
            int mt = f.maxTok(g.C[k].p, g.C[k].c, g.C[k].s == g.C[k].t); int step = 1; if (f.skipTokSteps) { int q = 0; for (int x : g.C[k].p) q = std::gcd(q, x); for (int x : g.C[k].c) q = std::gcd(q, x); step = std::max(1, q); }
            for (int m = 0; m <= mt; m += step) { g.C[k].m = m; toks(k + 1); } };
          toks(0); return; }
        for (auto& p : f.rates.at(pc[tp[i].first])) for (auto& c : f.rates.at(pc[tp[i].second])) { g.C[i].p = p; g.C[i].c = c; rates(i + 1); } };
      rates(0);
    }
  }
};
} // namespace kv
