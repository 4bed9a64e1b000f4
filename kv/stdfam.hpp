// Families of graphs shared by the throughput / schedule checks.
#pragma once
#include <array>
#include "families.hpp"
namespace kv {
typedef std::map<int, std::vector<std::vector<int>>> Alpha;
inline std::vector<std::vector<int>> V(std::initializer_list<std::vector<int>> l) { return l; }
inline Family family(const std::string& name, int n, std::vector<Topo> t, std::vector<std::vector<int>> phaseTuples, Alpha rates, Alpha durs, std::function<int(const std::vector<int>&, const std::vector<int>&, bool)> mt, ll maxN, std::vector<std::vector<int>> reent = {}) {
  Family f; f.name = name; f.n = n; f.topos = t; f.phaseCounts = phaseTuples; f.rates = rates; f.durs = durs; f.maxTok = mt; f.reent = reent.empty() ? std::vector<std::vector<int>>{std::vector<int>(n, 1)} : reent; f.maxN = maxN; return f;
}
inline int mx(const std::vector<int>& v) { int m = 0; for (int x : v) m = std::max(m, x); return m; }
inline std::function<int(const std::vector<int>&, const std::vector<int>&, bool)> tokPC(int extra = 0) { return [extra](const std::vector<int>& p, const std::vector<int>& c, bool) { return (int)std::max(0LL, sum(p) + sum(c) + extra); }; }
inline std::function<int(const std::vector<int>&, const std::vector<int>&, bool)> tokK(int k) { return [k](const std::vector<int>&, const std::vector<int>&, bool) { return k; }; }
inline std::vector<std::vector<int>> all_phase(int n, std::vector<int> ph) { return tuples(n, ph); }
// simple (all-different) topologies helpers
inline Topo cycle(int n) { Topo t; for (int i = 0; i < n; i++) t.push_back({i, (i + 1) % n}); return t; }
inline std::vector<Topo> only_cyclic(std::vector<Topo> v, int n) { std::vector<Topo> r; for (auto& t : v) { G g; g.A.resize(n); for (auto& e : t) { Chan c; c.s = e.first; c.t = e.second; c.m = 0; g.C.push_back(c); } auto s = scc(g); bool ok = false; for (auto& e : t) if (s[e.first] == s[e.second]) ok = true; if (ok) r.push_back(t); } return r; }
inline std::vector<Topo> only_sc(std::vector<Topo> v, int n) { std::vector<Topo> r; for (auto& t : v) { G g; g.A.resize(n); for (auto& e : t) { Chan c; c.s = e.first; c.t = e.second; c.m = 0; g.C.push_back(c); } auto s = scc(g); bool ok = true; for (int x : s) if (x != s[0]) ok = false; if (ok) r.push_back(t); } return r; }

// size 0: small, 1: quick, 2: thorough
template <class F> inline void throughput_families(int size, F go) {
  Alpha r13{{1, vecs(1, 1, 3)}}, r14{{1, vecs(1, 1, 4)}}, r12{{1, vecs(1, 1, 2)}}, d1{{1, V({{1}, {2}, {3}})}}, d12{{1, V({{1}, {3}})}}, d123{{1, V({{1}, {2}, {5}})}};
  Alpha c2{{1, vecs(1, 1, 2)}, {2, vecs(2, 0, 2)}, {3, V({{1, 0, 1}, {1, 2, 3}, {0, 0, 2}})}}, c2s{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}, {2, 1}})}, {3, V({{1, 0, 1}, {1, 1, 2}})}};
  Alpha cd{{1, V({{1}, {2}})}, {2, V({{1, 1}, {1, 3}, {2, 1}})}, {3, V({{1, 2, 1}})}}, cd1{{1, V({{2}})}, {2, V({{1, 2}})}, {3, V({{1, 2, 1}})}};
  auto T2 = topologies(2, 0, 2, true, 2, true, true), T2c = only_cyclic(topologies(2, 3, 3, true, 2, true, true), 2);
  auto T3 = topologies(3, 2, 2, false, 1, true, true), T3c = only_cyclic(topologies(3, 3, 3, false, 1, true, true), 3), T34 = only_cyclic(topologies(3, 4, 4, false, 1, true, true), 3);
  go(family("SDF, 1 actor, 0..2 self-loops, rates 1..4, tokens 0..p+c", 1, topologies(1, 0, 2, true, 2, true, true), all_phase(1, {1}), r14, d1, tokPC(), 12));
  go(family("CSDF, 1 actor, 0..1 self-loop, phases 2..3, rates 0..2", 1, topologies(1, 0, 1, true, 1, true, true), all_phase(1, {2, 3}), Alpha{{2, vecs(2, 0, 2)}, {3, vecs(3, 0, 2)}}, Alpha{{2, V({{1, 1}, {1, 3}, {2, 1}, {0, 1}})}, {3, V({{1, 2, 1}, {1, 1, 1}})}}, tokPC(1), 12));
  go(family("SDF, 2 actors, 0..2 channels incl. self-loops, rates 1..3, tokens 0..p+c", 2, T2, all_phase(2, {1}), size ? r14 : r12, d12, tokPC(), 12));
  go(family("SDF, 2 actors, 3 channels with a cycle, rates 1..2 (1..3 thorough), tokens 0..3", 2, T2c, all_phase(2, {1}), size > 1 ? r13 : r12, d12, tokK(size > 1 ? 4 : 3), 12));
  go(family("CSDF, 2 actors, 1..2 channels with a cycle, phases 1..2, rates 0..2, tokens 0..4", 2, only_cyclic(topologies(2, 1, 2, true, 1, true, true), 2), all_phase(2, {1, 2}), size ? c2 : c2s, size > 1 ? cd : cd1, tokK(4), 12));
  if (size) go(family("CSDF, 2-cycle, up to 3 phases", 2, {cycle(2)}, all_phase(2, {1, 2, 3}), c2, cd1, tokPC(1), 16));
  go(family("SDF, 3 actors, 2 channels (acyclic)", 3, T3, all_phase(3, {1}), r13, d1, tokK(1), 14));
  go(family("SDF, 3 actors, 3 channels with a cycle, rates 1..3, tokens 0..4", 3, T3c, all_phase(3, {1}), size ? r13 : r12, size > 1 ? d12 : Alpha{{1, V({{1}, {2}})}}, tokK(size ? 4 : 2), 14));
  go(family("CSDF, 3-cycle, phases 1..2, tokens 0..3", 3, {cycle(3)}, all_phase(3, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}}, cd1, tokK(3), 14));
  if (size) go(family("SDF, 3 actors, 4 channels with a cycle, rates 1..2, tokens 0..2", 3, T34, all_phase(3, {1}), r12, Alpha{{1, V({{2}})}}, tokK(2), 12));
  go(family("HSDF, 4 actors, 4..5 channels with a cycle, rate 1, tokens 0..2", 4, only_cyclic(topologies(4, 4, size ? 5 : 4, false, 1, true, true), 4), all_phase(4, {1}), Alpha{{1, V({{1}})}}, Alpha{{1, V({{1}, {3}})}}, tokK(1), 8));
  if (size) go(family("SDF, 4-cycle, rates 1..2 , tokens 0..3", 4, {cycle(4)}, all_phase(4, {1}), r12, Alpha{{1, V({{1}, {2}})}}, tokK(size > 1 ? 4 : 3), 12));
  if (size > 1) {
    go(family("T: SDF, 2-cycle, rates 1..6, tokens 0..p+c", 2, {cycle(2)}, all_phase(2, {1}), Alpha{{1, vecs(1, 1, 6)}}, Alpha{{1, V({{1}, {2}, {3}, {7}})}}, tokPC(6), 16));
    go(family("T: CSDF, 2-cycle, up to 3 phases, rates 0..2", 2, {cycle(2)}, all_phase(2, {2, 3}), Alpha{{2, vecs(2, 0, 3)}, {3, vecs(3, 0, 2)}}, cd1, tokK(7), 20));
    go(family("T: SDF, 3-cycle rates 1..4, tokens 0..6", 3, {cycle(3)}, all_phase(3, {1}), r14, Alpha{{1, V({{1}, {3}})}}, tokK(6), 24));
    go(family("T: CSDF, 3 actors with a cycle, phases 1..2", 3, T3c, all_phase(3, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}}, cd1, tokK(3), 14));
    go(family("T: SDF, 3 actors, 4 channels, rates 1..2, tokens 0..3", 3, T34, all_phase(3, {1}), r12, Alpha{{1, V({{1}, {2}})}}, tokK(3), 12));
    go(family("T: HSDF, 5-cycle plus 1 chord", 5, only_sc(topologies(5, 5, 6, false, 1, true, true), 5), all_phase(5, {1}), Alpha{{1, V({{1}})}}, Alpha{{1, V({{1}, {3}})}}, tokK(2), 8));
  }
}
// families outside the common core: unlimited concurrency, disconnected graphs, large or fractional durations
template <class F> inline void unlimited_families(int size, F go) { // single-phase actors, concurrency unlimited for at least one actor
  Alpha r12{{1, vecs(1, 1, 2)}}, r13{{1, vecs(1, 1, 3)}}, d{{1, V({{1}, {3}})}};
  go(family("unlimited concurrency: SDF, 1 actor, 0..2 self-loops", 1, topologies(1, 0, 2, true, 2, true, true), all_phase(1, {1}), r13, d, tokPC(), 12, {{0}}));
  go(family("unlimited concurrency: SDF, 2 actors, 1..3 channels", 2, topologies(2, 1, size ? 3 : 2, true, 2, true, true), all_phase(2, {1}), r12, d, tokK(3), 12, {{0, 0}, {0, 1}, {1, 0}}));
  go(family("unlimited concurrency: SDF, 3-cycle", 3, {cycle(3)}, all_phase(3, {1}), size ? r13 : r12, d, tokK(3), 14, {{0, 0, 0}, {0, 1, 0}}));
}
template <class F> inline void odd_families(int size, F go) {
  Alpha r12{{1, vecs(1, 1, 2)}}, r13{{1, vecs(1, 1, 3)}}, big{{1, V({{7}, {1009}, {100003}})}};
  go(family("disconnected: SDF, 2 actors, 0..2 self-loops", 2, topologies(2, 0, 2, true, 1, true, false), all_phase(2, {1}), r12, Alpha{{1, V({{1}, {3}})}}, tokK(2), 12));
  go(family("disconnected: SDF, 4 actors, two 2-cycles", 4, {Topo{{0, 1}, {1, 0}, {2, 3}, {3, 2}}}, all_phase(4, {1}), r12, Alpha{{1, V({{1}, {2}})}}, tokK(2), 12));
  go(family("large durations: SDF, 2-cycle", 2, {cycle(2)}, all_phase(2, {1}), r13, big, tokPC(), 12));
  if (size) go(family("large durations: SDF, 3-cycle", 3, {cycle(3)}, all_phase(3, {1}), r12, big, tokK(3), 12));
  { auto f = family("fractional durations (thirds): SDF, 2-cycle", 2, {cycle(2)}, all_phase(2, {1}), r13, Alpha{{1, V({{1}, {2}, {5}})}}, tokPC(), 12); f.tden = 3; go(f); }
  { auto f = family("fractional durations (1/8): CSDF, 2-cycle", 2, {cycle(2)}, all_phase(2, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}}, Alpha{{1, V({{1}, {3}})}, {2, V({{1, 2}, {5, 1}})}}, tokK(4), 12); f.tden = 8; go(f); }
  { auto f = family("fractional durations (1/8): SDF, 2-chain", 2, {Topo{{0, 1}}}, all_phase(2, {1}), r12, Alpha{{1, V({{1}, {3}, {8}, {20}})}}, tokK(1), 12); f.tden = 8; go(f); }
  { auto f = family("fractional durations (1/8): SDF, 2-cycle and lone actors before or after it", 3, {Topo{{0, 1}, {1, 0}, {1, 2}}, Topo{{0, 1}, {1, 2}, {2, 1}}}, all_phase(3, {1}), r12, Alpha{{1, V({{1}, {3}, {20}})}}, tokK(2), 12); f.tden = 8; go(f); }
  { auto f = family("token counts beyond 32 bits: SDF, 2-cycle, rates and tokens times 2^31", 2, {cycle(2)}, all_phase(2, {1}), r13, Alpha{{1, V({{1}, {3}})}}, tokPC(), 12); f.tok = 2147483648LL; go(f); }
  { auto f = family("token counts beyond 32 bits: CSDF, 2-cycle, rates and tokens times 2^31", 2, {cycle(2)}, all_phase(2, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}}, Alpha{{1, V({{1}})}, {2, V({{1, 2}})}}, tokK(4), 12); f.tok = 2147483648LL; go(f); }
  if (size) go(family("larger rates: SDF, 2-cycle, rates 1..9", 2, {cycle(2)}, all_phase(2, {1}), Alpha{{1, vecs(1, 1, 9)}}, Alpha{{1, V({{1}, {4}})}}, tokPC(), 18));
  if (size) go(family("larger rates: SDF, 3-cycle, rates 2,3,5", 3, {cycle(3)}, all_phase(3, {1}), Alpha{{1, V({{2}, {3}, {5}})}}, size > 1 ? Alpha{{1, V({{1}, {4}})}} : Alpha{{1, V({{1}})}}, tokK(size > 1 ? 10 : 8), 40));
}
// larger graphs of a few shapes: every position of the tokens, of the slow actor and of the rate change
inline G plain(const std::vector<std::vector<int>>& durs, const std::vector<std::array<int, 5>>& ch) { G g; g.tden = 1; for (auto& d : durs) { Actor a; a.dur = d; a.reent = 1; g.A.push_back(a); } for (auto& x : ch) { Chan c; c.s = x[0]; c.t = x[1]; c.p.assign(durs[x[0]].size(), x[2]); c.c.assign(durs[x[1]].size(), x[3]); c.m = x[4]; g.C.push_back(c); } return g; }
inline ll total(const std::vector<ll>& v) { ll s = 0; for (ll x : v) s += x; return s; }
template <class F> inline void large_families(int size, F go) {
  auto listed = [&](const std::string& name, const std::vector<G>& l) { Family f; f.name = name; f.n = 0; f.list = l; go(f); };
  std::vector<G> l; std::vector<std::array<int, 5>> ch; auto ones = [](int n, int k, int v) { std::vector<std::vector<int>> d(n, {1}); if (k >= 0) d[k] = {v}; return d; };
  for (int n : size ? std::vector<int>{6, 9, 17} : std::vector<int>{7}) for (int k : {0, n / 2, n - 1}) for (int j = 0; j < n; j++) for (int q : {1, 2, n - 1}) { ch.clear(); for (int i = 0; i < n; i++) ch.push_back({i, (i + 1) % n, 1, 1, i == j ? q : 0}); l.push_back(plain(ones(n, k, 7), ch)); } listed("rings of 6..17 actors, every place of the tokens", l); l.clear();
  for (int n : size ? std::vector<int>{6, 10} : std::vector<int>{6}) for (int j = 0; j < n; j++) for (int k = 0; k < n; k += size ? 1 : 3) for (int w : {1, 3}) for (int q : {4, 5, 7}) { ch.clear(); for (int i = 0; i < n; i++) { int up = j, dn = (j + w) % n; ch.push_back({i, (i + 1) % n, i == up ? 3 : i == dn ? 2 : 1, i == up ? 2 : i == dn ? 3 : 1, i == (n / 2) ? q : 0}); } l.push_back(plain(ones(n, k, 4), ch)); } listed("rings of 6..10 actors with two rate changes at every place", l); l.clear();
  for (int n : size ? std::vector<int>{5, 9} : std::vector<int>{6}) for (int j = 0; j + 1 < n; j++) for (int k = 0; k < n; k++) for (int q : {0, 1, 3}) { ch.clear(); for (int i = 0; i + 1 < n; i++) { ch.push_back({i, i + 1, 1, 1, 0}); ch.push_back({i + 1, i, 1, 1, i == j ? q : 2}); } l.push_back(plain(ones(n, k, 5), ch)); } listed("chains of 2-cycles, every place of the bottleneck", l); l.clear();
  for (int a : {3, 5}) for (int b : {2, 4}) for (int q = 1; q <= 2; q++) for (int k = 0; k < a + b - 1; k++) for (int o = 0; o < 2; o++) { ch.clear(); int n = a + b - 1; for (int i = 0; i < a; i++) ch.push_back({i, (i + 1) % a, 1, 1, i == a - 1 ? q : 0}); for (int i = 0; i < b; i++) { int x = i ? a + i - 1 : 0, y = i + 1 < b ? a + i : 0; ch.push_back({x, y, 1, 1, i == 0 ? 3 - q : 0}); } if (o) for (auto& x : ch) { x[0] = n - 1 - x[0]; x[1] = n - 1 - x[1]; } l.push_back(plain(ones(n, k, 3), ch)); } listed("two rings that share an actor", l); l.clear();
  for (int n : {7, 13}) for (int hub : {0, n / 2, n - 1}) for (int q = 1; q <= 2; q++) for (int k = 0; k < n; k += size ? 1 : 3) { ch.clear(); for (int i = 0; i < n; i++) if (i != hub) { ch.push_back({hub, i, 1, 1, 0}); ch.push_back({i, hub, 1, 1, q}); } l.push_back(plain(ones(n, k, 6), ch)); } listed("stars of 7 and 13 actors", l); l.clear();
  for (int n : {5, 6}) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) { ch.clear(); for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) if (x != y) ch.push_back({x, y, 1, 1, x > y || x == j ? 1 : 0}); l.push_back(plain(ones(n, k, 4), ch)); } listed("complete graphs of 5..6 actors", l); l.clear();
  for (int m : {3, 6}) for (int k = 0; k < m; k++) for (int q = 0; q <= 3; q++) { ch.clear(); for (int i = 0; i < m; i++) { ch.push_back({0, 1, 1, 1, i == k ? 0 : 2}); ch.push_back({1, 0, 1, 1, i == m - 1 - k ? q : 4}); } l.push_back(plain({{2}, {3}}, ch)); } listed("3..6 parallel channels in each direction", l); l.clear();
  { std::vector<std::vector<int>> pat{{1}, {3, 0, 1, 0, 1}, {0, 0, 0, 0, 0, 4}, {1, 1, 2, 0, 1, 1, 2}, {2, 0, 0, 0, 0, 0, 0, 2}, {1, 2, 1, 0}}; for (auto& p : pat) for (auto& c : pat) for (int q : size ? std::vector<int>{2, 4, 6, 7, 9} : std::vector<int>{4, 7}) { G g; g.tden = 1; for (auto* v : {&p, &c}) { Actor a; a.reent = 1; for (size_t i = 0; i < v->size(); i++) a.dur.push_back(1 + (i * 5 + v->size()) % 4); g.A.push_back(a); } Chan x; x.s = 0; x.t = 1; x.p = p; x.c = c; x.m = 0; g.C.push_back(x); x.s = 1; x.t = 0; x.p = c; x.c = p; x.m = q; g.C.push_back(x); auto r = repetition(g); if (r.empty()) continue; ll s = 0; for (int a = 0; a < 2; a++) s += r[a] * (ll)g.A[a].dur.size(); if (s <= 40) l.push_back(g); } } listed("2-cycles with up to 8 phases", l); l.clear();
  for (int p : {12, 18, 30, 64}) for (int c : {12, 18, 30, 64}) for (int e : {-1, 0, 1, 7}) for (int f : {0, 1}) { int q = std::gcd(p, c); int m = p + c - q + e; ch.clear(); ch.push_back({0, 1, p, c, f ? 5 : 0}); ch.push_back({1, 0, c, p, m}); G g = plain({{1}, {4}}, ch); auto r = repetition(g); if (r[0] + r[1] <= 24) l.push_back(g); } listed("2-cycles with rates 12..64", l); l.clear();
  for (int q : {40, 300}) for (int p = 1; p <= 2; p++) for (int d : {1, 5}) for (int e : {1, 3}) for (int back = 0; back < 2; back++) { ch.clear(); ch.push_back({0, 1, p, 1, back ? 0 : q}); ch.push_back({1, 0, 1, p, back ? q : 0}); l.push_back(plain({{d}, {e}}, ch)); } listed("2-cycles with many tokens", l); l.clear();
}
} // namespace kv
