// Merge: every subset of actors of every live graph of the families. The composite's phases must admit a reading as firings of the merged actors that respects every channel.
#include "kiter_api.hpp"
#include "stdfam.hpp"
#include <models/Dataflow.h>
#include <models/Scheduling.h>
#include <algorithms/schedulings.h>
#include <algorithms/transformation/merging.h>
using namespace kv;
namespace {
ll at(const std::vector<int>& i, const std::vector<int>& p, ll k) { return k < (ll)i.size() ? i[k] : p[(k - i.size()) % p.size()]; }
struct Judge { Ctx& c; const G& g; const std::vector<ll>& r; int mask; int sched; std::vector<int> M; // merged actors
  bool in(int a) const { return mask >> a & 1; }
  void run() { size_t n = g.A.size(); for (size_t a = 0; a < n; a++) if (in(a)) M.push_back(a); models::Dataflow* d = build(g); for (size_t i = 0; i < g.C.size(); i++) d->setTokenSize(d->getEdgeByName(cname(i)), 3 + i); d->reset_computation(); parameters_list_t p; std::string ids; for (int a : M) ids += (ids.size() ? "," : "") + std::to_string(d->getVertexId(d->getVertexByName(aname(a)))); p["tasks"] = ids; p["name"] = "merged"; c.evals(); std::string how = " (merging " + ids + (sched == 1 ? ", 1-periodic schedule" : sched == 2 ? ", strictly periodic schedule" : "") + ")"; Run x; bool done = true; if (!sched) x = algo("Merge", d, p); else { bool none = false; x = guarded([&]() { (void)computeRepetitionVector(d); models::Scheduling s = sched == 1 ? algorithms::scheduling::CSDF_1PeriodicScheduling(d) : algorithms::scheduling::CSDF_SPeriodicScheduling(d); if (std::isinf((double)s.getGraphPeriod()) || s.getGraphPeriod() <= 0) { none = true; return; } std::vector<ARRAY_INDEX> v; for (int a : M) v.push_back(d->getVertexId(d->getVertexByName(aname(a)))); done = algorithms::transformation::mergeCSDFFromSchedule(d, "merged", v, &s); }); if (none) { c.count("no schedule of the class"); delete d; return; } } if (x.ok() && !done) c.fail("error", "merge refused" + how); if (!x.ok()) { c.fail("error", "merge failed: " + x.err.substr(0, 200) + how); delete d; return; }
    std::string e; try { e = judge(d); } catch (std::exception& q) { e = std::string("unreadable result: ") + q.what(); } if (e.size()) c.fail(e.substr(0, e.find(':')), e + how); delete d; }
  std::string judge(models::Dataflow* d) { size_t n = g.A.size(); G h = readG(d); std::map<std::string, int> av, ce; {int k = 0; ForEachVertex(d, v) av[d->getVertexName(v)] = k++; } {int k = 0; ForEachEdge(d, e) ce[d->getEdgeName(e)] = k++; }
    if (av.size() != h.A.size() || h.A.size() != n - M.size() + 1 || !av.count("merged")) return "actors: the result has " + std::to_string(h.A.size()) + " actors"; int comp = av["merged"]; size_t ext = 0;
    for (size_t a = 0; a < n; a++) { if (in(a)) { if (av.count(aname(a))) return "actors: merged actor still there"; continue; } if (!av.count(aname(a))) return "actors: actor " + aname(a) + " disappeared"; auto& b = h.A[av[aname(a)]]; if (b.dur != g.A[a].dur || b.idur != g.A[a].idur || b.reent != g.A[a].reent) return "actors: actor " + aname(a) + " changed"; }
    auto& K = h.A[comp]; size_t u = K.idur.size(), P = K.dur.size();
    for (size_t i = 0; i < g.C.size(); i++) { auto& q = g.C[i]; bool internal = in(q.s) && in(q.t); if (internal) { if (ce.count(cname(i))) return "channels: internal channel still there"; continue; } ext++; if (!ce.count(cname(i))) return "channels: channel " + cname(i) + " disappeared"; auto& z = h.C[ce[cname(i)]]; if (z.s != (in(q.s) ? comp : av[aname(q.s)]) || z.t != (in(q.t) ? comp : av[aname(q.t)])) return "channels: channel " + cname(i) + " connects other actors"; if (z.m != q.m) return "channels: tokens of channel " + cname(i); if (!in(q.s) && (z.p != q.p || z.ip.size())) return "channels: production of channel " + cname(i); if (!in(q.t) && (z.c != q.c || z.ic.size())) return "channels: consumption of channel " + cname(i);
      Edge e = d->getEdgeByName(cname(i)); if (!in(q.s) && !in(q.t)) { if (d->getTokenSize(e) != (TOKEN_UNIT)(3 + i) || d->getEdgeInputPortName(e) != "in_" + cname(i) || d->getEdgeOutputPortName(e) != "out_" + cname(i)) return "channels: attributes of channel " + cname(i); } else if (d->getTokenSize(e) != (TOKEN_UNIT)(3 + i)) return "token-size: channel " + cname(i) + " has token size " + std::to_string(d->getTokenSize(e)) + " instead of " + std::to_string(3 + i); }
    if (ext != h.C.size()) return "channels: the result has " + std::to_string(h.C.size()) + " channels"; auto hr = repetition(h); if (hr.empty()) return "inconsistent: the result is not consistent: " + h.key();
    // proportion
    ll tot = 0; for (int a : M) tot += r[a] * phases(g, a); std::vector<ll> dl; for (int a : M) { ll N = r[a] * phases(g, a); if ((ll)P * N % tot || (ll)P * N / tot % phases(g, a)) return "proportion: " + std::to_string(P) + " periodic phases are not whole cycles of every merged actor"; dl.push_back((ll)P * N / tot); }
    // a reading of the phases as firings
    auto step = [&](std::set<std::vector<ll>>& S, size_t i) { std::set<std::vector<ll>> T; for (auto& k : S) for (size_t j = 0; j < M.size(); j++) { int a = M[j]; bool ok = at(K.idur, K.dur, i) == g.A[a].dur[k[j] % phases(g, a)]; for (size_t x = 0; x < g.C.size() && ok; x++) { auto& q = g.C[x]; if (!in(q.s) && !in(q.t)) continue; if (in(q.s) && in(q.t)) { if (q.t != a) continue; int js = std::find(M.begin(), M.end(), q.s) - M.begin(); if (q.m + cum(q.p, k[js]) - cum(q.c, k[j]) < q.c[k[j] % q.c.size()]) ok = false; } else { auto& z = h.C[ce[cname(x)]]; bool out = in(q.s); ll v = out ? at(z.ip, z.p, i) : at(z.ic, z.c, i); ll w = (out ? q.s : q.t) == a ? (out ? q.p : q.c)[k[j] % phases(g, a)] : 0; if (v != w) ok = false; } } if (ok) { auto k2 = k; k2[j]++; T.insert(k2); c.transitions(1); } } c.states(T.size()); S = T; };
    std::set<std::vector<ll>> S{std::vector<ll>(M.size(), 0)}; for (size_t i = 0; i < u; i++) { step(S, i); if (S.empty()) return "flow: initial phase " + std::to_string(i + 1) + " of the composite is no firing of a merged actor; result " + h.key(); }
    bool found = false; std::string deep; for (auto& s : S) { std::set<std::vector<ll>> W{s}; for (size_t i = 0; i < P && W.size(); i++) step(W, u + i); std::vector<ll> e = s; for (size_t j = 0; j < M.size(); j++) e[j] += dl[j]; if (W.count(e)) { found = true; break; } } if (!found) return "flow: the periodic phases of the composite are no sequence of firings of the merged actors that can repeat; result " + h.key(); c.validated();
    ll steps = 0; G z; bool lv = settle(h, hr, z, &steps) && live(z, hr); c.transitions(steps); if (!lv) return "live: the result deadlocks: " + h.key(); Thr o = hsdf_throughput(g, r), t = hsdf_throughput(z, hr); c.outcome(std::to_string(u) + "/" + std::to_string(P) + " " + (t.live && !t.unbounded ? t.period.str() : "-")); if (!t.live) return "live: the result deadlocks in its periodic part: " + h.key(); if (o.unbounded) return ""; if (t.unbounded) return "throughput: unbounded after merging"; 
    for (size_t a = 0; a < n; a++) { Q before = Q(r[a] * phases(g, a)) / o.period, after; if (in(a)) { size_t j = std::find(M.begin(), M.end(), (int)a) - M.begin(); after = Q(dl[j] * hr[comp]) / t.period; } else after = Q(hr[av[aname(a)]] * phases(g, a)) / t.period; if (after > before) return "throughput: actor " + aname(a) + " fires " + after.str() + " times per unit after merging, " + before.str() + " before; result " + h.key(); }
    return ""; } };
void check(Ctx& c, const G& g, const std::vector<ll>& r) { int n = g.A.size(); unsigned h = 0; for (char q : g.key()) h = h * 31 + q; for (int mask = 1; mask < 1 << n; mask++) for (int sc = 0; sc < 3; sc++) { if (sc && !c.thorough && !c.replaying && (h + mask) % 4) continue; Judge j{c, g, r, mask, sc}; j.run(); } }
void run(Ctx& c) { bool t = c.thorough; long cnt = 0; auto go = [&](Family f) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>& r) { if (r.empty() || !live(g, r)) return; each(c, g, [&](const G& x) { check(c, x, r); }); if (cnt++ % (t ? 2 : 6) == 0) for (size_t a = 0; a <= g.A.size(); a++) { G y = g; for (size_t b = 0; b < y.A.size(); b++) if (b == a || a == y.A.size()) y.A[b].reent = 0; Thr th = hsdf_throughput(y, r); if (th.live && !th.unbounded) each(c, y, [&](const G& x) { check(c, x, r); }); } }); };
  large_families(0, [&](Family f) { std::vector<G> l; for (auto& g : f.list) if (g.A.size() <= 6 && total(repetition(g)) <= 24) l.push_back(g); if (!t) { std::vector<G> m; for (size_t i = 0; i < l.size(); i += 7) m.push_back(l[i]); l = m; } f.list = l; if (l.size()) go(f); });
  Alpha r13{{1, vecs(1, 1, 3)}}, r14{{1, vecs(1, 1, 4)}}, one{{1, V({{1}})}}, ph{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 1}, {1, 1}, {2, 1}})}, {3, V({{1, 0, 1}, {0, 0, 1}})}}; Alpha d1{{1, V({{1}, {3}})}, {2, V({{1, 2}, {3, 1}})}, {3, V({{1, 2, 4}})}}, dd{{1, V({{1}, {2}})}, {2, V({{2, 1}})}, {3, V({{1, 1, 2}})}};
  go(family("2 actors, 1..3 channels incl. self-loops, rates 1..4", 2, topologies(2, 1, t ? 3 : 2, true, 2, true, true), all_phase(2, {1}), r14, dd, tokK(2), 16));
  go(family("2 actors, 1..3 channels, phases 1..3", 2, topologies(2, 1, 3, false, 2, true, true), all_phase(2, {1, 2, 3}), ph, dd, tokK(2), t ? 30 : 20));
  go(family("3 actors, 2..4 channels, rates 1..3", 3, topologies(3, 2, t ? 4 : 3, false, 1, true, true), all_phase(3, {1}), r13, d1, tokK(t ? 3 : 2), t ? 18 : 12));
  go(family("3 actors, 2..3 channels, phases 1..2", 3, topologies(3, 2, 3, false, 1, true, true), all_phase(3, {1, 2}), ph, Alpha{{1, V({{1}})}, {2, V({{1, 3}})}}, tokK(1), 12));
  go(family("4 actors, 3..5 channels, rates 1..2", 4, topologies(4, 3, t ? 5 : 4, false, 1, true, true), all_phase(4, {1}), Alpha{{1, vecs(1, 1, 2)}}, one, tokK(1), 9)); }
void oneCase(Ctx& c, const std::string& key) { c.mark(key); G g = G::parse(key); auto r = repetition(g); check(c, g, r); }
}
kv::Module kv::module{"P13", run, oneCase, "every non-empty subset of actors of every live graph of the families is merged; the composite's phase sequence is matched, over all possible readings, with firing sequences of the merged actors that never overdraw an internal channel and whose periodic part is whole cycles in the right proportion; liveness by an untimed execution through the transient, throughput exactly on the dependency graph of the periodic part", {"actors of the input have no initial phases"}};
