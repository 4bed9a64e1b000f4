// Graph transformations touch only what they announce.
#include "snap.hpp"
#include "stdfam.hpp"
#include "oracle.hpp"
#include <models/NoC.h>
using namespace kv;
namespace {
std::vector<int> bitsOf(int m, int n) { std::vector<int> v; for (int i = 0; i < n; i++) if ((m >> i) & 1) v.push_back(i); return v; }
std::string joinNames(const std::vector<int>& v) { std::string s; for (int i : v) s += (s.empty() ? "" : ",") + aname(i); return s; }
std::string joinIds(models::Dataflow* d, const std::vector<int>& v) { std::string s; for (int i : v) s += (s.empty() ? "" : ",") + std::to_string(d->getVertexId(d->getVertexByName(aname(i)))); return s; }
bool faster(const Thr& a, const Thr& b) { if (!a.live) return false; if (!b.live) return true; if (b.unbounded) return false; if (a.unbounded) return true; return a.period < b.period; } // a strictly faster than b
// how: 0 by name, 1 by id, 2 no parameter (mask = all)
void reentrancy(Ctx& c, const G& g, int mask, int how) { c.evals(); auto* d = build(g); Snap b = snap(d, false); auto sel = bitsOf(mask, g.A.size()); parameters_list_t p; if (how == 0) p["taskname"] = joinNames(sel); if (how == 1) p["taskid"] = joinIds(d, sel); auto r0 = repetition(g); Run r = algo("RemoveReentrancy", d, p); c.validated(); if (!r.ok()) { c.fail("reentrancy-error", r.err); delete d; return; } Snap a = snap(d, false); std::string e = diff(b.act, a.act); if (e.empty()) e = diff(b.chan, a.chan); if (!e.empty()) c.fail("reentrancy-side-effect", e);
  for (int i = 0; i < (int)g.A.size(); i++) { c.states(1); long f = d->getReentrancyFactor(d->getVertexByName(aname(i))), want = ((mask >> i) & 1) || how == 2 ? 0 : g.A[i].reent; if (f != want) c.fail("reentrancy", aname(i) + " has limit " + std::to_string(f) + " instead of " + std::to_string(want)); }
  if (!r0.empty()) { G h = readG(d); bool single = true; for (auto& x : h.A) if (x.dur.size() > 1 && x.reent == 0) single = false; if (single) { c.transitions(1); Thr t0 = hsdf_throughput(g, r0), t1 = hsdf_throughput(h, r0); if (faster(t0, t1)) c.fail("reentrancy-throughput", "throughput dropped"); } if (!d->is_consistent()) c.fail("reentrancy-consistent", "graph became inconsistent"); } delete d; c.outcome("reentrancy"); }
void removal(Ctx& c, const G& g, int byName, int byId, bool analysed) { c.evals(); auto* d = build(g); if (analysed) { d->is_consistent(); d->reset_computation(); } Snap b = snap(d); parameters_list_t p; auto n = bitsOf(byName, g.A.size()), i = bitsOf(byId, g.A.size()); if (n.size()) p["taskname"] = joinNames(n); if (i.size()) p["taskid"] = joinIds(d, i); std::set<long> gone; for (int x : n) gone.insert(d->getVertexId(d->getVertexByName(aname(x)))); for (int x : i) gone.insert(d->getVertexId(d->getVertexByName(aname(x)))); Snap w; for (auto& x : b.act) if (!gone.count(x.first)) w.act.insert(x); {ForEachEdge(d, e) { if (!gone.count(d->getVertexId(d->getEdgeSource(e))) && !gone.count(d->getVertexId(d->getEdgeTarget(e)))) w.chan[d->getEdgeId(e)] = chanText(d, e); }}
  Run r = algo("remove", d, p); c.validated(); if (!r.ok()) { c.fail("remove-error", r.err); delete d; return; } Snap a = snap(d); c.states(a.act.size()); c.transitions(a.chan.size()); std::string e = diff(w.act, a.act); if (e.empty()) e = diff(w.chan, a.chan); if (!e.empty()) c.fail("remove", e); if ((size_t)d->getVerticesCount() != w.act.size() || (size_t)d->getEdgesCount() != w.chan.size()) c.fail("remove", "counts"); if (!repetition(g).empty() && !w.act.empty() && !d->is_consistent()) c.fail("remove-consistent", "graph became inconsistent"); delete d; c.outcome("removed " + std::to_string(gone.size())); }
// one actor's outputs gathered in one channel, then spread again
void single(Ctx& c, const G& g, int who) { auto r0 = repetition(g); if (r0.empty()) return; std::vector<int> outs; bool same = true; for (size_t k = 0; k < g.C.size(); k++) if (g.C[k].s == who) { outs.push_back(k); if (g.C[k].p != g.C[outs[0]].p || g.C[k].ip != g.C[outs[0]].ip) same = false; }
  c.evals(); auto* d = build(g); Snap b = snap(d); parameters_list_t p; p["name"] = aname(who); Run r = algo("SingleOutput", d, p); c.validated(); if (!r.ok()) { if (same) c.fail("single-error", r.err); delete d; c.outcome("refused"); return; } Snap a = snap(d); Vertex t = d->getVertexByName(aname(who)); long tid = d->getVertexId(t);
  if (d->getVertexOutDegree(t) > 1) { c.fail("single", "still " + std::to_string(d->getVertexOutDegree(t)) + " outputs"); delete d; return; }
  for (auto& x : b.act) if (!a.act.count(x.first) || a.act[x.first] != x.second) c.fail("single-side-effect", "actor " + x.second); std::map<long, std::string> kept; {ForEachEdge(d, e) { long s = d->getVertexId(d->getEdgeSource(e)); if (b.act.count(s) && s != tid) kept[d->getEdgeId(e)] = chanText(d, e); }} std::map<long, std::string> wantKept; int nOut = 0; for (auto& x : b.chan) { bool mine = false; for (int k : outs) if (x.second.compare(0, cname(k).size() + 1, cname(k) + " ") == 0) mine = true; if (!mine) wantKept.insert(x); else nOut++; } std::string e = diff(wantKept, kept); if (!e.empty()) c.fail("single-side-effect", e);
  if (outs.size() <= 1) { e = diff(b.chan, a.chan); if (!e.empty() || a.act.size() != b.act.size()) c.fail("single-side-effect", "graph changed although " + aname(who) + " has one output: " + e); delete d; c.outcome("unchanged"); return; }
  G h = readG(d); auto rh = repetition(h); if (rh.empty()) { c.fail("single-consistent", "result is inconsistent"); delete d; return; } int n = g.A.size(); ll f = 0; for (int i = 0; i < n; i++) if (rh[i] % r0[i] || (f && rh[i] / r0[i] != f)) c.fail("single-repetition", "repetition of " + aname(i)); else f = rh[i] / r0[i];
  // every original channel has its own path through new actors, carrying the same tokens: walk from the actor through the copies
  std::multiset<std::string> want, got; for (int k : outs) { std::ostringstream o; o << g.C[k].t << " " << T(g.C[k].p) << " " << T(g.C[k].c) << " " << T(g.C[k].ip) << " " << T(g.C[k].ic) << " " << g.C[k].m; want.insert(o.str()); }
  std::vector<int> todo; std::vector<int> pin, pip; std::vector<char> seen(h.A.size(), 0); bool bad = false; for (auto& x : h.C) if (x.s == who) { pin = x.p; pip = x.ip; if (x.t < n || x.m) { bad = true; } todo.push_back(x.t); for (int q : x.c) if (q != 1) bad = true; } while (!todo.empty() && !bad) { int v = todo.back(); todo.pop_back(); if (v < n) continue; if (seen[v]) { bad = true; break; } seen[v] = 1; for (auto& x : h.C) if (x.s == v) { c.transitions(1); for (int q : x.p) if (q != 1) bad = true; if (x.t >= n) { for (int q : x.c) if (q != 1) bad = true; if (x.m) bad = true; todo.push_back(x.t); } else { std::ostringstream o; o << x.t << " " << T(pin) << " " << T(x.c) << " " << T(pip) << " " << T(x.ic) << " " << x.m; got.insert(o.str()); } } } for (size_t v = n; v < h.A.size(); v++) if (!seen[v]) bad = true;
  if (bad || want != got) c.fail("single-channels", "the copies do not carry the tokens of the original channels"); bool ini = false; for (auto& x : g.A) if (x.idur.size()) ini = true;
  if (!ini) { c.states(1); Thr t0 = hsdf_throughput(g, r0), t1 = hsdf_throughput(h, rh); if (f > 1) t1.period = t1.period / Q(f); if (t0.live != t1.live) c.fail("single-live", t0.live ? "live graph deadlocks afterwards" : "deadlock disappears"); else if (faster(t1, t0)) c.fail("single-throughput", "throughput increased"); } delete d; c.outcome("copies"); }
// explicit network: every routed channel becomes its chain of links and routers
void network(Ctx& c, const G& g, int X, int Y, const std::vector<int>& place, int routed) { auto r0 = repetition(g); if (r0.empty()) return; c.evals(); auto* d = build(g); NoC noc(X, Y); d->setNoC(noc); int N = X * Y; for (size_t i = 0; i < g.A.size(); i++) d->setMapping(d->getVertexByName(aname(i)), N + place[i] % N); if (routed) { Run r = algo("xyRouting", d); if (!r.ok()) { c.fail("route-error", r.err); delete d; return; } if (routed == 2) { ForEachEdge(d, e) { if (d->getEdgeName(e) == cname(0)) d->setRoute(e, route_t()); } } }
  std::map<int, route_t> routes; {ForEachEdge(d, e) { for (size_t k = 0; k < g.C.size(); k++) if (d->getEdgeName(e) == cname(k)) routes[k] = d->getRoute(e); }} Snap b = snap(d); bool multi = false; for (auto& a : g.A) if (a.dur.size() > 1) multi = true; Run r = algo("ModelNoCConflictFreeCommunication", d); c.validated(); if (!r.ok()) { if (!multi) c.fail("network-error", r.err); delete d; c.outcome("refused"); return; } Snap a = snap(d); for (auto& x : b.act) if (!a.act.count(x.first) || a.act[x.first] != x.second) c.fail("network-side-effect", "actor " + x.second);
  for (size_t i = 0; i < g.A.size(); i++) if (d->getMapping(d->getVertexByName(aname(i))) != N + place[i] % N) c.fail("network-side-effect", "mapping of " + aname(i));
  // follow each outgoing channel of an original actor through network actors
  std::map<long, int> orig; for (size_t i = 0; i < g.A.size(); i++) orig[d->getVertexId(d->getVertexByName(aname(i)))] = i; std::multiset<std::string> want, got; auto text = [](int s, int t, const std::vector<int>& p, const std::vector<int>& cc, ll m, const std::vector<long>& path) { std::ostringstream o; o << s << ">" << t << " " << T(p) << T(cc) << m << " via " << T(path); return o.str(); };
  for (size_t k = 0; k < g.C.size(); k++) { auto& x = g.C[k]; std::vector<long> path; if (x.s != x.t) for (size_t i = 0; i < routes[k].size(); i++) { path.push_back(routes[k][i]); if (i + 1 < routes[k].size()) path.push_back(d->getNoC().getEdge(routes[k][i]).dst); } want.insert(text(x.s, x.t, x.p, x.c, x.m, path)); }
  size_t used = 0; {ForEachEdge(d, e0) { long sid = d->getVertexId(d->getEdgeSource(e0)); if (!orig.count(sid)) continue; std::vector<long> path; std::vector<int> p(d->getEdgeInVector(e0).begin(), d->getEdgeInVector(e0).end()); ll m = d->getPreload(e0); Edge e = e0; bool ok = true; while (!orig.count(d->getVertexId(d->getEdgeTarget(e)))) { Vertex v = d->getEdgeTarget(e); used++; c.transitions(1); long mp = d->getMapping(v); path.push_back(mp); bool link = d->getNoC().hasEdge(mp); TIME_UNIT du = d->getVertexDuration(v, 1); if (d->getEdgeOut(e) != 1 || d->getPhasesQuantity(v) != 1 || d->getReentrancyFactor(v) != 1 || du != (link ? 1 : 0)) { c.fail("network-actor", "network actor " + d->getVertexName(v) + " has wrong rates, time or limit"); ok = false; break; } if (d->getVertexOutDegree(v) != 1 || d->getVertexInDegree(v) != 1 || path.size() > 100) { c.fail("network-actor", "network actor " + d->getVertexName(v) + " is not in a chain"); ok = false; break; } Edge n = *(d->getOutputEdges(v).first); if (d->getEdgeIn(n) != 1) { c.fail("network-actor", "network actor " + d->getVertexName(v) + " sends several tokens"); ok = false; break; } m += d->getPreload(n); e = n; } if (!ok) continue; std::vector<int> q(d->getEdgeOutVector(e).begin(), d->getEdgeOutVector(e).end()); got.insert(text(orig[sid], orig[d->getVertexId(d->getEdgeTarget(e))], p, q, m, path)); }}
  if (want != got) { std::string w; for (auto& x : want) if (!got.count(x)) w += " missing " + x; for (auto& x : got) if (!want.count(x)) w += " unexpected " + x; c.fail("network-path", w); } if (used + g.A.size() != (size_t)d->getVerticesCount()) c.fail("network-actor", "actors that are not on any route");
  G h = readG(d); auto rh = repetition(h); if (rh.empty()) { c.fail("network-consistent", "result is inconsistent"); delete d; return; } int nc; wcc(g, &nc); if (nc <= 1) { ll f = rh[0] / r0[0]; for (size_t i = 0; i < g.A.size(); i++) if (rh[i] != f * r0[i]) c.fail("network-repetition", "repetition of " + aname(i)); bool zero = false; (void)zero; ll total = 0; for (ll x : rh) total += x; if (total < 300) { Thr t0 = hsdf_throughput(g, r0), t1 = hsdf_throughput(h, rh); if (f > 1) t1.period = t1.period / Q(f); if (t0.live != t1.live) c.fail("network-live", t0.live ? "live graph deadlocks afterwards" : "deadlock disappears"); else if (faster(t1, t0)) c.fail("network-throughput", "throughput increased"); c.states(1); } } delete d; c.outcome("network"); }
void dispatch(Ctx& c, const std::string& key) { std::istringstream in(key); std::string op, k; in >> op; auto I = [&]() { int x; in >> x; return x; }; if (op == "reent") { int m = I(), h = I(); in >> k; reentrancy(c, G::parse(k), m, h); } else if (op == "remove") { int a = I(), b = I(), z = I(); in >> k; removal(c, G::parse(k), a, b, z); } else if (op == "single") { int w = I(); in >> k; single(c, G::parse(k), w); } else if (op == "net") { int x = I(), y = I(), ro = I(), n = I(); std::vector<int> pl; for (int i = 0; i < n; i++) pl.push_back(I()); in >> k; network(c, G::parse(k), x, y, pl, ro); } }
void go(Ctx& c, const std::string& key) { if (!c.take()) return; c.mark(key); dispatch(c, key); }
void run(Ctx& c) { bool th = c.thorough; Alpha one{{1, V({{1}})}}, r12{{1, vecs(1, 1, 2)}}, r13{{1, vecs(1, 1, 3)}}, d12{{1, V({{1}, {3}})}}, cs{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}}, cd{{1, V({{2}})}, {2, V({{1, 2}})}};
  auto each = [&](const Family& f, auto fn) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>& r) { fn(g, r); }); };
  auto re = [&](const G& g, const std::vector<ll>& r) { int n = g.A.size(); for (int m = 1; m < (1 << n); m++) for (int h = 0; h < 2; h++) go(c, "reent " + std::to_string(m) + " " + std::to_string(h) + " " + g.key()); go(c, "reent " + std::to_string((1 << n) - 1) + " 2 " + g.key()); for (int a = 0; a < (1 << n); a++) for (int b = 0; b < (1 << n); b++) if (!(a & b)) go(c, "remove " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string((a + b) & 1) + " " + g.key()); };
  each(family("limits and removals: SDF, 1 actor", 1, topologies(1, 0, 2, true, 2, true, true), all_phase(1, {1}), r13, d12, tokK(2), 12, {{0}, {1}, {2}}), re);
  each(family("limits and removals: SDF, 2 actors, 0..3 channels", 2, topologies(2, 0, 3, true, 2, true, false), all_phase(2, {1}), r12, one, tokK(1), 12, {{0, 1}, {1, 1}, {2, 1}}), re);
  each(family("limits and removals: CSDF, 2 actors, 1..2 channels", 2, topologies(2, 1, 2, true, 2, true, false), all_phase(2, {1, 2}), cs, cd, tokK(2), 12), re);
  each(family("limits and removals: SDF, 3 actors, 0..4 channels", 3, topologies(3, 0, th ? 5 : 4, true, 1, true, false), all_phase(3, {1}), one, Alpha{{1, V({{2}})}}, tokK(1), 12), re);
  if (th) each(family("limits and removals: HSDF, 4 actors, 3..5 channels", 4, topologies(4, 3, 5, false, 1, true, false), all_phase(4, {1}), one, Alpha{{1, V({{2}})}}, tokK(1), 12), re);
  auto si = [&](const G& g, const std::vector<ll>& r) { if (r.empty()) return; std::vector<int> out(g.A.size(), 0); for (auto& x : g.C) out[x.s]++; for (size_t a = 0; a < g.A.size(); a++) go(c, "single " + std::to_string(a) + " " + g.key()); };
  each(family("single output: SDF, 1 actor, 0..3 self-loops", 1, topologies(1, 0, 3, true, 3, true, true), all_phase(1, {1}), r12, d12, tokK(2), 12), si);
  each(family("single output: SDF, 2 actors, 1..4 channels", 2, topologies(2, 1, th ? 4 : 3, true, 2, true, true), all_phase(2, {1}), r12, one, tokK(2), 12), si);
  each(family("single output: CSDF, 2 actors, 2..3 channels", 2, topologies(2, 2, 3, true, 2, true, true), all_phase(2, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {1, 2}})}}, cd, tokK(1), 12), si);
  each(family("single output: HSDF, 3 actors, 2..6 channels", 3, topologies(3, 2, 6, true, 1, true, true), all_phase(3, {1}), one, Alpha{{1, V({{2}})}}, tokK(1), 12), si);
  each(family("single output: SDF, 3 actors, 2..4 channels, rates 1..2", 3, topologies(3, 2, 4, false, 1, true, true), all_phase(3, {1}), r12, one, tokK(1), 12), si);
  each(family("single output: HSDF, 4 actors, 3..6 channels", 4, topologies(4, 3, th ? 7 : 6, false, 1, true, true), all_phase(4, {1}), one, one, tokK(1), 12), si);
  large_families(th ? 1 : 0, [&](const Family& f) { each(f, si); });
  auto ne = [&](const G& g, const std::vector<ll>& r) { if (r.empty()) return; int n = g.A.size(); struct P { int x, y; std::vector<std::vector<int>> pl; }; std::vector<P> ps{{2, 2, tuples(n, {0, 1, 3})}}; if (n <= 2) ps.push_back({3, 2, tuples(n, {0, 2, 3, 4})}); for (auto& p : ps) for (auto& pl : p.pl) for (int ro : {1, 2, 0}) { if (ro != 1 && p.x == 3) continue; std::string s; for (int x : pl) s += std::to_string(x) + " "; go(c, "net " + std::to_string(p.x) + " " + std::to_string(p.y) + " " + std::to_string(ro) + " " + std::to_string(n) + " " + s + g.key()); } };
  each(family("network: SDF, 1 actor, 0..1 self-loop", 1, topologies(1, 0, 1, true, 1, true, true), all_phase(1, {1}), r12, one, tokK(1), 12), ne);
  each(family("network: SDF, 2 actors, 1..2 channels", 2, topologies(2, 1, 2, true, 2, true, true), all_phase(2, {1}), th ? r13 : r12, d12, tokK(2), 12), ne);
  each(family("network: CSDF, 2-cycle", 2, {cycle(2)}, all_phase(2, {1, 2}), cs, cd, tokK(1), 12), ne);
  each(family("network: SDF, 3 actors, 2..3 channels", 3, topologies(3, 2, 3, false, 1, true, true), all_phase(3, {1}), r12, one, tokK(1), 12), ne);
  large_families(0, [&](const Family& f) { c.note("network, 3x3 grid, three placements: " + f.name); int k = 0; for (auto& g : f.list) { int n = g.A.size(); bool sdf = true; for (auto& a : g.A) if (a.dur.size() > 1) sdf = false; if (!sdf || n > 9 || k++ % 3) continue; for (int w = 0; w < 3; w++) for (int ro : {1, 2}) { std::string s; for (int a = 0; a < n; a++) s += std::to_string(w == 0 ? a % 9 : w == 1 ? (a * 4 + 2) % 9 : (a * 7) % 3) + " "; go(c, "net 3 3 " + std::to_string(ro) + " " + std::to_string(n) + " " + s + g.key()); } } });
}
void one(Ctx& c, const std::string& key) { c.mark(key); dispatch(c, key); }
}
kv::Module kv::module{"P21", run, one, "every selection of actors (by name, by identifier, all) of every graph of bounded families for the concurrency and removal commands; every actor for the single-output rewriting; every placement on small grids, with and without routes, for the explicit network model", {"single-output rewriting is claimed for outputs with the same production rates (refused otherwise)", "the explicit network model is claimed for single-phase actors (multi-phase ones may be refused)"}};
