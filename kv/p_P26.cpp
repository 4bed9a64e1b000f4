// The validity test of schedules accepts exactly the schedules that can be executed.
#include "kiter_api.hpp"
#include "stdfam.hpp"
#include "oracle.hpp"
#include <algorithms/schedulings.h>
#include <models/Scheduling.h>
using namespace kv;
namespace {
struct TS { std::vector<int> init, st; int period; };
std::string show(const std::vector<TS>& T) { std::string s; for (auto& t : T) { s += "["; for (int x : t.init) s += std::to_string(x) + " "; s += "|"; for (int x : t.st) s += " " + std::to_string(x); s += " every " + std::to_string(t.period) + "]"; } return s; }
// executable? 1 yes, 0 no, -1 not judged (an execution ends before an earlier one of the same actor). Executed tick by tick: ends first, then starts.
int executable(const G& g, const std::vector<TS>& T, ll& steps) {
  int n = g.A.size(), top = 1, span = 1; for (auto& t : T) { for (int x : t.init) top = std::max(top, x); for (int x : t.st) top = std::max(top, x); if (!t.st.empty()) span = std::lcm(span, t.period); } int rounds = 3; for (auto& c : g.C) rounds += c.m; for (int a = 0; a < n; a++) rounds += T[a].init.size() + g.A[a].idur.size(); int H = top + rounds * 6 * span; if (H > 4000) H = 4000;
  struct Ev { int t, kind, a, k; }; std::vector<Ev> ev;
  for (int a = 0; a < n; a++) { int k = 0, lastEnd = -1, I = g.A[a].idur.size(), P = g.A[a].dur.size(); auto add = [&](int t) { int d = k < I ? g.A[a].idur[k] : g.A[a].dur[(k - I) % P]; if (t + d < lastEnd) return false; lastEnd = t + d; ev.push_back({t, 1, a, k}); ev.push_back({t + d, 0, a, k}); k++; return true; }; for (int x : T[a].init) if (!add(x)) return -1; if (!T[a].st.empty()) for (int q = 0; q * T[a].period <= H; q++) for (int x : T[a].st) if (!add(x + q * T[a].period)) return -1; }
  std::stable_sort(ev.begin(), ev.end(), [](const Ev& x, const Ev& y) { return x.t < y.t; }); std::vector<ll> tok; for (auto& c : g.C) tok.push_back(c.m); std::vector<int> run(n, 0); size_t i = 0;
  while (i < ev.size() && ev[i].t <= H) { size_t j = i; while (j < ev.size() && ev[j].t == ev[i].t) j++; std::vector<Ev> todo(ev.begin() + i, ev.begin() + j); std::set<std::pair<int, int>> waits; for (auto& e : todo) if (e.kind) waits.insert({e.a, e.k}); bool go = true; while (go && !todo.empty()) { go = false; for (size_t q = 0; q < todo.size(); q++) { Ev e = todo[q]; int I = g.A[e.a].idur.size(), P = g.A[e.a].dur.size(); auto rate = [&](const std::vector<int>& ini, const std::vector<int>& per) { return e.k < I ? ini[e.k] : per[(e.k - I) % P]; }; bool ok = true; if (e.kind) { if (g.A[e.a].reent > 0 && run[e.a] >= g.A[e.a].reent) ok = false; for (auto& w : waits) if (w.first == e.a && w.second < e.k) ok = false; for (size_t c = 0; c < g.C.size(); c++) if (g.C[c].t == e.a && tok[c] < rate(g.C[c].ic, g.C[c].c)) ok = false; if (!ok) continue; for (size_t c = 0; c < g.C.size(); c++) if (g.C[c].t == e.a) tok[c] -= rate(g.C[c].ic, g.C[c].c); run[e.a]++; waits.erase({e.a, e.k}); } else { if (waits.count({e.a, e.k})) continue; for (size_t c = 0; c < g.C.size(); c++) if (g.C[c].s == e.a) tok[c] += rate(g.C[c].ip, g.C[c].p); run[e.a]--; } steps++; todo.erase(todo.begin() + q); go = true; break; } } if (!waits.empty()) return 0; i = j; }
  return 1; }
struct Built { models::Dataflow* d; std::vector<long> id; };
Built make(const G& g, bool shifted) { Built b; if (!shifted) { b.d = build(g); for (size_t i = 0; i < g.A.size(); i++) b.id.push_back(b.d->getVertexId(b.d->getVertexByName(aname(i)))); computeRepetitionVector(b.d); return b; }
  // the same graph with actor numbers above the channel numbers
  auto* d = new models::Dataflow(); std::vector<Vertex> v; int id = 40; for (size_t i = 0; i < g.A.size(); i++) { Vertex x = d->addVertex(id, aname(i)); v.push_back(x); b.id.push_back(id); id += 3; auto& a = g.A[i]; d->setPhasesQuantity(x, a.dur.size()); d->setVertexDuration(x, std::vector<TIME_UNIT>(a.dur.begin(), a.dur.end())); d->setInitPhasesQuantity(x, a.idur.size()); d->setVertexInitDuration(x, std::vector<TIME_UNIT>(a.idur.begin(), a.idur.end())); d->setReentrancyFactor(x, a.reent); } for (size_t i = 0; i < g.C.size(); i++) { auto& c = g.C[i]; Edge e = d->addEdge(v[c.s], v[c.t], cname(i)); d->setEdgeInPhases(e, std::vector<TOKEN_UNIT>(c.p.begin(), c.p.end())); d->setEdgeOutPhases(e, std::vector<TOKEN_UNIT>(c.c.begin(), c.c.end())); d->setEdgeInInitPhases(e, std::vector<TOKEN_UNIT>(c.ip.begin(), c.ip.end())); d->setEdgeOutInitPhases(e, std::vector<TOKEN_UNIT>(c.ic.begin(), c.ic.end())); d->setPreload(e, c.m); } b.d = d; computeRepetitionVector(d); return b; }
void verdict(Ctx& c, const G& g, const Built& b, const std::vector<TS>& T, int want, int div = 1) { scheduling_t s; for (size_t a = 0; a < T.size(); a++) { std::vector<TIME_UNIT> i, p; for (int x : T[a].init) i.push_back((TIME_UNIT)x / div); for (int x : T[a].st) p.push_back((TIME_UNIT)x / div); s.set(b.id[a], task_schedule_t(i, {(TIME_UNIT)T[a].period / div, p})); } bool got = false; models::Scheduling S(b.d, (TIME_UNIT)1, s); Run r = guarded([&]() { got = S.is_valid_schedule(); }); c.validated(); if (!r.ok()) { c.fail("error", r.err + " for " + show(T)); return; } if (got != (want == 1)) c.fail(got ? "accepts" : "rejects", show(T) + (div > 1 ? " in units of 1/" + std::to_string(div) : "")); }
std::vector<TS> choices(int kind) { std::vector<TS> r; auto inc = [](const std::vector<int>& v) { for (size_t i = 1; i < v.size(); i++) if (v[i] < v[i - 1]) return false; return true; };
  if (kind == 0) for (int p = 1; p <= 4; p++) for (int ni = 0; ni <= 1; ni++) for (auto& x : tuples(ni + 1, {0, 1, 2, 3, 4})) { if (!inc(x)) continue; TS t; t.period = p; t.init.assign(x.begin(), x.begin() + ni); t.st.assign(x.begin() + ni, x.end()); r.push_back(t); }
  if (kind == 1) for (int p : {2, 3, 4, 6}) for (int ni : {0, 2}) for (int k : {1, 2}) for (auto& x : tuples(ni + k, ni ? std::vector<int>{0, 1, 3} : std::vector<int>{0, 1, 2, 4, 5})) { if (!inc(x) || x.back() - x[ni] > p) continue; TS t; t.period = p; t.init.assign(x.begin(), x.begin() + ni); t.st.assign(x.begin() + ni, x.end()); r.push_back(t); }
  if (kind == 2) for (int p : {1, 2, 3, 4}) for (int x = 0; x <= 5; x++) r.push_back({{}, {x}, p});
  if (kind == 3) { for (int ni = 0; ni <= 3; ni++) for (auto& x : tuples(ni, {0, 1, 2, 3})) if (inc(x)) r.push_back({x, {}, 0}); for (int p : {1, 2}) for (int x : {0, 1, 3}) r.push_back({{}, {x}, p}); }
  return r; }
void grid(Ctx& c, const G& g, int kind) { c.evals(); Built a = make(g, false), b = make(g, true); auto ch = choices(kind); int n = g.A.size(); std::vector<size_t> ix(n, 0); ll good = 0, bad = 0, steps = 0, k = 0; for (;;) { std::vector<TS> T; for (int i = 0; i < n; i++) T.push_back(ch[ix[i]]); int w = executable(g, T, steps); if (w >= 0) { w ? good++ : bad++; verdict(c, g, a, T, w); if (k++ % 7 == 0) { verdict(c, g, b, T, w); G h = g; h.tden = 3; Built f = make(h, false); verdict(c, h, f, T, w, 3); delete f.d; } } if (c.failures > 20) break; int i = 0; while (i < n && ++ix[i] == ch.size()) ix[i++] = 0; if (i == n) break; } c.states(good + bad); c.transitions(steps); c.count("executable schedules", good); c.count("other schedules", bad); c.outcome(std::to_string(good > 0) + std::to_string(bad > 0)); delete a.d; delete b.d; }
// schedules computed by the tool: accepted as they are; with one start moved earlier or one period changed, exactly when still executable
void own(Ctx& c, const G& g) { auto r = repetition(g); if (r.empty()) return; c.evals(); r = tool_r(g, r); if (r.empty()) return; for (auto& a : g.A) { for (int x : a.dur) if (x == 0) return; if (a.reent != 1) return; } Thr t = hsdf_throughput(g, r); if (!t.live || t.unbounded) return; STStats S; std::vector<char> has(g.A.size(), 0); for (auto& x : g.C) has[x.s] = has[x.t] = 1; for (size_t a = 0; a < g.A.size(); a++) if (!has[a]) return; namespace as = algorithms::scheduling;
  for (int alg = 0; alg < 3; alg++) { models::Dataflow* d = build(g); Run x = guarded([&]() { if (!computeRepetitionVector(d)) return; models::Scheduling s = alg == 0 ? as::CSDF_KPeriodicScheduling(d) : alg == 1 ? as::CSDF_1PeriodicScheduling(d) : as::CSDF_SPeriodicScheduling(d); long double om = s.getGraphPeriod(); if (!std::isfinite((double)om) || s.getGraphThroughput() <= 1e-9 || om <= 1e-12) return; auto judge = [&](const scheduling_t& q, const std::string& what) { std::vector<TaskSched> T(g.A.size()); for (auto& it : q) { int a = atoi(d->getVertexName(d->getVertexById(it.first)).c_str() + 1); T[a].period = it.second.periodic_starts.first; for (auto y : it.second.initial_starts) T[a].init.push_back(y); for (auto y : it.second.periodic_starts.second) T[a].starts.push_back(y); } std::string e = replay_schedule(g, r, T, om, S); if (e.find("commensurable") != e.npos || e.find("negative") != e.npos || e.find("out of order") != e.npos) return; if (e.find("balanced rate") != e.npos) return; models::Scheduling z(d, om, q); bool got = z.is_valid_schedule(); c.validated(); if (got != e.empty()) c.fail(got ? "accepts" : "rejects", what + " of schedule kind " + std::to_string(alg) + ": " + e); };
      judge(s.getTaskSchedule(), "as computed"); for (auto& it : s.getTaskSchedule()) for (size_t k = 0; k < it.second.periodic_starts.second.size(); k++) for (long double by : {-1.0L, -0.25L, 0.5L}) { scheduling_t q = s.getTaskSchedule(); auto& y = q[it.first].periodic_starts.second[k]; y += by / g.tden; if (y < 0) continue; judge(q, "start " + std::to_string(k) + " of actor " + std::to_string(it.first) + " moved by " + std::to_string((double)by)); } }); if (!x.ok()) c.fail("error", x.err); delete d; } c.states(S.states); c.transitions(S.transitions); c.outcome("own"); }
void dispatch(Ctx& c, const std::string& key) { std::istringstream in(key); std::string op, k; in >> op; if (op == "own") { in >> k; own(c, G::parse(k)); return; } int kind; in >> kind >> k; grid(c, G::parse(k), kind); }
void go(Ctx& c, const std::string& key) { if (!c.take()) return; c.mark(key); dispatch(c, key); }
void run(Ctx& c) { bool th = c.thorough; auto each = [&](Family f, const std::string& pre) { f.consistentOnly = false; c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>&) { go(c, pre + " " + g.key()); }); };
  Alpha r12{{1, vecs(1, 1, 2)}}, one{{1, V({{1}})}}, d13{{1, V({{1}, {3}})}}, d2{{1, V({{2}})}}, d0{{1, V({{0}, {2}})}}, cs{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 1}})}}, cd{{1, V({{1}})}, {2, V({{1, 2}, {2, 1}})}};
  each(family("1 actor, 0..2 self-loops, limits none/1/2", 1, topologies(1, 0, 2, true, 2, true, true), all_phase(1, {1}), r12, d13, tokK(3), 12, {{0}, {1}, {2}}), "grid 1");
  each(family("1 actor, 2 phases, 0..1 self-loop, limits none/1/2", 1, topologies(1, 0, 1, true, 1, true, true), all_phase(1, {2}), cs, cd, tokK(3), 12, {{0}, {1}, {2}}), "grid 1");
  each(family("2 actors, 0..1 channel, rates 1..2, durations 1 and 3, tokens 0..2", 2, topologies(2, 0, 1, false, 1, true, false), all_phase(2, {1}), r12, d13, tokK(2), 12, {{1, 1}, {0, 2}}), "grid 0");
  each(family("2 actors, 1 channel, durations 0 and 2", 2, topologies(2, 1, 1, false, 1, true, true), all_phase(2, {1}), r12, d0, tokK(1), 12, {{0, 1}}), "grid 0");
  each(family("2 actors, 2 channels", 2, topologies(2, 2, 2, false, 2, true, true), all_phase(2, {1}), r12, d2, tokK(2), 12, {{1, 1}}), th ? "grid 0" : "grid 2");
  each(family("2 actors, 1..2 phases, 1 channel", 2, topologies(2, 1, 1, false, 1, true, true), all_phase(2, {1, 2}), cs, cd, tokK(1), 12, {{1, 1}}), th ? "grid 1" : "grid 2");
  each(family("2 actors, 2 phases, cycle", 2, {cycle(2)}, all_phase(2, {1, 2}), cs, Alpha{{1, V({{1}})}, {2, V({{1, 2}})}}, tokK(2), 12, {{1, 1}}), "grid 2");
  each(family("3 actors, 2 channels", 3, topologies(3, 2, 2, false, 1, true, true), all_phase(3, {1}), r12, one, tokK(1), 12, {{1, 1, 1}}), "grid 2");
  each(family("3 actors, cycle", 3, {cycle(3)}, all_phase(3, {1}), one, d2, tokK(1), 12, {{1, 1, 1}}), "grid 2");
  each(family("finite schedules: 1..2 actors, 1 channel", 2, topologies(2, 0, 1, true, 1, true, false), all_phase(2, {1}), r12, d2, tokK(2), 12, {{1, 1}}), "grid 3");
  { auto f = family("with initial phases: 2 actors, 1 channel", 2, {Topo{{0, 1}}}, all_phase(2, {1}), r12, d2, tokK(2), 12, {{1, 1}}); f.consistentOnly = false; c.note(f.name); Enumerator::run(f, [&](const G& g0, const std::vector<ll>&) { for (int m = 1; m < 4; m++) for (int len = 1; len <= 2; len++) { G g = g0; for (int a = 0; a < 2; a++) if ((m >> a) & 1) { g.A[a].idur.assign(len, 1); g.A[a].idur[0] = 3; for (auto& x : g.C) { if (x.s == a) { x.ip.assign(len, 0); x.ip[len - 1] = 2; } if (x.t == a) { x.ic.assign(len, 1); if (len > 1) x.ic[1] = 0; } } } go(c, "grid 2 " + g.key()); go(c, "grid 0 " + g.key()); } }); }
  throughput_families(0, [&](Family f) { c.note("schedules of the tool: " + f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>&) { go(c, "own " + g.key()); }); });
}
void one(Ctx& c, const std::string& key) { c.mark(key); dispatch(c, key); }
}
kv::Module kv::module{"P26", run, one, "every schedule of a grid of starts and periods for every graph of bounded families, executed tick by tick; and the tool's own schedules with each start moved", {"executions of one actor end in the order in which they start", "durations 0 only in graphs without cycles"}};
