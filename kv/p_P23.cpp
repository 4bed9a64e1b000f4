// Analyses observe: they leave the graph alone and do not depend on what ran before.
#include "snap.hpp"
#include "stdfam.hpp"
#include "oracle.hpp"
using namespace kv;
namespace {
struct Cmd { const char* name; std::map<std::string, std::string> p; };
const std::vector<Cmd> PURE{{"KPeriodicThroughput", {}}, {"NKPeriodicThroughput", {}}, {"1PeriodicThroughput", {}}, {"2PeriodicThroughput", {}}, {"PrintKPeriodicScheduling", {}}, {"SPeriodicThroughput", {}}, {"ASPeriodicThroughput", {}}, {"SymbExec", {}}, {"deGrooteThroughput", {}}, {"deGrooteCleanThroughput", {}}, {"EG1", {}}, {"EGN", {}}, {"LP1", {}}, {"LPN", {}}, {"REALLP1", {}}, {"SPeriodicScheduling", {}}, {"1PeriodicScheduling", {}}, {"ASAPScheduling", {}}, {"CycleDetection", {}}, {"CycleCount", {}}, {"PeriodicSizing", {}}, {"SPeriodicSizing", {}}, {"FixedOffsetBufferSizing", {}}, {"BackPressureSizing", {}}, {"BufferlessKPeriodicScheduling", {}}, {"SymbolicExecution", {}}, {"SymbolicExecutionWP", {}}, {"PartialExpansion", {}}, {"PrintInfos", {}}, {"PrintKiter", {}}, {"PrintXML", {}}, {"PrintGraph", {}}, {"PrintMapping", {}}};
const std::vector<Cmd> CHANGE{{"RemoveReentrancy", {}}, {"remove", {{"taskname", "a0"}}}, {"SingleOutput", {{"name", "a0"}}}, {"AddVBuffers", {}}, {"Merge", {{"tasks", "a0"}, {"name", "m"}}}};
const Cmd& cmd(int i) { return i < (int)PURE.size() ? PURE[i] : CHANGE[i - PURE.size()]; }
// text with numbers compared as numbers (a stream may switch between notations)
struct Tok { bool num; long double v; std::string s; };
std::vector<Tok> words(const std::string& o) { std::vector<Tok> r; std::istringstream in(o); std::string line; while (std::getline(in, line)) { if (line.find("Execution Time") != std::string::npos || line.find("time elapsed") != std::string::npos) continue; size_t i = 0; while (i < line.size()) { if (isspace((unsigned char)line[i])) { i++; continue; } if (isdigit((unsigned char)line[i])) { char* e; long double v = strtold(line.c_str() + i, &e); size_t n = e - (line.c_str() + i); r.push_back({true, v, line.substr(i, n)}); i += n; } else { r.push_back({false, 0, std::string(1, line[i])}); i++; } } r.push_back({false, 0, "\n"}); } return r; }
std::string differ(const std::string& a, const std::string& b) { auto x = words(a), y = words(b); size_t n = std::max(x.size(), y.size()); for (size_t i = 0; i < n; i++) { bool same = i < x.size() && i < y.size() && x[i].num == y[i].num && (x[i].num ? std::fabs((double)(x[i].v - y[i].v)) <= 1e-5 * std::max(1.0, std::fabs((double)x[i].v)) || close(x[i].v, y[i].v, 1e-5L) : x[i].s == y[i].s); if (!same) { std::string s = "'", t = "'"; for (size_t k = i < 12 ? 0 : i - 12; k < i + 12; k++) { if (k < x.size()) s += x[k].s; if (k < y.size()) t += y[k].s; } return s + "' and " + t + "'"; } } return ""; }
struct Ref { int status; std::string out; std::map<long, std::string> act, chan; bool ok = false; };
std::map<std::string, Ref> cache; std::string cacheKey;
// one stream for the whole sequence: number formats set by one command stay for the next, as in the tool
Run execIn(Capture& hold, models::Dataflow* d, int i) { parameters_list_t p; for (auto& x : cmd(i).p) p[x.first] = x.second; hold.ss.str(""); auto* t = KiterRegistry<transformation_t>::get(cmd(i).name); Run r; try { t->fun(d, p); } catch (kv_exit_exc& e) { r.status = 1; r.err = "assertion/exit(" + std::to_string(e.code) + ")"; } catch (std::exception& e) { r.status = 2; r.err = std::string("exception ") + e.what(); } catch (std::runtime_error* e) { r.status = 1; r.err = std::string("assertion ") + e->what(); delete e; } r.out = hold.str(); return r; }
Run exec(models::Dataflow* d, int i) { parameters_list_t p; for (auto& x : cmd(i).p) p[x.first] = x.second; return algo(cmd(i).name, d, p); }
const Ref& ref(const G& g, const std::string& gk, int i) { if (cacheKey != gk) { cache.clear(); cacheKey = gk; } Ref& r = cache[std::to_string(i)]; if (!r.ok) { auto* d = build(g); Run q = exec(d, i); r.status = q.status; r.out = q.out; if (q.ok()) { Snap s = fullSnap(d); r.act = s.act; r.chan = s.chan; } r.ok = true; delete d; } return r; }
void seq(Ctx& c, const std::vector<int>& is, const std::string& gk) { G g = G::parse(gk); c.evals(); for (size_t k = 0; k + 1 < is.size(); k++) if (ref(g, gk, is[k]).status) { c.outcome("prefix refuses the graph"); return; } const Ref& want = ref(g, gk, is.back()); auto* d = build(g); Snap b = fullSnap(d); Capture hold; for (size_t k = 0; k < is.size(); k++) { bool last = k + 1 == is.size(); if (last && is[k] >= (int)PURE.size()) d->reset_computation(); Run r = execIn(hold, d, is[k]); c.transitions(1); if (!last && !r.ok()) { c.fail("history-status", std::string(cmd(is[k]).name) + " fails after the previous commands: " + r.err); delete d; return; } if (last) { c.validated(); if ((r.status != 0) != (want.status != 0)) { c.fail("history-status", std::string(cmd(is[k]).name) + " ends with '" + r.err + "' (" + std::to_string(r.status) + " instead of " + std::to_string(want.status) + ")"); delete d; return; } if (!r.ok()) { delete d; c.outcome(std::string("refused by ") + cmd(is[k]).name); return; } std::string e = differ(want.out, r.out); if (!e.empty()) c.fail("history-output", std::string(cmd(is[k]).name) + " prints " + e); } Snap a = fullSnap(d); c.states(1); bool ch = is[k] >= (int)PURE.size(); std::string e = diff(ch ? want.act : b.act, a.act); if (e.empty()) e = diff(ch ? want.chan : b.chan, a.chan); if (!e.empty()) { c.fail(ch ? "history-graph" : "side-effect", std::string(cmd(is[k]).name) + ": " + e); delete d; return; } } delete d; c.outcome(std::string("same ") + cmd(is.back()).name); }
// after an analysis the graph is edited: later commands see the edited graph, exactly as if it had been built that way
const int NE = 7;
bool edit(G& g, models::Dataflow* d, int e) { std::vector<Vertex> v; std::vector<Edge> es; if (d) { d->reset_computation(); for (size_t i = 0; i < g.A.size(); i++) v.push_back(d->getVertexByName(aname(i))); for (size_t k = 0; k < g.C.size(); k++) { ForEachEdge(d, x) { if (d->getEdgeName(x) == cname(k)) es.push_back(x); } } } auto tk = [](const std::vector<int>& r) { return std::vector<TOKEN_UNIT>(r.begin(), r.end()); };
  switch (e) { case 0: g.C[0].m++; if (d) d->setPreload(es[0], g.C[0].m); return true; case 1: { auto& u = g.A.back().dur; u[0] += 2; if (d) d->setVertexDuration(v.back(), std::vector<TIME_UNIT>(u.begin(), u.end())); return true; } case 2: g.A[0].reent = 2; if (d) d->setReentrancyFactor(v[0], 2); return true; case 3: for (int& x : g.C[0].p) x *= 2; for (int& x : g.C[0].c) x *= 2; if (d) { d->setEdgeInPhases(es[0], tk(g.C[0].p)); d->setEdgeOutPhases(es[0], tk(g.C[0].c)); } return true; case 4: { int k = g.C.size() - 1; for (int& x : g.C[k].c) x *= 2; if (d) d->setEdgeOutPhases(es[k], tk(g.C[k].c)); return true; } case 5: { Chan c; c.s = g.A.size() - 1; c.t = 0; c.p.assign(g.A.back().dur.size(), 1); c.c.assign(g.A[0].dur.size(), 1); c.m = 1; g.C.push_back(c); if (d) { Edge x = d->addEdge(v.back(), v[0], cname(g.C.size() - 1)); d->setEdgeInPhases(x, tk(c.p)); d->setEdgeOutPhases(x, tk(c.c)); d->setPreload(x, 1); d->setTokenSize(x, 1); d->setEdgeInputPortName(x, "in_" + cname(g.C.size() - 1)); d->setEdgeOutputPortName(x, "out_" + cname(g.C.size() - 1)); } return true; } case 6: if (g.C.size() < 2) return false; if (d) d->removeEdge(es.back()); g.C.pop_back(); return true; } return false; }
std::map<std::string, Ref> ecache; std::string ecacheKey;
void edited(Ctx& c, int i, int e, int j, const std::string& gk) { G g = G::parse(gk); c.evals(); if (ref(g, gk, i).status) { c.outcome("prefix refuses the graph"); return; } if (ecacheKey != gk) { ecache.clear(); ecacheKey = gk; } G h = g; if (!edit(h, nullptr, e)) return; Ref& want = ecache[std::to_string(e) + " " + std::to_string(j)]; if (!want.ok) { auto* d = build(h); Run q = exec(d, j); want.status = q.status; want.out = q.out; want.ok = true; delete d; }
  auto* d = build(g); Capture hold; Run r = execIn(hold, d, i); if (!r.ok()) { c.fail("history-status", std::string(cmd(i).name) + " fails: " + r.err); delete d; return; } h = g; try { edit(h, d, e); } catch (std::exception& x) { c.fail("edit", std::string("edit ") + std::to_string(e) + " after " + cmd(i).name + ": " + x.what()); delete d; return; } r = execIn(hold, d, j); c.transitions(2); c.validated(); c.states(1); if ((r.status != 0) != (want.status != 0)) c.fail("edited-status", std::string(cmd(j).name) + " ends with '" + r.err + "' (" + std::to_string(r.status) + " instead of " + std::to_string(want.status) + ")"); else if (r.ok()) { std::string x = differ(want.out, r.out); if (!x.empty()) c.fail("edited-output", std::string(cmd(j).name) + " prints " + x); } delete d; c.outcome("edited"); }
void dispatch(Ctx& c, const std::string& key) { std::istringstream in(key); if (key[0] == 'e') { std::string w, k; int i, e, j; in >> w >> i >> e >> j >> k; edited(c, i, e, j, k); return; } int n; in >> n; std::vector<int> is; for (int i = 0; i < n; i++) { int x; in >> x; is.push_back(x); } std::string k; in >> k; seq(c, is, k); }
void run(Ctx& c) { bool th = c.thorough; int P = PURE.size(), A = P + CHANGE.size(); Alpha one{{1, V({{1}})}}, r12{{1, vecs(1, 1, 2)}}, d12{{1, V({{1}, {3}})}}, cs{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {1, 2}})}}, cd{{1, V({{2}})}, {2, V({{1, 2}})}};
  auto pairs = [&](const G& g) { std::string gk = g.key(); for (int i = 0; i < P; i++) for (int j = 0; j < A; j++) { if (!c.take()) continue; std::string k = "2 " + std::to_string(i) + " " + std::to_string(j) + " " + gk; c.mark(k); dispatch(c, k); } };
  auto edits = [&](const G& g) { std::string gk = g.key(); for (int e = 0; e < NE; e++) for (int i = 0; i < P; i++) for (int j = 0; j < P; j++) { if (!c.take()) continue; std::string k = "e " + std::to_string(i) + " " + std::to_string(e) + " " + std::to_string(j) + " " + gk; c.mark(k); dispatch(c, k); } };
  auto triples = [&](const G& g) { std::string gk = g.key(); for (int i = 0; i < P; i++) for (int h = 0; h < P; h++) for (int j = 0; j < A; j++) { if (!c.take()) continue; std::string k = "3 " + std::to_string(i) + " " + std::to_string(h) + " " + std::to_string(j) + " " + gk; c.mark(k); dispatch(c, k); } };
  auto each = [&](const Family& f, auto fn) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>& r) { if (!r.empty() && live(g, r)) fn(g); }); };
  each(family("pairs: SDF, 2 actors, 1..3 channels with a cycle", 2, only_cyclic(topologies(2, 1, 3, true, 1, true, true), 2), all_phase(2, {1}), r12, one, tokK(2), 12), pairs);
  each(family("pairs: CSDF, 2-cycle", 2, {cycle(2)}, all_phase(2, {1, 2}), cs, cd, tokK(3), 12), pairs);
  each(family("pairs: SDF, 3-cycle", 3, {cycle(3)}, all_phase(3, {1}), one, d12, tokK(2), 12), pairs);
  { c.note("pairs: a ring of 6 with a rate change, a star of 7"); std::vector<std::array<int, 5>> ch; for (int i = 0; i < 6; i++) ch.push_back({i, (i + 1) % 6, i == 1 ? 2 : 1, i == 3 ? 2 : 1, i == 5 ? 3 : 0}); G a = plain({{1}, {2}, {1}, {4}, {1}, {1}}, ch); ch.clear(); for (int i = 0; i < 7; i++) if (i != 3) { ch.push_back({3, i, 1, 1, 0}); ch.push_back({i, 3, 1, 1, 2}); } G b = plain({{1}, {2}, {1}, {4}, {1}, {1}, {3}}, ch); pairs(a); pairs(b); }
  each(family("edits: SDF, 2-cycle, rates 1..2", 2, {cycle(2)}, all_phase(2, {1}), r12, one, tokK(2), 12), edits);
  each(family("edits: CSDF, 2-cycle", 2, {cycle(2)}, {{1, 2}}, cs, cd, tokK(2), 12), edits);
  if (th) { each(family("triples: SDF, 2-cycle", 2, {cycle(2)}, all_phase(2, {1}), r12, one, tokK(2), 12), triples); }
}
void one(Ctx& c, const std::string& key) { c.mark(key); dispatch(c, key); }
}
kv::Module kv::module{"P23", run, one, "every ordered pair (thorough: triple) of analysis, scheduling, sizing and printing commands on every graph of bounded families, on one graph object and one output stream; after each command the whole graph is compared with its picture before, and the last output and result with those on a fresh graph", {"the commands' own measured running times are not compared", "numbers are compared as numbers with 1e-5 relative tolerance, because earlier commands may change the number format of the stream"}};
