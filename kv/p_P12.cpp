// Strongly connected components, component sub-graphs, cycle detection and cycle enumeration on every small directed multigraph.
#include "kiter_api.hpp"
#include <algorithms/scc.h>
namespace algorithms { std::vector<models::Dataflow*> generateSCCs(models::Dataflow* const, std::map<int, std::vector<ARRAY_INDEX>>); }
#include <models/EventGraph.h>
using namespace kv;
extern "C" int backtrace(void**, int) { return 0; }
namespace {
struct DG { int n = 0; std::vector<std::pair<int, int>> E; int style = 0; // style: 0 natural, 1 reversed declaration, 2 gaps in the identifiers (removed actors), 3 explicit identifiers
  std::string key() const { std::ostringstream o; o << n << "/" << style << ":"; for (auto& e : E) o << e.first << ">" << e.second << ";"; return o.str(); }
  static DG parse(const std::string& s) { DG g; const char* p = s.c_str(); g.n = strtol(p, (char**)&p, 10); p++; g.style = strtol(p, (char**)&p, 10); p++; while (*p) { int a = strtol(p, (char**)&p, 10); p++; int b = strtol(p, (char**)&p, 10); p++; g.E.push_back({a, b}); } return g; } };
typedef std::vector<std::vector<char>> Reach;
Reach reach(const DG& g) { Reach R(g.n, std::vector<char>(g.n, 0)); for (int i = 0; i < g.n; i++) R[i][i] = 1; for (auto& e : g.E) R[e.first][e.second] = 1; for (int k = 0; k < g.n; k++) for (int i = 0; i < g.n; i++) if (R[i][k]) for (int j = 0; j < g.n; j++) if (R[k][j]) R[i][j] = 1; return R; }
typedef std::vector<long> Cyc; // identifiers, smallest first
std::map<Cyc, int> cycles(const DG& g, const std::vector<long>& id) { // every closed walk without repeated actor, one per choice of channels
  std::map<Cyc, int> M; std::vector<std::vector<int>> out(g.n); for (auto& e : g.E) out[e.first].push_back(e.second);
  for (int s = 0; s < g.n; s++) { std::vector<char> on(g.n, 0); std::vector<int> path; std::function<void(int)> go = [&](int v) { on[v] = 1; path.push_back(v); for (int w : out[v]) { if (w == s) { Cyc c; for (int x : path) c.push_back(id[x]); std::rotate(c.begin(), std::min_element(c.begin(), c.end()), c.end()); M[c]++; } else if (w > s && !on[w]) go(w); } on[v] = 0; path.pop_back(); }; go(s); }
  return M; }
std::string text(const std::map<Cyc, int>& M) { std::string s; for (auto& x : M) { s += "["; for (long v : x.first) s += std::to_string(v) + " "; s += "]x" + std::to_string(x.second) + " "; } return s; }
void check(Ctx& c, const DG& g) {
  Reach R = reach(g); c.evals(); c.states(g.n); c.transitions(g.E.size());
  models::Dataflow* d = new models::Dataflow(); std::vector<Vertex> v(g.n); std::vector<long> id(g.n);
  for (int k = 0; k < g.n; k++) { int i = g.style == 1 ? g.n - 1 - k : k; Vertex dead; if (g.style == 2) dead = d->addVertex("gone" + std::to_string(i)); v[i] = g.style == 3 ? d->addVertex((ARRAY_INDEX)(3 * k + 4), aname(i)) : d->addVertex(aname(i)); d->setPhasesQuantity(v[i], 1); d->setVertexDuration(v[i], {(TIME_UNIT)(i + 1)}); d->setReentrancyFactor(v[i], 1); if (g.style == 2) d->removeVertex(dead); }
  for (int i = 0; i < g.n; i++) { v[i] = d->getVertexByName(aname(i)); id[i] = d->getVertexId(v[i]); }
  std::map<long, int> ix; for (int i = 0; i < g.n; i++) ix[id[i]] = i;
  struct EE { long id; int s, t; int p, c, m; }; std::vector<EE> es; for (size_t k = 0; k < g.E.size(); k++) { Edge e = d->addEdge(v[g.E[k].first], v[g.E[k].second], cname(k)); d->setEdgeInPhases(e, {(TOKEN_UNIT)k + 1}); d->setEdgeOutPhases(e, {(TOKEN_UNIT)k + 2}); d->setPreload(e, k); d->setTokenSize(e, k + 5); es.push_back({(long)d->getEdgeId(e), g.E[k].first, g.E[k].second, (int)k + 1, (int)k + 2, (int)k}); }
  // components
  std::map<int, std::vector<ARRAY_INDEX>> S; Run r = guarded([&]() { S = algorithms::computeSCCKosaraju(d); }); c.validated();
  if (!r.ok()) { c.fail("scc-error", r.err); delete d; return; }
  std::vector<int> comp(g.n, -1); bool dup = false; for (auto& s : S) { if (s.second.empty()) dup = true; for (auto x : s.second) { if (!ix.count(x) || comp[ix[x]] >= 0) dup = true; else comp[ix[x]] = s.first; } }
  if (dup) c.fail("scc", "decomposition is not a partition of the actors");
  for (int i = 0; i < g.n; i++) { if (comp[i] < 0) c.fail("scc", "an actor is in no component"); for (int j = 0; j < i; j++) if ((comp[i] == comp[j]) != (R[i][j] && R[j][i])) c.fail("scc", "actors " + std::to_string(id[i]) + " and " + std::to_string(id[j]) + (comp[i] == comp[j] ? " are put together but not mutually reachable" : " are mutually reachable but separated")); }
  c.outcome(std::to_string(S.size()) + " components");
  // component sub-graphs
  std::vector<models::Dataflow*> D; r = guarded([&]() { D = algorithms::generateSCCs(d, S); }); c.validated();
  if (!r.ok()) c.fail("subgraph-error", r.err);
  else { std::set<long> seenV; std::set<int> seenComp; for (auto* q : D) { std::set<int> act; {ForEachVertex(q, w) { long k = q->getVertexId(w); if (!ix.count(k)) { c.fail("subgraph", "component contains an unknown actor"); continue; } int i = ix[k]; act.insert(i); if (!seenV.insert(k).second) c.fail("subgraph", "actor in two component graphs"); if (q->getVertexName(w) != aname(i) || q->getPhasesQuantity(w) != 1 || q->getVertexDuration(w, 1) != i + 1 || q->getReentrancyFactor(w) != 1) c.fail("subgraph", "actor changed in its component graph"); }}
      for (int i : act) for (int j = 0; j < g.n; j++) if ((R[i][j] && R[j][i]) != (act.count(j) > 0)) c.fail("subgraph", "component graph has the wrong actors");
      std::set<long> have; {ForEachEdge(q, e) { long k = q->getEdgeId(e); have.insert(k); const EE* x = nullptr; for (auto& z : es) if (z.id == k) x = &z; if (!x) { c.fail("subgraph", "component graph has an unknown channel"); continue; } if ((long)q->getVertexId(q->getEdgeSource(e)) != id[x->s] || (long)q->getVertexId(q->getEdgeTarget(e)) != id[x->t] || q->getEdgeInVector(e) != std::vector<TOKEN_UNIT>{x->p} || q->getEdgeOutVector(e) != std::vector<TOKEN_UNIT>{x->c} || q->getPreload(e) != x->m || q->getTokenSize(e) != x->m + 5) c.fail("subgraph", "channel changed in the component graph"); }}
      for (auto& x : es) if ((act.count(x.s) && act.count(x.t)) != (have.count(x.id) > 0)) c.fail("subgraph", "component graph has the wrong channels"); delete q; }
    if ((int)seenV.size() != g.n) c.fail("subgraph", "an actor is in no component graph"); if (D.size() != S.size()) c.fail("subgraph", "number of component graphs"); }
  if ((int)d->getVerticesCount() != g.n || d->getEdgesCount() != g.E.size()) c.fail("untouched", "the analysed graph was changed");
  // cycles, asked twice: the second answer must not depend on the first
  bool any = false; for (int i = 0; i < g.n; i++) for (int j = 0; j < i; j++) if (R[i][j] && R[j][i]) any = true;
  auto want = cycles(g, id); int total = 0; for (auto& x : want) total += x.second; c.count("cycles", total);
  for (int round = 0; round < 2; round++) {
    r = algo("CycleDetection", d); c.validated(); long double x = -1; if (!r.ok() || !number_after(r.out, "has_cycles result", x) || x != (any ? 1 : 0)) c.fail("detection", r.ok() ? "answers " + r.out + (any ? " although several actors form a cycle" : " although no cycle goes through several actors") : r.err);
    r = algo("CycleCount", d); c.validated(); if (!r.ok()) { c.fail("count-error", r.err); break; }
    std::map<Cyc, int> got; std::istringstream in(r.out); std::string l; bool started = false, bad = false; while (std::getline(in, l)) { if (l.rfind("Cycles detected", 0) == 0) { started = true; continue; } if (l.rfind("Total", 0) == 0) break; if (!started) continue; Cyc y; std::istringstream q(l); std::string t; while (q >> t) if (t != "->") y.push_back(atol(t.c_str())); if (y.size() < 2 || y.front() != y.back()) { bad = true; continue; } y.pop_back(); std::rotate(y.begin(), std::min_element(y.begin(), y.end()), y.end()); got[y]++; }
    if (bad) c.fail("count", "a listed cycle is not closed"); if (got != want) c.fail("count", std::string(round ? "second query: " : "") + "cycles are " + text(want) + "listed " + text(got)); if (!number_after(r.out, "Total number of cycles", x) || x != total) c.fail("total", "announces " + std::to_string((int)x) + " cycles instead of " + std::to_string(total));
    if ((int)d->getVerticesCount() != g.n || d->getEdgesCount() != g.E.size()) c.fail("untouched", "the analysed graph was changed"); }
  delete d;
  // components of a constraint graph
  if (g.style == 0) { auto* eg = new models::EventGraph(); std::vector<models::EventGraphVertex> w(g.n); for (int i = 0; i < g.n; i++) w[i] = eg->addEvent(models::SchedulingEvent(i + 1, 1, 1)); for (size_t k = 0; k < g.E.size(); k++) eg->addEventConstraint(w[g.E[k].first], w[g.E[k].second], (TIME_UNIT)k, (TIME_UNIT)(k + 1), k + 100);
    auto* P = models::StrongConnection(eg); c.validated(); size_t nv = 0; for (auto& p : *P) { std::set<int> act; {ForEachEvent(p.second, e) act.insert((int)p.second->getEvent(e).getTaskId() - 1);} nv += act.size(); for (int i : act) for (int j = 0; j < g.n; j++) if ((R[i][j] && R[j][i]) != (act.count(j) > 0)) c.fail("constraint-scc", "component of the constraint graph has the wrong events"); std::multiset<int> have, exp; {ForEachConstraint(p.second, e) { int k = (int)p.second->getChannelId(e) - 100; have.insert(k); if (k < 0 || k >= (int)g.E.size() || p.second->getWeight(e) != k || p.second->getDuration(e) != k + 1) c.fail("constraint-scc", "constraint changed"); }} for (size_t k = 0; k < g.E.size(); k++) if (act.count(g.E[k].first) && act.count(g.E[k].second)) exp.insert(k); if (have != exp) c.fail("constraint-scc", "component of the constraint graph has the wrong constraints"); }
    if (nv != (size_t)g.n) c.fail("constraint-scc", "not a partition"); models::freeStrongConnection(P); delete eg; }
}
void go(Ctx& c, const DG& g) { if (!c.take()) return; c.mark(g.key()); check(c, g); }
// every labelled directed graph over n actors with at most maxE channels, each ordered pair used at most `mult` times
void all(Ctx& c, const std::string& name, int n, int minE, int maxE, bool self, int mult, const std::vector<int>& styles) { c.note(name); std::vector<std::pair<int, int>> P; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (self || i != j) P.push_back({i, j}); DG g; g.n = n; std::function<void(size_t)> rec = [&](size_t i) { if (i == P.size()) { if ((int)g.E.size() >= minE) for (int s : styles) { g.style = s; go(c, g); } return; } rec(i + 1); int k = 0; for (; k < mult && (int)g.E.size() < maxE; k++) { g.E.push_back(P[i]); rec(i + 1); } while (k--) g.E.pop_back(); }; rec(0); }
void run(Ctx& c) { bool th = c.thorough;
  all(c, "1..3 actors, all multigraphs (up to 2 parallel channels, self-loops), 4 numbering styles", 1, 0, 3, true, 3, {0, 1, 2, 3}); all(c, "2 actors", 2, 0, 8, true, 2, {0, 1, 2, 3}); all(c, "3 actors", 3, 0, th ? 18 : 7, true, 2, {0, 1, 2, 3});
  all(c, "4 actors, all labelled graphs without self-loops", 4, 0, 12, false, 1, {0, 2}); all(c, "4 actors, labelled graphs with self-loops, all", 4, 0, 16, true, 1, {0, 3});
  all(c, "5 actors, labelled graphs, up to 7 (9) channels", 5, 4, th ? 9 : 7, false, 1, {0}); if (th) all(c, "T: 6 actors, up to 6 channels", 6, 5, 6, false, 1, {0});
  { // families of dense or long graphs
    c.note("complete graphs, rings with chords, ladders, up to 7 actors, every rotation of the numbering");
    for (int n = 5; n <= (th ? 8 : 7); n++) for (int rot = 0; rot < n; rot++) for (int kind = 0; kind < 5; kind++) { DG g; g.n = n; auto add = [&](int a, int b) { g.E.push_back({(a * (rot % 2 ? n - 1 : 1) + rot) % n, (b * (rot % 2 ? n - 1 : 1) + rot) % n}); }; if (kind == 0) { if (n > 6) continue; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) add(i, j); } else { for (int i = 0; i < n; i++) add(i, (i + 1) % n); if (kind == 2) for (int i = 0; i < n; i += 2) add((i + 1) % n, i); if (kind == 3) for (int i = 0; i < n; i++) add(i, (i + 2) % n); if (kind == 4) for (int i = 1; i < n; i++) { add(i, 0); add(0, i); } } for (int s : {0, 1, 2, 3}) { g.style = s; go(c, g); } } }
}
void one(Ctx& c, const std::string& key) { c.mark(key); check(c, DG::parse(key)); }
}
kv::Module kv::module{"P12", run, one, "every directed multigraph up to the stated sizes, with several identifier numberings: components against the reachability relation, component graphs against the original, cycle list against a complete search, every query asked twice", {"a self-loop counts as an elementary cycle of one actor; parallel channels give distinct cycles"}};
