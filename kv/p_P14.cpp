// Network-on-chip topology, mapping and routing on every grid up to the bound; random choices of the tool are explored exhaustively.
#include "kiter_api.hpp"
#include "stdfam.hpp"
#include <models/NoC.h>
#include <cmath>
using namespace kv;
extern "C" int backtrace(void**, int) { return 0; }
namespace { std::vector<int> script; size_t asked = 0; int filler = 0; }
extern "C" int rand(void) { if (asked < script.size()) return script[asked++]; asked++; return filler++; } // the tool's source of randomness, scripted
namespace {
int ab(int x) { return x < 0 ? -x : x; }
struct Grid { int X, Y, N; Grid(int x, int y) : X(x), Y(y), N(x * y) {} bool router(long v) const { return v >= 0 && v < N; } bool core(long v) const { return v >= N && v < 2 * N; } int x(long v) const { return v % N % X; } int y(long v) const { return v % N / X; } bool adj(long a, long b) const { if (router(a) && router(b)) return ab(x(a) - x(b)) + ab(y(a) - y(b)) == 1; return (router(a) && core(b) && b - N == a) || (core(a) && router(b) && a - N == b); } };
void topo(Ctx& c, int X, int Y) {
  Grid g(X, Y); NoC n(X, Y); c.evals(); c.validated(); std::set<long> ids; std::map<long, const NetworkNode*> nodes;
  if (n.size() != g.N || n.getXSize() != X || n.getYSize() != Y) c.fail("size", "announced size differs from the request");
  for (auto& v : n.getNodes()) { if (!ids.insert(v.id).second) c.fail("ids", "identifier " + std::to_string(v.id) + " used twice"); nodes[v.id] = &v; bool r = g.router(v.id), k = g.core(v.id); if (!r && !k) { c.fail("node", "unexpected node " + std::to_string(v.id)); continue; } if (v.type != (r ? Router : Core)) c.fail("node", "node " + std::to_string(v.id) + " has the wrong type"); if (!n.hasNode(v.id) || n.getNode(v.id).id != v.id || n.getNode(v.id).type != v.type || n.getNode(v.id).x != v.x || n.getNode(v.id).y != v.y) c.fail("node", "node lookup"); }
  if ((int)nodes.size() != 2 * g.N) c.fail("node", std::to_string(nodes.size()) + " nodes");
  // positions follow the identifiers: all routers on one lattice, each core beside its router
  for (auto& a : nodes) for (auto& b : nodes) if (g.router(a.first) == g.router(b.first) && (a.second->x - b.second->x != g.x(a.first) - g.x(b.first) || a.second->y - b.second->y != g.y(a.first) - g.y(b.first))) c.fail("position", "nodes " + std::to_string(a.first) + " and " + std::to_string(b.first) + " are not placed on the grid");
  std::set<std::pair<long, long>> E; std::map<long, std::pair<long, long>> byId;
  for (auto& e : n.getEdges()) { c.transitions(1); if (!ids.insert(e.id).second) c.fail("ids", "identifier " + std::to_string(e.id) + " used twice"); byId[e.id] = {e.src, e.dst}; if (!E.insert({e.src, e.dst}).second) c.fail("link", "link listed twice"); if (!g.adj(e.src, e.dst)) c.fail("link", "link " + std::to_string(e.src) + "->" + std::to_string(e.dst) + " between nodes that are not neighbours"); if (!n.hasEdge(e.id) || n.getEdge(e.id).src != e.src || n.getEdge(e.id).dst != e.dst || n.getEdge(e.src, e.dst).id != e.id) c.fail("lookup", "link " + std::to_string(e.id) + " not resolvable"); }
  for (long a = 0; a < 2 * g.N; a++) for (long b = 0; b < 2 * g.N; b++) { c.states(1); if (g.adj(a, b) && !E.count({a, b})) c.fail("link", "missing link " + std::to_string(a) + "->" + std::to_string(b)); }
  for (long id = -1; id < 4L * g.N * g.N + 2 * g.N + 2; id++) if (n.hasEdge(id) != (byId.count(id) > 0) || n.hasNode(id) != (nodes.count(id) > 0)) c.fail("lookup", "existence of " + std::to_string(id));
  for (long a = 0; a < g.N; a++) { auto nb = [&](const char* w, bool exists, long want, auto f) { if (!exists) return; const NetworkEdge& e = f(); if (e.src != a || e.dst != want || !byId.count(e.id) || byId[e.id] != std::make_pair(a, want)) c.fail("neighbour", std::string(w) + " neighbour of " + std::to_string(a) + " is link " + std::to_string(e.src) + "->" + std::to_string(e.dst)); };
    int x = g.x(a), y = g.y(a); nb("left", x > 0, a - 1, [&]() -> const NetworkEdge& { return n.getLeftNeighbour(a); }); nb("right", x + 1 < X, a + 1, [&]() -> const NetworkEdge& { return n.getRightNeighbour(a); }); nb("bottom", y > 0, a - X, [&]() -> const NetworkEdge& { return n.getBottomNeighbour(a); }); nb("top", y + 1 < Y, a + X, [&]() -> const NetworkEdge& { return n.getTopNeighbour(a); });
    long k = a + g.N; if (n.getSrcNeighbour(k).src != k || n.getSrcNeighbour(k).dst != a) c.fail("neighbour", "router a core sends to"); if (n.getDstNeighbour(k).dst != k || n.getDstNeighbour(k).src != a) c.fail("neighbour", "router a core receives from"); }
}
// a route from core s to core t: connected, along links; returns text of the problem
std::string badRoute(const Grid& g, const NoC& n, const route_t& r, long s, long t, bool minimal, bool xy) {
  if (r.empty()) return "empty route"; long at = s; std::vector<long> seq{s};
  for (auto id : r) { if (!n.hasEdge(id)) return "unknown link " + std::to_string(id); auto& e = n.getEdge(id); if (e.src != at) return "route is not connected"; if (!g.adj(e.src, e.dst)) return "route uses a link that is not in the grid"; at = e.dst; seq.push_back(at); }
  if (at != t) return "route ends at " + std::to_string(at) + " instead of " + std::to_string(t);
  if (minimal && (int)r.size() != 2 + ab(g.x(s) - g.x(t)) + ab(g.y(s) - g.y(t))) return "route has " + std::to_string(r.size()) + " links";
  for (size_t i = 1; i + 1 < seq.size(); i++) if (!g.router(seq[i])) return "route goes through a core";
  if (xy) { bool turned = false; for (size_t i = 1; i + 2 < seq.size(); i++) { if (g.y(seq[i]) != g.y(seq[i + 1])) turned = true; else if (turned) return "route turns back to the first dimension"; } }
  return ""; }
models::Dataflow* pairs(const Grid& g, NoC& n, int s, const std::vector<int>& ts) { auto* d = new models::Dataflow(); d->setGraphName("g"); d->setNoC(n); Vertex a = d->addVertex("src"); d->setMapping(a, s); int k = 0; for (int t : ts) { Vertex b = t == s ? a : d->addVertex("t" + std::to_string(t)); if (t != s) d->setMapping(b, t); d->addEdge(a, b, "c" + std::to_string(k++)); } (void)g; return d; }
void xy(Ctx& c, int X, int Y, int s) { Grid g(X, Y); NoC n(X, Y); std::vector<int> ts; for (int t = g.N; t < 2 * g.N; t++) ts.push_back(t); auto* d = pairs(g, n, s, ts); c.evals(); Run r = algo("xyRouting", d); if (!r.ok()) c.fail("xy-error", r.err); else {ForEachEdge(d, e) { c.validated(); c.states(1); c.transitions(d->getRoute(e).size()); std::string b = badRoute(g, d->getNoC(), d->getRoute(e), d->getMapping(d->getEdgeSource(e)), d->getMapping(d->getEdgeTarget(e)), true, true); if (!b.empty()) c.fail("xy", "core " + std::to_string(s) + " to core " + std::to_string(d->getMapping(d->getEdgeTarget(e))) + ": " + b); }} delete d; }
void rnd(Ctx& c, int X, int Y, int s, int t) { Grid g(X, Y); NoC n(X, Y); c.evals(); int L = 1 + ab(g.x(s) - g.x(t)) + ab(g.y(s) - g.y(t)) + 2; std::set<std::string> seen; // every sequence of coin tosses
  for (int m = 0; m < (1 << L); m++) { script.clear(); for (int i = 0; i < L; i++) script.push_back((m >> i) & 1); asked = 0; filler = 0; auto* d = pairs(g, n, s, {t}); Run r = algo("randomRouting", d); c.validated(); c.states(1); if (!r.ok()) { c.fail("random-error", r.err); delete d; return; } {ForEachEdge(d, e) { seen.insert(commons::toString(d->getRoute(e))); c.transitions(d->getRoute(e).size()); std::string b = badRoute(g, d->getNoC(), d->getRoute(e), s, t, true, false); if (!b.empty()) c.fail("random", "choices " + std::to_string(m) + ": " + b); }} delete d; }
  c.outcome(std::to_string(seen.size()) + " routes"); script.clear(); }
void mapping(Ctx& c, int V, int X, int Y, const std::vector<int>& rolls) { Grid g(X, Y); NoC n(X, Y); c.evals(); for (int forced = -1; forced < V; forced++) for (int which = 0; which < 2; which++) { auto* d = new models::Dataflow(); d->setGraphName("g"); d->setNoC(n); for (int i = 0; i < V; i++) d->addVertex(aname(i)); for (int i = 0; i + 1 < V; i++) d->addEdge(d->getVertexByName(aname(i)), d->getVertexByName(aname(i + 1)), cname(i)); script = rolls; asked = 0; filler = 0; parameters_list_t p; int pin = g.N + (V + g.N - 1) % g.N; if (forced >= 0) p[aname(forced)] = std::to_string(pin); std::string nm = which ? "moduloMapping" : "randomMapping"; Run r = algo(nm, d, p); c.validated(); if (!r.ok()) c.fail("mapping-error", nm + ": " + r.err); else { for (int i = 0; i < V; i++) { long m = d->getMapping(d->getVertexByName(aname(i))); c.states(1); if (!g.core(m)) c.fail("mapping", nm + " puts a task on node " + std::to_string(m) + ", which is not a core"); if (i == forced && m != pin) c.fail("mapping", nm + " ignores the requested core"); }
      Run q = algo("xyRouting", d); c.validated(); if (!q.ok()) c.fail("xy-error", q.err); else {ForEachEdge(d, e) { std::string b = badRoute(g, d->getNoC(), d->getRoute(e), d->getMapping(d->getEdgeSource(e)), d->getMapping(d->getEdgeTarget(e)), true, true); if (!b.empty()) c.fail("xy", "after " + nm + ": " + b); }} }
    delete d; } script.clear(); }
void create(Ctx& c, int V) { auto* d = new models::Dataflow(); d->setGraphName("g"); for (int i = 0; i < V; i++) d->addVertex(aname(i)); c.evals(); c.validated(); Run r = algo("createNoC", d); int side = 0; while (side * side < V) side++; side = std::max(side, 2); if (!r.ok()) c.fail("create", r.err); else if (d->getNoC().getXSize() != side || d->getNoC().getYSize() != side || d->getNoC().getNodes().size() != 2u * side * side) c.fail("create", "mesh for " + std::to_string(V) + " tasks is " + std::to_string(d->getNoC().getXSize()) + "x" + std::to_string(d->getNoC().getYSize())); delete d; }
void mapRoute(Ctx& c, const G& gr, int mesh) { // combined mapping and routing
  auto rep = repetition(gr); if (rep.empty() || !live(gr, rep)) return; models::Dataflow* d = build(gr); c.evals(); parameters_list_t p; if (mesh) p["MESHSIZE"] = std::to_string(mesh); Run r = algo("BufferlessNoCMapAndRoute", d, p); c.validated(); if (!r.ok()) { c.fail("map-error", r.err); delete d; return; }
  const NoC& n = d->getNoC(); Grid g(n.getXSize(), n.getYSize()); std::set<long> used; {ForEachVertex(d, v) { long m = d->getMapping(v); if (!g.core(m)) c.fail("map", "task mapped on node " + std::to_string(m)); else if (!used.insert(m).second) c.fail("map", "two tasks on core " + std::to_string(m)); }}
  {ForEachEdge(d, e) { c.states(1); long s = d->getMapping(d->getEdgeSource(e)), t = d->getMapping(d->getEdgeTarget(e)); if (s == t) continue; std::string b = badRoute(g, n, d->getRoute(e), s, t, true, false); if (!b.empty()) c.fail("map-route", "channel " + d->getEdgeName(e) + ": " + b); }}
  c.outcome("mapped"); delete d; }
void dispatch(Ctx& c, const std::string& key) { std::istringstream in(key); std::string op; in >> op; std::vector<int> v; if (op == "map") { int mesh; std::string k; in >> mesh >> k; mapRoute(c, G::parse(k), mesh); return; } int x; while (in >> x) v.push_back(x); Run r = guarded([&]() { if (op == "topo") topo(c, v[0], v[1]); else if (op == "xy") xy(c, v[0], v[1], v[2]); else if (op == "rnd") rnd(c, v[0], v[1], v[2], v[3]); else if (op == "mapping") mapping(c, v[0], v[1], v[2], {v.begin() + 3, v.end()}); else if (op == "create") create(c, v[0]); }); if (!r.ok()) c.fail("error", r.err); }
void go(Ctx& c, const std::string& key) { if (!c.take()) return; c.mark(key); dispatch(c, key); }
std::string K(const std::string& op, const std::vector<int>& v) { std::string s = op; for (int x : v) s += " " + std::to_string(x); return s; }
void run(Ctx& c) { bool th = c.thorough; int M = th ? 12 : 9;
  c.note("topology: every grid 1x1.." + std::to_string(M) + "x" + std::to_string(M)); for (int X = 1; X <= M; X++) for (int Y = 1; Y <= M; Y++) go(c, K("topo", {X, Y}));
  c.note("dimension-ordered routes: every pair of cores of every grid up to 6x6 (8x8)"); int R = th ? 8 : 6; for (int X = 1; X <= R; X++) for (int Y = 1; Y <= R; Y++) for (int s = X * Y; s < 2 * X * Y; s++) go(c, K("xy", {X, Y, s}));
  c.note("random routes: every pair of cores and every sequence of choices, grids up to 3x3 (4x4)"); int Q = th ? 4 : 3; for (int X = 1; X <= Q; X++) for (int Y = 1; Y <= Q; Y++) for (int s = X * Y; s < 2 * X * Y; s++) for (int t = X * Y; t < 2 * X * Y; t++) go(c, K("rnd", {X, Y, s, t}));
  c.note("mappings: 1..3 tasks (and 6), every grid up to 3x3, every outcome of the random choices"); for (int X = 1; X <= 3; X++) for (int Y = 1; Y <= 3; Y++) for (int V = 1; V <= 3; V++) { std::vector<int> vals; for (int k = 0; k <= X * Y; k++) vals.push_back(k); if (V == 3 && X * Y > 4) vals = {0, X * Y - 1, X * Y, 1000}; for (auto& t : tuples(V, vals)) { std::vector<int> v{V, X, Y}; v.insert(v.end(), t.begin(), t.end()); go(c, K("mapping", v)); } } for (int X = 1; X <= 3; X++) for (int Y = 1; Y <= 3; Y++) go(c, K("mapping", {6, X, Y, 5, 4, 3, 2, 1, 0}));
  c.note("mesh creation for 0..40 tasks"); for (int V = 1; V <= 40; V++) go(c, K("create", {V}));
  c.note("combined mapping and routing: SDF graphs of 2..5 actors on the default mesh, 3x3 and 4x4"); auto fam = [&](const Family& f) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>& r) { if (r.empty() || !live(g, r)) return; for (int mesh : {0, 3, 4}) { if (!c.take()) continue; std::string k = "map " + std::to_string(mesh) + " " + g.key(); c.mark(k); dispatch(c, k); } }); };
  Alpha one{{1, V({{1}})}}, r12{{1, vecs(1, 1, 2)}}; fam(family("map: SDF, 2 actors, 1..3 channels", 2, topologies(2, 1, 3, false, 2, false, true), all_phase(2, {1}), r12, one, tokK(2), 8)); fam(family("map: SDF, 3 actors, 2..4 channels", 3, topologies(3, 2, th ? 5 : 4, false, 1, false, true), all_phase(3, {1}), r12, one, tokK(1), 6)); fam(family("map: HSDF, 4 actors, 3..6 channels", 4, topologies(4, 3, th ? 7 : 6, false, 1, !th, true), all_phase(4, {1}), one, one, tokK(1), th ? 8 : 7)); fam(family("map: HSDF, 5 actors, 4..6 channels", 5, topologies(5, 4, 6, false, 1, true, true), all_phase(5, {1}), one, one, tokK(1), th ? 7 : 6));
}
void one(Ctx& c, const std::string& key) { c.mark(key); dispatch(c, key); }
}
kv::Module kv::module{"P14", run, one, "every grid up to the bound: nodes, links, lookups, neighbours; every pair of cores: dimension-ordered and random routes (all choice sequences); mappings and the combined mapping-and-routing on all small graphs", {"neighbour queries only in directions where the grid has one", "combined mapping needs a mesh with at least one core per task and has no route for channels from an actor to itself"}};
