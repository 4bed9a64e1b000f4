// Storage-distribution collections: every operation sequence up to a depth on the real classes, judged by plain reference collections.
#include "kiter_api.hpp"
#include <algorithms/dse/buffer_sizing.h>
using namespace kv;
extern "C" int backtrace(void**, int) { return 0; }
namespace {
typedef std::vector<int> P; // capacities per channel
struct W { int k; models::Dataflow* d; std::vector<Edge> E;
  W(int k) : k(k) { d = new models::Dataflow(); auto a = d->addVertex("a"), b = d->addVertex("b"); d->setPhasesQuantity(a, 1); d->setPhasesQuantity(b, 1); for (int i = 0; i < k; i++) { Edge e = d->addEdge(a, b, "c" + std::to_string(i)); d->setEdgeInPhases(e, std::vector<TOKEN_UNIT>{1}); d->setEdgeOutPhases(e, std::vector<TOKEN_UNIT>{1}); E.push_back(e); } }
  StorageDistribution sd(const P& p, TIME_UNIT thr = 0) { std::map<Edge, std::pair<TOKEN_UNIT, TOKEN_UNIT>> m; ll s = 0; for (int i = 0; i < k; i++) { m[E[i]] = {0, p[i]}; s += p[i]; } return StorageDistribution(k, thr, m, s); }
  P back(const StorageDistribution& s) { P p; for (int i = 0; i < k; i++) p.push_back((int)s.getChannelQuantity(E[i])); return p; } };
W& world(int k) { static std::map<int, W*> m; if (!m[k]) m[k] = new W(k); return *m[k]; }
std::string str(const P& p) { std::string s; for (size_t i = 0; i < p.size(); i++) s += (i ? "." : "") + std::to_string(p[i]); return s; }
P parseP(const std::string& s) { P p; std::stringstream st(s); std::string e; while (std::getline(st, e, '.')) p.push_back(std::stoi(e)); return p; }
bool le(const P& a, const P& b) { for (size_t i = 0; i < a.size(); i++) if (a[i] > b[i]) return false; return true; }
bool lt(const P& a, const P& b) { for (size_t i = 0; i < a.size(); i++) if (a[i] >= b[i]) return false; return true; }
int sz(const P& p) { int s = 0; for (int x : p) s += x; return s; }
std::vector<P> grid(int k, int hi) { std::vector<int> v; for (int i = 0; i <= hi; i++) v.push_back(i); return tuples(k, v); }
// content of the real collection, checked for coherence (key = size, ascending, no duplicates)
std::string content(W& w, StorageDistributionSet& s, std::set<P>& out, std::map<P, long double>* thr = nullptr) {
  size_t n = 0; ll prev = -1; for (auto& d : s.getSet()) { if (d.second.empty()) return "empty entry for size " + std::to_string(d.first); if (d.first <= prev) return "sizes out of order"; prev = d.first;
    for (auto& x : d.second) { P p = w.back(x); n++; if (sz(p) != d.first) return "distribution " + str(p) + " stored under size " + std::to_string(d.first); if (x.getDistributionSize() != sz(p)) return "wrong size announced for " + str(p); if (!out.insert(p).second) return "distribution " + str(p) + " stored twice"; if (thr) (*thr)[p] = x.getThroughput(); } }
  if (n != s.getSize()) return "getSize is " + std::to_string(s.getSize()) + " for " + std::to_string(n) + " distributions"; return ""; }
std::string show(const std::set<P>& s) { std::string o = "{"; for (auto& p : s) o += str(p) + " "; return o + "}"; }
std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> r; std::string e; std::stringstream st(s); while (std::getline(st, e, d)) r.push_back(e); return r; }
std::set<P> maximal(const std::set<P>& s) { std::set<P> r; for (auto& a : s) { bool k = true; for (auto& b : s) if (a != b && le(a, b)) k = false; if (k) r.insert(a); } return r; }
std::set<P> minimal(const std::set<P>& s) { std::set<P> r; for (auto& a : s) { bool k = true; for (auto& b : s) if (a != b && le(b, a)) k = false; if (k) r.insert(a); } return r; }
// ---- key: mode;channels;hi;op/op/...   op: a1.2 add, r1.2 remove, z3 remove size, A1.2:t add+minimise with throughput t/6, p1.2:t plain add with throughput, u/U/f/F/k antichain insertions
void check(Ctx& c, const std::string& key) {
  c.evals(); auto f = split(key, ';'); std::string mode = f[0]; int k = std::stoi(f[1]), hi = std::stoi(f[2]); auto ops = f.size() > 3 ? split(f[3], '/') : std::vector<std::string>(); W& w = world(k); auto all = grid(k, hi); Capture cap; c.transitions(ops.size());
  if (mode == "sets") {
    StorageDistributionSet s; std::set<P> ref; bool init = false;
    for (auto& o : ops) { P p; if (o[0] != 'z') p = parseP(o.substr(1)); if (o[0] == 'a') { s.addStorageDistribution(w.sd(p)); ref.insert(p); } else if (o[0] == 'i') { s = StorageDistributionSet(sz(p), w.sd(p)); ref.clear(); ref.insert(p); init = true; } else if (o[0] == 'r') { s.removeStorageDistribution(w.sd(p)); ref.erase(p); } else if (o[0] == 'n') { if (ref.size()) { auto x = s.getNextDistribution(); P q = w.back(x); int m = INT32_MAX; for (auto& y : ref) m = std::min(m, sz(y)); if (!ref.count(q) || sz(q) != m) c.fail("next", "next distribution " + str(q) + " is not a smallest one of " + show(ref)); s.removeStorageDistribution(s.getNextDistribution()); ref.erase(q); } } else { int z = std::stoi(o.substr(1)); s.removeDistributionSize(z); for (auto it = ref.begin(); it != ref.end();) if (sz(*it) == z) it = ref.erase(it); else ++it; } }
    (void)init; std::set<P> got; std::string e = content(w, s, got); if (!e.empty()) c.fail("coherence", e); else if (got != ref) c.fail("content", "holds " + show(got) + " instead of " + show(ref));
    StorageDistributionSet copy(s);
    for (auto& p : all) { if (s.hasStorageDistribution(w.sd(p)) != (ref.count(p) > 0)) c.fail("membership", "hasStorageDistribution(" + str(p) + ") wrong for " + show(ref)); if (s.satContains(w.sd(p)) != std::any_of(ref.begin(), ref.end(), [&](const P& x) { return le(x, p); })) c.fail("cone", "satContains(" + str(p) + ") wrong for " + show(ref)); if (s.unsatContains(w.sd(p)) != std::any_of(ref.begin(), ref.end(), [&](const P& x) { return le(p, x); })) c.fail("cone", "unsatContains(" + str(p) + ") wrong for " + show(ref));
      std::map<Edge, TOKEN_UNIT> lb; for (auto& x : w.E) lb[x] = 0; if (s.isInBackCone(w.sd(p), lb) != std::any_of(ref.begin(), ref.end(), [&](const P& x) { return x != p && le(p, x); })) c.fail("cone", "isInBackCone(" + str(p) + ") wrong for " + show(ref)); for (int b = 1; b <= hi; b++) { P low(k, b); low[0] = 0; for (int i = 0; i < k; i++) lb[w.E[i]] = low[i]; if (s.isInBackCone(w.sd(p), lb) != std::any_of(ref.begin(), ref.end(), [&](const P& x) { if (x == p) return false; for (int i = 0; i < k; i++) if (p[i] > x[i] && p[i] > low[i]) return false; return true; })) c.fail("cone", "isInBackCone(" + str(p) + ") with lower bounds " + str(low) + " wrong for " + show(ref)); } if (s.isInForeCone(w.sd(p)) != std::any_of(ref.begin(), ref.end(), [&](const P& x) { return x != p && le(x, p); })) c.fail("cone", "isInForeCone(" + str(p) + ") wrong for " + show(ref)); c.validated(); }
    for (int z = 0; z <= k * hi + 1; z++) if (s.hasDistribution(z) != std::any_of(ref.begin(), ref.end(), [&](const P& x) { return sz(x) == z; })) c.fail("membership", "hasDistribution(" + std::to_string(z) + ") wrong for " + show(ref));
    if (ref.size()) { auto x = s.getNextDistribution(); int m = INT32_MAX; for (auto& y : ref) m = std::min(m, sz(y)); if (sz(w.back(x)) != m) c.fail("next", "next distribution is not a smallest one"); }
    std::set<P> g2; content(w, s, g2); if (g2 != got) c.fail("query-changes", "queries changed the collection"); c.outcome(show(ref));
  } else if (mode == "pareto") { // A: add then minimise; throughput is a function of the distribution
    StorageDistributionSet s; std::map<P, int> in; bool ordered = true; int last = 0;
    for (auto& o : ops) { size_t q = o.find(':'); P p = parseP(o.substr(1, q - 1)); int t = std::stoi(o.substr(q + 1)); if (sz(p) < last) ordered = false; last = sz(p); in[p] = t; auto x = w.sd(p, (TIME_UNIT)t / 6); s.addStorageDistribution(x); s.minimizeStorageDistributions(x); }
    auto dom = [&](const P& p) { for (auto& x : in) if ((sz(x.first) < sz(p) && x.second >= in[p]) || (sz(x.first) <= sz(p) && x.second > in[p])) return true; return false; };
    std::set<P> got; std::map<P, long double> thr; std::string e = content(w, s, got, &thr); if (!e.empty()) c.fail("coherence", e); std::set<P> nd; for (auto& x : in) if (!dom(x.first)) nd.insert(x.first);
    for (auto& p : nd) if (!got.count(p)) c.fail("lost-point", "non-dominated distribution " + str(p) + " missing, set is " + show(got));
    for (auto& p : got) { if (!in.count(p)) c.fail("invented", "distribution " + str(p) + " was never inserted"); else if (std::fabs((double)(thr[p] - in[p] / 6.0L)) > 1e-9) c.fail("throughput", "throughput of " + str(p) + " changed"); }
    if (ordered) for (auto& p : got) if (!nd.count(p)) c.fail("dominated-kept", "dominated distribution " + str(p) + " kept, non-dominated are " + show(nd));
    if (!ops.empty()) { size_t q = ops.back().find(':'); P p = parseP(ops.back().substr(1, q - 1)); if (dom(p) && got.count(p)) c.fail("dominated-kept", "new distribution " + str(p) + " is dominated but kept"); }
    if (ordered) { int best = 0; for (auto& x : in) best = std::max(best, x.second); int bs = -1; for (auto& x : in) if (x.second == best && (bs < 0 || sz(x.first) < bs)) bs = sz(x.first);
      for (int t = 0; t <= 3; t++) for (int z = -1; z <= k * hi; z++) { StorageDistributionSet todo; if (z >= 0) { for (auto& p : all) if (sz(p) == z) { todo.addStorageDistribution(w.sd(p)); break; } if (!todo.getSize()) continue; } bool want = z < 0 || (t == best && t > 0 && z != bs); if (t == 0) continue; if (s.isSearchComplete(todo, (TIME_UNIT)t / 6) != want) c.fail("search-end", "completion for target " + std::to_string(t) + "/6 with candidates of size " + std::to_string(z) + " should be " + std::to_string(want)); c.validated(); } }
    c.count(ordered ? "size_ordered" : "any_order"); c.outcome(show(nd));
  } else if (mode == "up" || mode == "down") { // antichains kept by two families of insertions
    for (int fam = 0; fam < 2; fam++) { StorageDistributionSet s; std::set<P> in; std::map<Edge, TOKEN_UNIT> lb; for (auto& x : w.E) lb[x] = 0;
      for (auto& o : ops) { P p = parseP(o.substr(1)); if (mode == "up") { bool covered = std::any_of(in.begin(), in.end(), [&](const P& x) { return le(p, x); }); if (fam == 0) { bool r = s.addToUnsat(w.sd(p)); if (r == covered) c.fail("antichain", "addToUnsat(" + str(p) + ") returns " + std::to_string(r)); } else s.updateInfeasibleSet(w.sd(p), lb); } else { if (fam == 0) s.addToSat(w.sd(p)); else s.updateFeasibleSet(w.sd(p)); } in.insert(p); }
      std::set<P> got, want = mode == "up" ? maximal(in) : minimal(in); std::string e = content(w, s, got); if (!e.empty()) c.fail("coherence", e); else if (got != want) c.fail("antichain", std::string(mode == "up" ? (fam ? "updateInfeasibleSet" : "addToUnsat") : (fam ? "updateFeasibleSet" : "addToSat")) + " keeps " + show(got) + " instead of " + show(want)); c.validated();
      for (auto& p : all) { bool a = s.satContains(w.sd(p)), b = s.unsatContains(w.sd(p)); if (a != std::any_of(want.begin(), want.end(), [&](const P& x) { return le(x, p); }) || b != std::any_of(want.begin(), want.end(), [&](const P& x) { return le(p, x); })) c.fail("cone", "membership of " + str(p)); } c.outcome(show(want)); }
  } else if (mode == "knee") { // unexplored region = points strictly above a knee
    StorageDistributionSet s, kn; std::set<P> in; P zero(k, 0); kn.addStorageDistribution(w.sd(zero));
    for (auto& o : ops) { P p = parseP(o.substr(1)); s.add(w.sd(p), kn); in.insert(p); }
    std::set<P> got, ks; std::string e = content(w, s, got); if (e.empty()) e = content(w, kn, ks); if (!e.empty()) c.fail("coherence", e); if (got != maximal(in)) c.fail("antichain", "keeps " + show(got));
    auto g2 = grid(k, hi + 1); for (auto& x : g2) { bool un = lt(zero, x); for (auto& u : in) if (le(x, u)) un = false; bool kk = std::any_of(ks.begin(), ks.end(), [&](const P& q) { return lt(q, x); }); if (un != kk) c.fail("knee-region", "point " + str(x) + (un ? " is unexplored but above no knee of " : " is covered but above a knee of ") + show(ks)); c.validated(); }
    for (auto& q : ks) if (std::any_of(in.begin(), in.end(), [&](const P& u) { return lt(q, u) && false; })) {} c.outcome(show(ks));
  } else if (mode == "pair") { // two distributions: comparisons, editing, minimum, extension
    P a = parseP(ops[0]), b = parseP(ops[1]); auto x = w.sd(a, 0.5), y = w.sd(b, 0.25); c.validated();
    if ((x == y) != (a == b) || (x != y) != (a != b)) c.fail("equality", str(a) + " and " + str(b)); if (x.inBackConeOf(y) != le(a, b)) c.fail("cone", "inBackConeOf " + str(a) + " " + str(b)); if (x.inForConeOf(y) != le(b, a)) c.fail("cone", "inForConeOf " + str(a) + " " + str(b));
    P m(k); for (int i = 0; i < k; i++) m[i] = std::min(a[i], b[i]); auto z = makeMinimalSD(x, y); if (w.back(z) != m || z.getDistributionSize() != sz(m)) c.fail("minimum", "makeMinimalSD of " + str(a) + " and " + str(b));
    for (int mult = 0; mult < 4; mult++) { auto q = createPoint(w.d, x, y, mult, false); P want(k); for (int i = 0; i < k; i++) want[i] = a[i] + mult * b[i]; if (w.back(q) != want || q.getDistributionSize() != sz(want)) c.fail("point", "createPoint " + str(a) + "+" + std::to_string(mult) + "*" + str(b)); }
    auto q = x; for (int i = 0; i < k; i++) { q.setChannelQuantity(w.E[i], b[i]); P want = b; for (int j = i + 1; j < k; j++) want[j] = a[j]; if (w.back(q) != want || q.getDistributionSize() != sz(want)) c.fail("edit", "setChannelQuantity towards " + str(want)); } if (w.back(x) != a || x.getThroughput() != 0.5L) c.fail("edit", "copy shared"); if (x.getEdges().size() != (size_t)k || x.getEdgeCount() != k) c.fail("edit", "channel list"); q.setInitialTokens(w.E[0], 2); if (q.getInitialTokens(w.E[0]) != 2 || w.back(q) != b || q.getDistributionSize() != sz(b)) c.fail("edit", "setInitialTokens"); c.outcome("pair");
  }
}
void go(Ctx& c, const std::string& key) { if (!c.take()) return; c.mark(key); c.states(1); check(c, key); }
void seqs(Ctx& c, const std::string& head, const std::vector<std::string>& ops, int depth, const std::string& pre = "") { go(c, head + pre); if (!depth) return; for (auto& o : ops) seqs(c, head, ops, depth - 1, pre + (pre.empty() ? "" : "/") + o); }
void pareto(Ctx& c, int k, int hi, int depth, const std::vector<P>& all, std::vector<int>& used, const std::string& pre) { go(c, "pareto;" + std::to_string(k) + ";" + std::to_string(hi) + ";" + pre); if (!depth) return; for (size_t i = 0; i < all.size(); i++) if (!used[i]) { used[i] = 1; for (int t = 0; t <= 2; t++) pareto(c, k, hi, depth - 1, all, used, pre + (pre.empty() ? "" : "/") + "A" + str(all[i]) + ":" + std::to_string(t)); used[i] = 0; } }
void run(Ctx& c) {
  int t = c.thorough ? 1 : 0; auto S = [](ll x) { return std::to_string(x); };
  auto opsOf = [&](const std::string& kinds, int k, int hi) { std::vector<std::string> o; for (char x : kinds) { if (x == 'z') { for (int z = 0; z <= k * hi; z++) o.push_back("z" + S(z)); } else if (x == 'n') o.push_back("n0"); else for (auto& p : grid(k, hi)) o.push_back(std::string(1, x) + str(p)); } return o; };
  c.note("pairs of distributions over 1..3 channels, capacities 0..3 (0..4)"); for (int k = 1; k <= 3; k++) for (auto& a : grid(k, k == 3 ? 2 + t : 4)) for (auto& b : grid(k, k == 3 ? 2 + t : 4)) go(c, "pair;" + S(k) + ";4;" + str(a) + "/" + str(b));
  c.note("insert / remove / remove-size / take-next sequences, 2 channels, capacities 0..1 and 0..2"); seqs(c, "sets;2;1;", opsOf("arzn", 2, 1), 5); seqs(c, "sets;2;2;", opsOf("airzn", 2, 2), 3); seqs(c, "sets;2;2;", opsOf("arn", 2, 2), 3 + t); seqs(c, "sets;3;1;", opsOf("arn", 3, 1), 3 + t);
  c.note("insert-and-minimise sequences with every throughput assignment"); { auto all = grid(2, 2); std::vector<int> u(all.size(), 0); pareto(c, 2, 2, 3 + t, all, u, ""); } { auto all = grid(2, 1); std::vector<int> u(all.size(), 0); pareto(c, 2, 1, 4, all, u, ""); } { auto all = grid(1, 4); std::vector<int> u(all.size(), 0); pareto(c, 1, 4, 4, all, u, ""); }
  c.note("antichain insertions, 2 channels 0..2 (depth 5), 0..3, 3 channels 0..1, 0..2"); for (const char* m : {"up", "down"}) { std::string h = m; seqs(c, h + ";2;2;", opsOf("a", 2, 2), 4 + t); seqs(c, h + ";2;3;", opsOf("a", 2, 3), 3 + t); seqs(c, h + ";3;1;", opsOf("a", 3, 1), 4 + t); seqs(c, h + ";3;2;", opsOf("a", 3, 2), 2 + t); }
  c.note("knee points, 2 channels 0..2, 3 channels 0..2"); seqs(c, "knee;2;2;", opsOf("a", 2, 2), 4 + t); seqs(c, "knee;2;3;", opsOf("a", 2, 3), 3 + t); seqs(c, "knee;3;2;", opsOf("a", 3, 2), 2 + t); seqs(c, "knee;3;1;", opsOf("a", 3, 1), 4 + t);
}
void one(Ctx& c, const std::string& key) { c.mark(key); check(c, key); }
}
kv::Module kv::module{"P10", run, one, "every operation sequence up to the stated length over all distributions with small capacities; after each sequence all public queries are compared with plain reference collections", {"cones with a lower-bound map are judged for lower bounds of zero", "insert-and-minimise: throughput is a function of the distribution, as in the exploration; out-of-order insertions may keep an earlier larger distribution"}};
