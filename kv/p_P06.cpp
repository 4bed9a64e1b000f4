#include "kiter_api.hpp"
#include <models/EventGraph.h>
using namespace kv;
namespace {
struct CE { int u, v, w, d; };                 // height w/wden, duration d
struct CG { int n = 0, wden = 1; std::vector<CE> E;
  std::string key() const { std::ostringstream o; o << n << "/" << wden << ":"; for (auto& e : E) o << e.u << ">" << e.v << "w" << e.w << "d" << e.d << ";"; return o.str(); }
  static CG parse(const std::string& s) { CG g; const char* p = s.c_str(); g.n = strtol(p, (char**)&p, 10); p++; g.wden = strtol(p, (char**)&p, 10); p++; while (*p) { CE e; e.u = strtol(p, (char**)&p, 10); p++; e.v = strtol(p, (char**)&p, 10); p++; e.w = strtol(p, (char**)&p, 10); p++; e.d = strtol(p, (char**)&p, 10); p++; g.E.push_back(e); } return g; } };
// reference: all elementary circuits
struct Ref { bool any = false; bool infeasible = false; bool hiInf = false; bool degenerate = false; Q lo{0}, hi{0}; ll circuits = 0; };
Ref reference(const CG& g) {
  Ref r; std::vector<std::vector<int>> out(g.n); for (size_t i = 0; i < g.E.size(); i++) out[g.E[i].u].push_back(i);
  for (int s = 0; s < g.n; s++) { std::vector<char> on(g.n, 0); std::function<void(int, ll, ll)> go = [&](int v, ll w, ll d) { on[v] = 1;
      for (int i : out[v]) { auto& e = g.E[i]; if (e.v == s) { ll W = w + e.w, D = d + e.d; r.circuits++; if (D == 0) { if (W <= 0) r.degenerate = true; else r.hiInf = true; continue; } Q q{(i128)W, (i128)D * g.wden}; if (!r.any || q < r.lo) r.lo = q; if (!r.any || r.hi < q) r.hi = q; r.any = true; } else if (e.v > s && !on[e.v]) go(e.v, w + e.w, d + e.d); }
      on[v] = 0; };
    go(s, 0, 0); }
  return r;
}
models::EventGraph* make(const CG& g, bool rev, int groups) {
  auto* eg = new models::EventGraph(); std::vector<models::EventGraphVertex> v(g.n);
  if (groups) { eg->addEventGroup(7, 1, g.n); for (int i = 0; i < g.n; i++) v[i] = eg->getEventGraphVertex(7, 1, i + 1); } else for (int i = 0; i < g.n; i++) v[i] = eg->addEvent(models::SchedulingEvent(i + 1, 1, 1));
  for (size_t k = 0; k < g.E.size(); k++) { size_t i = rev ? g.E.size() - 1 - k : k; eg->addEventConstraint(v[g.E[i].u], v[g.E[i].v], (TIME_UNIT)g.E[i].w / g.wden, (TIME_UNIT)g.E[i].d, i + 100); }
  return eg;
}
void check(Ctx& c, const CG& g) {
  Ref r = reference(g); if (r.degenerate) { c.count("skipped 0 or 0 circuit"); return; } c.evals(); c.states(g.n); c.transitions(g.E.size()); c.count("circuits", r.circuits);
  c.outcome(r.any ? r.lo.str() : "none"); c.count(!r.any ? "no circuit" : r.lo <= Q(0) ? "infeasible" : "feasible");
  long double tol = 1e-9L;
  auto judge = [&](const std::string& what, models::EventGraph* eg, const std::pair<TIME_UNIT, std::vector<models::EventGraphEdge>>& res, const Q& want, bool any) {
    c.validated(); long double v = res.first;
    if (!any) { if (!std::isinf((double)v)) c.fail(what + "-none", what + " returns " + std::to_string((double)v) + " although no circuit constrains the period"); if (res.second.size()) c.fail(what + "-none", what + " returns a critical circuit although there is none"); return; }
    long double w = want.ld(); if (!(std::fabs((double)(v - w)) <= tol * std::max(1.0L, (long double)std::fabs((double)w)))) { c.fail(what, what + " returns " + std::to_string((double)v) + " instead of " + std::to_string((double)w)); return; }
    if (res.second.empty()) { c.fail(what + "-cc", what + " returns no critical circuit"); return; }
    ll W = 0, D = 0; size_t n = res.second.size(); std::set<size_t> seen;
    for (size_t i = 0; i < n; i++) { auto e = res.second[i]; ll id = (ll)eg->getChannelId(e) - 100; if (id < 0 || id >= (ll)g.E.size()) { c.fail(what + "-cc", "critical circuit contains an unknown constraint"); return; } W += g.E[id].w; D += g.E[id].d; auto f = res.second[(i + 1) % n]; if (eg->getTarget(e) != eg->getSource(f)) { c.fail(what + "-cc", "critical circuit is not a closed walk"); return; } if (!seen.insert(eg->getSource(e)).second) { c.fail(what + "-cc", "critical circuit visits an event twice"); return; } }
    if (D == 0 || Q{(i128)W, (i128)D * g.wden} != want) c.fail(what + "-cc", "critical circuit does not attain the returned ratio"); };
  auto starts = [&](const std::string& what, models::EventGraph* eg, long double omega) {
    bool ok = eg->computeStartingTimeWithOmega(omega); if (!ok) { c.fail(what, "start times refused for a feasible period " + std::to_string((double)omega)); return; }
    c.validated(); long double mn = INFINITY; {ForEachEvent(eg, e) mn = std::min(mn, (long double)eg->getStartingTime(e)); } if (!(std::fabs((double)mn) < 1e-6)) c.fail(what + "-zero", "earliest start is " + std::to_string((double)mn));
    {ForEachConstraint(eg, e) { long double sl = eg->getStartingTime(eg->getTarget(e)) - eg->getStartingTime(eg->getSource(e)) - (eg->getDuration(e) - omega * eg->getWeight(e)); if (!(sl > -1e-6L * std::max(1.0L, omega))) { c.fail(what, "start times for period " + std::to_string((double)omega) + " violate a constraint by " + std::to_string((double)-sl)); return; } }} };
  Run x = guarded([&]() {
    for (int rev = 0; rev < 2; rev++) { models::EventGraph* eg = make(g, rev, rev);
      judge(rev ? "MinCycleRatio-reordered" : "MinCycleRatio", eg, eg->MinCycleRatio(), r.lo, r.any);
      if (r.any && Q(0) < r.lo) { long double om = 1.0L / r.lo.ld(); starts("starts", eg, om); starts("starts-slower", eg, om * 1.25L + 0.5L); judge("MinCycleRatio-bound", eg, eg->MinCycleRatio((TIME_UNIT)(2 * r.lo.ld() + 1)), r.lo, true); }
      if (!r.any) { starts("starts-free", eg, 1.0L); }
      
      if (r.any && !r.hiInf) judge("MaxCycleRatio", eg, eg->MaxCycleRatio(), r.hi, r.any);
      if (r.hiInf) { c.validated(); long double v = eg->MaxCycleRatio().first; if (!(std::isinf((double)v) && v > 0)) c.fail("MaxCycleRatio-infinite", "maximum ratio is " + std::to_string((double)v) + " although a circuit of positive weight has no denominator"); }
      if (!rev) { // decomposition: every circuit lies in exactly one part, so the parts together have the same minimum
        auto* parts = models::StrongConnection(eg); Q best; bool any = false; size_t ev = 0; (void)best; long double lo = INFINITY; for (auto& p : *parts) { ev += p.second->getEventCount(); if (p.second->getConstraintsCount() == 0) continue; auto pr = p.second->MinCycleRatio(); if (pr.second.size()) { any = true; lo = std::min(lo, (long double)pr.first); } }
        c.validated(); if (ev != (size_t)g.n) c.fail("StrongConnection-events", "parts have " + std::to_string(ev) + " events instead of " + std::to_string(g.n));
        if (any != r.any || (any && !(std::fabs((double)(lo - r.lo.ld())) <= tol * std::max(1.0L, (long double)std::fabs((double)r.lo.ld()))))) c.fail("StrongConnection", "the parts together have minimum ratio " + std::to_string((double)lo));
        models::freeStrongConnection(parts); }
      delete eg; } });
  if (!x.ok()) c.fail("error", x.err);
}
// all graphs whose adjacency (ordered pairs, with multiplicity slots) takes each listed (w,d) or is absent
void slots(Ctx& c, int n, int wden, const std::vector<std::pair<int,int>>& P, const std::vector<std::pair<int,int>>& alpha, bool absent, const CG* fixed = nullptr) {
  std::vector<int> ch(P.size(), 0); int K = alpha.size() + (absent ? 1 : 0);
  for (;;) {
    if (c.take()) { CG g; g.n = n; g.wden = wden; if (fixed) g.E = fixed->E; for (size_t i = 0; i < P.size(); i++) { int k = ch[i] - (absent ? 1 : 0); if (k >= 0) g.E.push_back({P[i].first, P[i].second, alpha[k].first, alpha[k].second}); } c.mark(g.key()); check(c, g); }
    size_t i = 0; while (i < ch.size() && ch[i] == K - 1) ch[i++] = 0; if (i == ch.size()) return; ch[i]++; }
}
std::vector<std::pair<int,int>> pairs(int n, bool self, int mult = 1) { std::vector<std::pair<int,int>> P; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (self || i != j) for (int k = 0; k < mult; k++) P.push_back({i, j}); return P; }
void run(Ctx& c) {
  bool T = c.thorough; typedef std::vector<std::pair<int,int>> A;
  auto note = [&](const std::string& s) { c.note(s); };
  A full; for (int w = -1; w <= 2; w++) for (int d : {0, 1, 3}) full.push_back({w, d});
  A pos; for (int w : {0, 1, 2, 3}) for (int d : {1, 2, 5}) pos.push_back({w, d});
  A thirds{{1, 1}, {2, 1}, {-1, 1}, {3, 2}, {1, 3}, {-2, 2}};
  A small{{0, 1}, {1, 1}, {1, 3}}, tiny{{0, 1}, {1, 1}}, tiny2{{0, 2}, {1, 1}}, mixed{{-1, 1}, {1, 1}, {2, 3}, {1, 0}};
  note("1 event, up to 2 parallel loops, heights -1..2, durations 0,1,3"); slots(c, 1, 1, pairs(1, true, 2), full, true);
  note("2 events, every ordered pair incl. loops, heights -1..2, durations 0,1,3"); slots(c, 2, 1, pairs(2, true), full, true);
  note("2 events, two parallel constraints each way, heights 0..3, durations 1,2,5"); slots(c, 2, 1, pairs(2, false, 2), pos, true);
  note("2 events, every ordered pair, heights in thirds"); slots(c, 2, 3, pairs(2, true), thirds, true);
  note("3 events, every ordered pair, heights in sevenths/durations"); slots(c, 3, 7, pairs(3, false), thirds, true);
  note("3 events, every ordered pair, mixed heights and durations"); slots(c, 3, 1, pairs(3, false), T ? full : A{{-1, 1}, {0, 3}, {1, 0}, {1, 1}, {2, 1}, {2, 3}}, true);
  note("3 events, every ordered pair incl. loops"); slots(c, 3, 1, pairs(3, true), T ? mixed : small, true);
  note("4 events, every ordered pair"); slots(c, 4, 1, pairs(4, false), T ? small : tiny, true);
  note("4 events, every ordered pair, durations differing"); slots(c, 4, 5, pairs(4, false), tiny2, true);
  { int n = T ? 6 : 5; note(std::to_string(n) + " events on a ring, chords absent or one of two"); CG f; for (int i = 0; i < n; i++) f.E.push_back({i, (i + 1) % n, i == 0, 1 + i % 3}); std::vector<std::pair<int,int>> P; for (auto& p : pairs(n, false)) if (p.second != (p.first + 1) % n && (int)P.size() < (T ? 14 : 12)) P.push_back(p); slots(c, n, 1, P, A{{0, 1}, {1, 2}}, true, &f); }
  { int n = 5; note("5 events on a ring, back chords with fractional heights"); CG f; for (int i = 0; i < n; i++) f.E.push_back({i, (i + 1) % n, i == 2 ? 5 : 0, 1 + (i * 2) % 3}); std::vector<std::pair<int,int>> P; for (auto& p : pairs(n, true)) if (p.second <= p.first && !(p.first == 4 && p.second == 0) && (int)P.size() < (T ? 13 : 11)) P.push_back(p); slots(c, n, 12, P, A{{1, 1}, {5, 3}}, true, &f); }
  for (int n : T ? std::vector<int>{6, 8, 12, 20, 40, 120} : std::vector<int>{6, 8, 12, 40}) { note(std::to_string(n) + " events: ring of length n and one chord, all chord positions, 4 weights");
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (auto wd : A{{0, 1}, {1, 1}, {1, 7}, {3, 2}}) for (int h = 1; h <= 3; h++) if (c.take()) { CG g; g.n = n; for (int i = 0; i < n; i++) g.E.push_back({i, (i + 1) % n, i == n - 1 ? h : 0, 1 + (i % 4 == 0)}); g.E.push_back({a, b, wd.first, wd.second}); c.mark(g.key()); check(c, g); } }
  for (int n : T ? std::vector<int>{6, 8, 12, 20, 40} : std::vector<int>{6, 8, 12, 25}) { note(std::to_string(n) + " events listed against the direction of the ring (or of the open chain), one chord, all chord positions");
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (auto wd : A{{0, 1}, {1, 1}, {3, 2}}) for (int h = 0; h <= 2; h++) if (c.take()) { CG g; g.n = n; for (int i = 0; i < n; i++) if (h || i) g.E.push_back({i, (i + n - 1) % n, i == 0 ? h : 0, 1 + (i % 4 == 0)}); g.E.push_back({a, b, wd.first, wd.second}); c.mark(g.key()); check(c, g); } }
  for (int n = 5; n <= (T ? 8 : 7); n++) { note(std::to_string(n) + " events on a ring or an open chain in every order of declaration"); std::vector<int> p(n); std::iota(p.begin(), p.end(), 0);
    do for (int h = 0; h <= 1; h++) if (c.take()) { CG g; g.n = n; for (int i = 0; i < n; i++) if (h || i < n - 1) g.E.push_back({p[i], p[(i + 1) % n], i == n - 1 ? 2 : 0, 1 + (i % 3)}); c.mark(g.key()); check(c, g); } while (std::next_permutation(p.begin(), p.end())); }
}
void one(Ctx& c, const std::string& key) { c.mark(key); check(c, CG::parse(key)); }
}
kv::Module kv::module{"P06", run, one, "every constraint graph of the listed families, in two insertion orders: ratio and circuit against the enumeration of all elementary circuits, start times against every constraint", {"no token-free circuit of total duration zero (its ratio is undefined)", "heights and durations as produced by the analyses: rational heights, non-negative durations"}};
