#include "kiter_api.hpp"
#include "stdfam.hpp"

using namespace kv;
namespace {
bool lp = false;
void check(Ctx& c, const G& g) {
  auto r = repetition(g); if (r.empty()) return; c.evals();
  r = tool_r(g, r); if (r.empty()) return;
  std::vector<char> has(g.A.size(), 0); for (auto& ch : g.C) has[ch.s] = has[ch.t] = 1;
  bool zero = false, unlim = false, csdf = false; for (size_t a = 0; a < g.A.size(); a++) { if (!has[a] && g.A[a].dur.size() > 1) return; if (g.A[a].reent <= 0) unlim = true; if (g.A[a].dur.size() > 1) csdf = true; for (int x : g.A[a].dur) if (x == 0) zero = true; }
  if (zero) return; // token-free circuits of zero-time firings have no defined ratio
  std::vector<ll> one(g.A.size(), 1), ph, two, N; for (size_t a = 0; a < g.A.size(); a++) { ph.push_back(phases(g, a)); two.push_back(2 * phases(g, a)); N.push_back(r[a] * phases(g, a)); }
  struct Ref { bool ok; Q om; }; auto ref = [&](const std::vector<ll>& grp) { Ref x; int nodes = 0, edges = 0; x.ok = class_period(g, r, grp, x.om, &nodes, &edges); c.states(nodes); c.transitions(edges); return x; };
  Ref P1 = ref(ph), PN = ref(N), SP = ref(one);
  Thr t = hsdf_throughput(g, r); // model against model: the iteration-periodic class is optimal; classes are nested
  if (t.live != PN.ok || (t.live && !t.unbounded && t.period != PN.om)) c.fail("oracle-disagreement", "class_period(N) vs dependency graph");
  if ((P1.ok && (!PN.ok || P1.om < PN.om)) || (SP.ok && (!P1.ok || SP.om < P1.om))) c.fail("oracle-disagreement", "classes not nested");
  c.outcome((P1.ok ? P1.om.str() : "none") + "/" + (SP.ok ? SP.om.str() : "none")); c.count(P1.ok ? "one_periodic_exists" : "no_one_periodic"); c.count(SP.ok ? "strict_exists" : "no_strict"); if (P1.ok && PN.om < P1.om) c.count("one_periodic_suboptimal"); if (SP.ok && P1.om < SP.om) c.count("strict_below_one_periodic");
  auto want = [&](const Ref& x) -> long double { return !x.ok ? 0 : x.om == Q(0) ? INFINITY : g.tden / x.om.ld(); };
  auto judge = [&](const std::string& what, long double v, const Ref& x, bool upper = false) {
    c.validated(); long double w = want(x); bool ok;
    if (w == 0) ok = v <= 1e-9 && v >= -1e-9; else if (std::isinf((double)w)) ok = !(v < 1e12) ; else ok = upper ? (v <= w * (1 + 1e-6L)) : close(v, w);
    if (!ok) c.fail(what, what + " reports " + std::to_string((double)v) + ", exact value of its class is " + std::to_string((double)w)); };
  auto text = [&](const std::string& name, const std::string& label, const Ref& x, bool upper = false) {
    models::Dataflow* d = build(g); Run y = algo(name, d); long double v;
    if (!y.ok()) c.fail(name + "-error", name + " failed: " + y.err); else if (!number_after(y.out, label, v)) c.fail(name + "-output", "no result printed by " + name + ": " + y.out.substr(0, 200)); else judge(name, v, x, upper);
    delete d; };
  if (!lp) {
    text("EG1", "Maximum throughput is", P1);
    text("1PeriodicThroughput", "1Periodic throughput is", P1);
    text("1PeriodicScheduling", "1Periodic throughput is", P1);
    if (!unlim) { Ref P2 = ref(two); text("2PeriodicThroughput", "2Periodic throughput is", P2); }
    if (!unlim) { text("SPeriodicThroughput", "SPeriodic throughput is", SP); text("SPeriodicScheduling", "SPeriodic throughput is", SP);
      text("ASPeriodicThroughput", "SPeriodic throughput is", SP, csdf); }
  } else {
    text("LP1", "1Periodic(LP) throughput is", P1);
    if (!unlim) { text("LPN", "NPeriodic(LP) throughput is", PN); text("REALLP1", "SPeriodic(LP) throughput is", SP); }
  }
}
void run(Ctx& c) {
  auto go = [&](const Family& f) { c.note((lp ? "LP: " : "") + f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>&) { each(c, g, [&](const G& x) { check(c, x); }); }); };
  int q = c.thorough ? 2 : 1;
  lp = true; large_families(0, go); odd_families(0, go); throughput_families(c.thorough ? 1 : 0, go);
  lp = false; large_families(1, go); unlimited_families(q - 1, go); odd_families(q, go); throughput_families(q, go);
}
void one(Ctx& c, const std::string& key) { c.mark(key); lp = false; check(c, G::parse(key)); lp = true; check(c, G::parse(key)); }
}
kv::Module kv::module{"P04", run, one, "every graph of the listed families; each analysis of a restricted class is compared with the exact best period of that class (difference constraints over all firings of a hyper-period)", {"concurrency limit 1, or unlimited for single-phase actors in the 1-periodic analyses", "all execution times positive; isolated multi-phase actors excluded"}};
