#include "kiter_api.hpp"
#include "stdfam.hpp"

using namespace kv;
namespace {
void check(Ctx& c, const G& g) {
  auto r = repetition(g); if (r.empty()) return; STStats S; c.evals();
  r = tool_r(g, r); if (r.empty()) return;
  Thr t = hsdf_throughput(g, r); long double want = !t.live ? 0 : t.unbounded ? INFINITY : 1.0L / t.period.ld() * g.tden;
  // two independent reference answers must agree (model validated against model)
  bool zero = false, unlim = false; for (auto& a : g.A) { if (a.reent <= 0) unlim = true; for (int x : a.dur) if (x == 0) zero = true; }
  if (zero && !t.live) return; // a token-free circuit of zero-time firings has no defined ratio
  if (!unlim) { Q q = selftimed(g, r, S); if (q >= Q(0)) { Q w = t.live && !t.unbounded ? Q(1) / t.period : Q(0); if (!t.unbounded && q != w) c.fail("oracle-disagreement", "token game " + q.str() + " vs dependency graph " + w.str()); c.count("token_game_agrees"); } }
  c.states(S.states); c.transitions(S.transitions); c.outcome(t.live ? t.period.str() : "dead"); c.count(t.live ? "live" : "deadlocked");
  bool iso = false; { std::vector<char> has(g.A.size(), 0); for (auto& ch : g.C) has[ch.s] = has[ch.t] = 1; for (size_t a = 0; a < g.A.size(); a++) if (!has[a] && g.A[a].dur.size() > 1) iso = true; }
  if (iso) return; // firing count of an isolated multi-phase actor is a convention
  auto judge = [&](const std::string& what, long double v) {
    c.validated();
    bool ok; if (want == 0) ok = v <= 1e-9 && v >= -1e-9; else if (std::isinf((double)want)) ok = !(v < 1e12); else ok = close(v, want);
    if (!ok) c.fail(what, what + " reports " + std::to_string((double)v) + ", exact maximum is " + std::to_string((double)want)); };
  auto viaText = [&](const std::string& algoName, const std::string& label) {
    models::Dataflow* d = build(g); Run x = algo(algoName, d); long double v;
    if (!x.ok()) c.fail(algoName + "-error", algoName + " failed: " + x.err); else if (!number_after(x.out, label, v)) c.fail(algoName + "-output", "no result printed by " + algoName + ": " + x.out.substr(0, 200)); else judge(algoName, v);
    delete d; };
  viaText("KPeriodicThroughput", "KPeriodic Throughput is");
  viaText("NKPeriodicThroughput", "NPeriodic throughput is");
  viaText("EGN", "Maximum throughput is");
  viaText("BufferlessKPeriodicScheduling", "Maximum throughput is");
  { models::Dataflow* d = build(g); TIME_UNIT v = -1; Run x = guarded([&]() { v = algorithms::compute_Kperiodic_throughput_and_cycles(d, parameters_list_t()).throughput; });
    if (!x.ok()) c.fail("Kperiodic_throughput_and_cycles-error", x.err); else judge("Kperiodic_throughput_and_cycles", v); delete d; }
  { models::Dataflow* d = build(g); TIME_UNIT v = -1; Run x = guarded([&]() { computeRepetitionVector(d); v = algorithms::scheduling::CSDF_KPeriodicScheduling(d).getGraphThroughput(); });
    if (!x.ok()) c.fail("KPeriodicScheduling-error", x.err); else judge("KPeriodicScheduling", v); delete d; }
}
void run(Ctx& c) {
  auto go = [&](const Family& f) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>&) { each(c, g, [&](const G& x) { check(c, x); }); }); };
  large_families(1, go); unlimited_families(c.thorough ? 2 : 0, go); odd_families(c.thorough ? 2 : 1, go); throughput_families(c.thorough ? 2 : 1, go);
}
void one(Ctx& c, const std::string& key) { c.mark(key); check(c, G::parse(key)); }
}
kv::Module kv::module{"P02", run, one, "every graph of the listed families: complete product of topologies, phase counts, rates, initial tokens and durations; non-trivial = consistent", {"concurrency limit 1 for every actor, or unlimited for single-phase actors (the only values the K-periodic analysis models)", "every token-free circuit has positive total duration; isolated multi-phase actors excluded (their firing count is a convention)"}};
