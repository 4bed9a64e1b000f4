// Expansion-based throughput of single-phase graphs against the exact self-timed throughput.
#include "kiter_api.hpp"
#include "stdfam.hpp"
#include "oracle.hpp"
using namespace kv;
extern "C" int backtrace(void**, int) { return 0; }
namespace {
void check(Ctx& c, const G& g) {
  auto r = repetition(g); if (r.empty()) return; for (auto& a : g.A) if (a.dur.size() != 1) return; STStats S; c.evals();
  r = tool_r(g, r); if (r.empty()) return; bool zero = false, unlim = false; for (auto& a : g.A) { if (a.reent <= 0) unlim = true; if (a.dur[0] == 0) zero = true; }
  Thr t = hsdf_throughput(g, r); if (zero && !t.live) return; long double want = !t.live ? 0 : t.unbounded ? INFINITY : 1.0L / t.period.ld() * g.tden;
  if (!unlim && !t.unbounded) { Q q = selftimed(g, r, S), w = t.live ? Q(1) / t.period : Q(0); if (q >= Q(0)) { if (q != w) c.fail("oracle-disagreement", "token game " + q.str() + " vs dependency graph " + w.str()); c.count("token_game_agrees"); } }
  c.states(S.states); c.transitions(S.transitions); c.outcome(t.live ? t.period.str() : "dead"); c.count(t.live ? "live" : "deadlocked");
  for (std::string n : {"deGrooteThroughput", "deGrooteCleanThroughput", "KPeriodicThroughput"}) { c.validated(); models::Dataflow* d = build(g); Run x = algo(n, d); long double v; delete d;
    if (!x.ok()) { c.fail(n + "-error", n + " failed: " + x.err); continue; } if (!number_after(x.out, n == "KPeriodicThroughput" ? "KPeriodic Throughput is" : "Maximum throughput is", v)) { c.fail(n + "-output", x.out.substr(0, 200)); continue; }
    bool ok = want == 0 ? v <= 1e-9 && v >= -1e-9 : std::isinf((double)want) ? !(v < 1e12) : close(v, want, 6e-6L); if (!ok) c.fail(n, n + " reports " + std::to_string((double)v) + ", exact throughput is " + std::to_string((double)want)); } }
// partial expansion (start times only ordered, unlimited concurrency): its constraint graph must give the exact best period of the chosen expansion
void expand(Ctx& c, const G& g0) { G g = g0; for (auto& a : g.A) if (a.dur.size() != 1) return; auto r = repetition(g); if (r.empty()) return; int nc; wcc(g, &nc); std::vector<char> has(g.A.size(), 0); for (auto& ch : g.C) has[ch.s] = has[ch.t] = 1; for (char h : has) if (!h) return; if (nc > 1) return; for (auto& a : g.A) { a.reent = 0; if (a.dur[0] == 0) return; }
  c.evals(); std::vector<std::vector<ll>> Ks{std::vector<ll>(g.A.size(), 1), r}; for (size_t i = 0; i < g.A.size(); i++) { std::vector<ll> k(g.A.size(), 1); k[i] = 2; Ks.push_back(k); k[i] = 3; Ks.push_back(k); } if (g.A.size() == 2) { Ks.push_back({2, 3}); Ks.push_back({2, 2}); }
  for (auto& K : Ks) { Q om; int n = 0, m = 0; bool ok = class_period(g, r, K, om, &n, &m); c.states(n); c.transitions(m); c.validated(); std::string ks; for (ll x : K) ks += " " + std::to_string(x);
    models::Dataflow* d = build(g); parameters_list_t ps; for (size_t a = 0; a < g.A.size(); a++) ps[aname(a)] = std::to_string(K[a]); ps["DOT"] = "1"; Run x = algo("PartialExpansion", d, ps); long double got = -1;
    if (x.ok()) { std::vector<IEdge> E; std::istringstream in(x.out); std::string l; int nodes = 0; while (std::getline(in, l)) { int u, v; long double w, dd; if (sscanf(l.c_str(), "%d ->%d [label=\"w=%Lf d=%Lf", &u, &v, &w, &dd) == 4) { E.push_back({u, v, (ll)std::llround(dd), (ll)std::llround(w)}); nodes = std::max(nodes, std::max(u, v) + 1); } } ll want = 0; for (ll k : K) want += k; if (nodes != want) c.fail("expansion", "expansion" + ks + " connects " + std::to_string(nodes) + " of " + std::to_string(want) + " executions"); ll num, den; got = min_omega_int(nodes, E, num, den) ? (long double)d->getZi(d->getVertexByName(aname(0))) * r[0] * num / den : 0; }
    if (!x.ok()) { c.fail("expansion-error", "expansion" + ks + ": " + x.err); delete d; continue; }
    if (ok ? !close(got, om.ld() / g.tden, 1e-6L) : !(got <= 0 || std::isinf((double)got))) c.fail("expansion", "expansion" + ks + " gives period " + std::to_string((double)got) + ", best period of that expansion is " + (ok ? std::to_string((double)om.ld() / g.tden) : "infinite")); delete d; } }
void run(Ctx& c) {
  auto go = [&](const Family& f) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>&) { for (auto& a : g.A) if (a.dur.size() != 1) return; each(c, g, [&](const G& x) { check(c, x); }); }); };
  Alpha r13{{1, vecs(1, 1, 3)}}, r12{{1, vecs(1, 1, 2)}}, r16{{1, vecs(1, 1, 6)}}, d1{{1, V({{1}, {3}})}}; auto ex = [&](const Family& f) { c.note("expansion: " + f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>&) { if (!c.take()) return; std::string k = "expand " + g.key(); c.mark(k); expand(c, g); }); };
  ex(family("SDF, 1 actor, 1..2 self-loops", 1, topologies(1, 1, 2, true, 2, true, true), all_phase(1, {1}), r13, d1, tokPC(), 12)); ex(family("SDF, 2 actors, 2 channels, rates 1..3", 2, only_cyclic(topologies(2, 2, 2, true, 1, true, true), 2), all_phase(2, {1}), c.thorough ? r16 : r13, d1, tokPC(), 12)); ex(family("SDF, 3-cycle, rates 1..3", 3, {cycle(3)}, all_phase(3, {1}), c.thorough ? r13 : r12, d1, tokK(3), 12));
  large_families(1, go); unlimited_families(c.thorough ? 2 : 0, go); odd_families(c.thorough ? 2 : 1, go); throughput_families(c.thorough ? 2 : 1, go); }
void one(Ctx& c, const std::string& key) { c.mark(key); if (key.compare(0, 7, "expand ") == 0) expand(c, G::parse(key.substr(7))); else check(c, G::parse(key)); }
}
kv::Module kv::module{"P17", run, one, "every single-phase graph of the listed families; non-trivial = consistent", {"concurrency limit 1 or unlimited (the methods refuse other limits)", "every token-free circuit has positive total duration"}};
