#include "kiter_api.hpp"
#include "stdfam.hpp"

using namespace kv;
namespace {
void check(Ctx& c, const G& g) {
  auto r = repetition(g); if (r.empty()) return; STStats S; c.evals();
  for (auto& a : g.A) if (sum(a.dur) == 0) return; // an actor without any execution time has no defined rate
  r = tool_r(g, r); if (r.empty()) return;
  std::vector<char> has(g.A.size(), 0); for (auto& ch : g.C) has[ch.s] = has[ch.t] = 1;
  auto comp = scc(g); std::set<int> ids(comp.begin(), comp.end());
  for (size_t a = 0; a < g.A.size(); a++) if (!has[a] && (g.A[a].dur.size() > 1 || ids.size() == 1)) return; // isolated actor: rate is a convention / nothing to explore
  Q q = selftimed(g, r, S); if (q < Q(0)) { c.count("skipped"); return; }
  Thr t = hsdf_throughput(g, r); if (t.live && !t.unbounded) { Q w = Q(1) / t.period; if (q != w && !(q == Q(0))) c.fail("oracle-disagreement", q.str() + " vs " + w.str()); }
  long double want = q.ld() * g.tden; c.states(S.states); c.transitions(S.transitions); c.outcome(q.str()); c.count(q == Q(0) ? "deadlocked" : "live");
  auto judge = [&](const std::string& what, long double v) { c.validated(); if (!(want == 0 ? std::fabs((double)v) <= 1e-12 : close(v, want))) c.fail(what, what + " reports " + std::to_string((double)v) + ", self-timed execution runs at " + std::to_string((double)want)); };
  { models::Dataflow* d = build(g); Run x = algo("SymbExec", d); long double v; if (!x.ok()) c.fail("SymbExec-error", x.err); else if (!number_after(x.out, "Symbolic Execution Throughput is", v)) c.fail("SymbExec-output", x.out.substr(0, 200)); else judge("SymbExec", v); delete d; }
  int nc; wcc(g, &nc); if (g.A.size() > 1 && nc == 1) { // declaration order of actors and channels must not matter
    std::vector<int> ao, co; for (size_t i = 0; i < g.A.size(); i++) ao.push_back(g.A.size() - 1 - i); for (size_t i = 0; i < g.C.size(); i++) co.push_back(g.C.size() - 1 - i);
    models::Dataflow* d = build(g, &ao, &co); Run x = algo("SymbExec", d); long double v; if (!x.ok()) c.fail("SymbExec-reordered-error", x.err); else if (!number_after(x.out, "Symbolic Execution Throughput is", v)) c.fail("SymbExec-output", x.out.substr(0, 200)); else judge("SymbExec-reordered", v); delete d; }
}
void run(Ctx& c) {
  auto go = [&](const Family& f) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>&) { each(c, g, [&](const G& x) { check(c, x); }); }); };
  large_families(1, go); odd_families(c.thorough ? 2 : 1, go); throughput_families(c.thorough ? 2 : 1, go);
}
void one(Ctx& c, const std::string& key) { c.mark(key); check(c, G::parse(key)); }
}
kv::Module kv::module{"P03", run, one, "every graph of the listed families: complete product of topologies, phase counts, rates, initial tokens and durations; non-trivial = consistent, concurrency limit 1", {"concurrency limit 1 (the analysis ignores other limits by design)", "every actor has positive total execution time", "isolated multi-phase actors excluded"}};
