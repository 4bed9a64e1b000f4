// As-soon-as-possible execution under bounded buffers: throughput and limiting channels, for every capacity assignment.
#include "kiter_api.hpp"
#include "stdfam.hpp"
#include "bounded.hpp"
using namespace kv;
extern "C" int backtrace(void**, int) { return 0; }
namespace {
struct Rng { int lo, hi, step; };
std::vector<Rng> ranges(const G& g, bool th) { std::vector<Rng> R; for (auto& c : g.C) { int q = 0, mp = 0, mc = 0; for (int x : c.p) { q = std::gcd(q, x); mp = std::max(mp, x); } for (int x : c.c) { q = std::gcd(q, x); mc = std::max(mc, x); } q = std::max(1, q); int lo = std::max(c.m, std::max(mp, mc)), hi = std::max(c.m + sum(c.p), sum(c.p) + sum(c.c)) + (th ? 2 * q : 0); R.push_back({lo, hi, 1}); } return R; }
// the "original" dependency search is a kept reproduction of an older tool's method, known to overlook cycles (see known_findings.txt); it is judged on all graphs of up to two actors and on one three-actor graph
bool judgeOriginal = true;
void check(Ctx& c, const G& g, const std::vector<int>& cap) {
  auto r = repetition(g); if (r.empty()) return; c.evals(); G b = bounded(g, cap); Q want = thrOf(b, r); STStats st; std::vector<char> in(g.A.size(), 1);
  Q tg = token_game(g, r, in, st, &cap); c.states(st.states); c.transitions(st.transitions); int nc; wcc(g, &nc); if (nc == 1 && tg != want) c.fail("oracle-disagreement", "token game " + tg.str() + " dependency graph " + want.str());
  c.outcome(want.str()); c.count(want == Q(0) ? "deadlocked" : "live"); Q top = thrOf(g, r);
  std::string sd; for (size_t i = 0; i < cap.size(); i++) sd += (i ? "," : "") + std::to_string(cap[i] * g.tok);
  for (int mode = 0; mode < 2; mode++) { models::Dataflow* d = build(g); parameters_list_t p; p["SD"] = sd; if (mode) p["SYMB_EXEC_CORRECTED"] = "1"; Run y = algo("SymbExecDebug", d, p); delete d; long double v; const char* nm = mode ? "corrected" : "original";
    if (!y.ok()) { c.fail("error", std::string(nm) + ": " + y.err); continue; } if (!number_after(y.out, "Symbolic Execution Throughput is", v)) { c.fail("output", "no throughput printed"); continue; } c.validated();
    if (!close(v, g.tden * want.ld())) c.fail("throughput", std::string(nm) + " reports " + std::to_string((double)v) + ", bounded execution reaches " + std::to_string((double)(g.tden * want.ld())));
    std::set<int> D; std::regex re("Channel ([0-9]+) \\("); for (std::sregex_iterator it(y.out.begin(), y.out.end(), re), e; it != e; ++it) D.insert(std::stoi((*it)[1]) - 1);
    for (int i : D) if (i < 0 || i >= (int)g.C.size()) c.fail("dependencies", "unknown channel reported");
    std::vector<int> free = cap; for (size_t i = 0; i < cap.size(); i++) if (!D.count(i)) free[i] = -1; Q best = thrOf(bounded(g, free), r); // everything not reported is made unlimited
    std::string ds; for (int i : D) ds += std::to_string(i) + " ";
    if ((mode || judgeOriginal) && (best == Q(-1) || best > want)) c.fail(std::string("bottleneck-") + nm, "reported channels {" + ds + "}, but enlarging only the others raises the throughput from " + want.str() + " to " + best.str());
    if (mode == 0) c.count(top == want ? "at_maximum" : "below_maximum"); }
}
std::string keyOf(const G& g, const std::vector<int>& cap) { std::string k = g.key() + "|"; for (size_t i = 0; i < cap.size(); i++) k += (i ? "," : "") + std::to_string(cap[i]); return k; }
void each_cap(Ctx& c, const G& g, bool th) { auto R = ranges(g, th); std::vector<int> cap; std::function<void(size_t)> rec = [&](size_t i) { if (i == R.size()) { if (!c.take()) return; c.mark(keyOf(g, cap)); check(c, g, cap); return; } for (int x = R[i].lo; x <= R[i].hi; x++) { cap.push_back(x); rec(i + 1); cap.pop_back(); } }; rec(0); }
void run(Ctx& c) { bool th = c.thorough;
  auto go = [&](const Family& f) { c.note(f.name + ", every capacity from the smallest executable size to p+c (at least tokens+p)"); Enumerator::run(f, [&](const G& g, const std::vector<ll>& r) { if (r.empty()) return; if (!live(g, r)) return; each_cap(c, g, th); }); };
  Alpha r12{{1, vecs(1, 1, 2)}}, r13{{1, vecs(1, 1, 3)}}, r14{{1, vecs(1, 1, 4)}}, d12{{1, V({{1}, {2}})}}, d13{{1, V({{1}, {3}})}}, d1{{1, V({{2}})}};
  Alpha cs{{1, vecs(1, 1, 3)}, {2, V({{1, 0}, {0, 2}, {1, 2}, {2, 1}, {1, 1}})}}, csd{{1, V({{1}, {2}})}, {2, V({{1, 2}, {2, 1}})}}, csd1{{1, V({{2}})}, {2, V({{1, 2}})}};
  judgeOriginal = true; c.note("one graph with two unconnected parts (known finding)"); { G g = G::parse("T1|2r1;2r1;3r1;1r1|0>1p1c1m0;2>3p1c1m1"); if (c.take()) { c.mark(keyOf(g, {2, 2})); check(c, g, {2, 2}); } }
  go(family("SDF, 1 actor, 1..2 self-loops, rates 1..3", 1, topologies(1, 1, 2, true, 2, true, true), all_phase(1, {1}), r13, d12, tokPC(), 12));
  go(family("SDF, 2 actors, 1 channel, rates 1..4 (1..6), tokens 0..p+c", 2, topologies(2, 1, 1, true, 1, true, true), all_phase(2, {1}), th ? Alpha{{1, vecs(1, 1, 6)}} : r14, d13, tokPC(), th ? 24 : 14));
  go(family("SDF, 2 actors, 2 channels, rates 1..3, tokens 0..2 (0..3)", 2, topologies(2, 2, 2, true, 2, true, true), all_phase(2, {1}), r13, d13, tokK(th ? 3 : 2), 12));
  if (th) go(family("T: SDF, 2 actors, 3 channels, rates 1..2, tokens 0..2", 2, topologies(2, 3, 3, true, 2, true, true), all_phase(2, {1}), r12, d13, tokK(2), 12));
  go(family("CSDF, 2 actors, 1 channel, phases 1..2 (1..3), tokens 0..3", 2, {Topo{{0, 1}}}, all_phase(2, th ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2}), Alpha{{1, cs[1]}, {2, cs[2]}, {3, V({{1, 0, 1}, {1, 2, 3}, {0, 0, 2}})}}, Alpha{{1, csd[1]}, {2, csd[2]}, {3, V({{1, 2, 1}})}}, tokK(3), 18));
  go(family("CSDF, 2-cycle, phases 1..2, tokens 0..4", 2, {cycle(2)}, all_phase(2, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}}, csd1, tokK(4), 10));
  c.note("original search: one three-actor triangle, every capacity (known findings)"); each_cap(c, G::parse("T1|2r1;2r1;2r1|0>1p1c1m0;0>2p1c2m0;1>2p1c2m0"), false);
  judgeOriginal = false;
  go(family("SDF, 3 actors, 2 channels, rates 1..3, tokens 0..1 (0..2)", 3, topologies(3, 2, 2, false, 1, true, true), all_phase(3, {1}), r13, Alpha{{1, V({{1}, {2}})}}, tokK(th ? 2 : 1), 14));
  go(family("SDF, 3 actors, triangles and rings, rates 1..2, tokens 0..1 (0..2), different times", 3, topologies(3, 3, 3, false, 1, true, true), all_phase(3, {1}), r12, Alpha{{1, V({{1}, {3}})}}, tokK(th ? 2 : 1), 8));
  go(family("HSDF, 4 actors, 3..4 channels", 4, topologies(4, 3, 4, false, 1, true, true), all_phase(4, {1}), Alpha{{1, V({{1}})}}, Alpha{{1, V({{1}, {3}})}}, tokK(1), 8));
  if (th) go(family("T: CSDF, 3 actors, chain and triangle, phases 1..2", 3, {Topo{{0, 1}, {1, 2}}, Topo{{0, 1}, {1, 2}, {0, 2}}, cycle(3)}, all_phase(3, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {1, 2}})}}, csd1, tokK(1), 10));
  if (th) go(family("T: HSDF, 4 actors, 5 channels", 4, topologies(4, 5, 5, false, 1, true, true), all_phase(4, {1}), Alpha{{1, V({{1}})}}, Alpha{{1, V({{1}, {3}})}}, tokK(1), 8));
  large_families(th ? 1 : 0, [&](const Family& f) { c.note(f.name + ", the smallest capacities, one more token in one channel, one more everywhere"); for (auto& g : f.list) { auto r = repetition(g); if (r.empty() || !live(g, r) || total(r) > 60) continue; auto R = ranges(g, false); std::vector<int> cap; for (auto& x : R) cap.push_back(x.lo); auto one = [&](const std::vector<int>& k) { if (!c.take()) return; c.mark(keyOf(g, k)); check(c, g, k); }; one(cap); for (size_t i = 0; i < cap.size(); i++) { if (cap.size() > 12 && i % 5) continue; auto k = cap; k[i]++; one(k); } for (auto& x : cap) x++; one(cap); } });
  judgeOriginal = true;
  { auto f = family("token counts beyond 32 bits: 2 actors, 1..2 channels, rates and tokens times 2^31", 2, {Topo{{0, 1}}, cycle(2)}, all_phase(2, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {1, 2}})}}, Alpha{{1, V({{1}, {3}})}, {2, V({{1, 2}})}}, tokK(2), 12); f.tok = 2147483648LL; go(f); }
  { auto f = family("fractional durations (thirds): SDF, 2 actors, 1 channel", 2, {Topo{{0, 1}}}, all_phase(2, {1}), r13, Alpha{{1, V({{1}, {2}, {4}})}}, tokK(2), 12); f.tden = 3; go(f); }
}
void one(Ctx& c, const std::string& key) { c.mark(key); size_t k = key.rfind('|'); std::vector<int> cap; std::stringstream st(key.substr(k + 1)); std::string e; while (std::getline(st, e, ',')) cap.push_back(std::stoi(e)); check(c, G::parse(key.substr(0, k)), cap); }
}
kv::Module kv::module{"P18", run, one, "every live graph of the listed families with every capacity assignment of the stated ranges; throughput against an explicit bounded token game (itself compared with the dependency graph with reverse channels), reported bottlenecks by making every other channel unlimited", {"connected graphs, capacities at least the initial tokens and the largest rate", "concurrency limit 1, positive execution times"}};
