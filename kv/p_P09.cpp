// Throughput / storage exploration against the complete enumeration of storage distributions.
#include "kiter_api.hpp"
#include "stdfam.hpp"
#include "bounded.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace kv;
extern "C" int backtrace(void**, int) { return 0; }
namespace {
int maxSize = 60;
std::string scratch() { static std::string dir; if (dir.empty()) { char b[] = "/tmp/kv_P09_XXXXXX"; dir = mkdtemp(b); static std::string d = dir; atexit([]() { for (const char* s : {"_pp_logs", "x"}) (void)s; std::string c = "rm -rf '" + d + "'"; if (d.rfind("/tmp/kv_P09_", 0) == 0) { int k = system(c.c_str()); (void)k; } }); } return dir; }
struct Row { int size; long double thr; std::vector<int> cap; };
std::vector<Row> rows(const std::string& file, ll tok, bool& ok) { auto cnt = [&](const std::string& x) { ll v = std::stoll(x); if (v % tok) ok = false; return (int)(v / tok); }; std::vector<Row> R; std::ifstream f(file); std::string l; ok = (bool)std::getline(f, l); while (std::getline(f, l)) { if (l.empty()) continue; Row r; size_t a = l.find(';'), b = l.find(';', a + 1); if (a == std::string::npos || b == std::string::npos) { ok = false; return R; } r.size = cnt(l.substr(0, a)); r.thr = strtold(l.c_str() + a + 1, nullptr); std::string q = l.substr(b + 1), n; for (char ch : q) if (ch == ',' ) { r.cap.push_back(cnt(n)); n.clear(); } else if (isdigit(ch) || ch == '-') n += ch; if (!n.empty()) r.cap.push_back(cnt(n)); R.push_back(r); } return R; }
std::vector<std::pair<std::string, std::string>> modes = {{"", "_kiter"}, {"SYMB_EXEC_CORRECTED", "_symbexec_corrected"}, {"SYMB_EXEC_ORIGINAL", "_symbexec_original"}};
void check(Ctx& c, const G& g, int target) { // target 0: default; k>0: k-th Pareto throughput as target
  auto r = repetition(g); if (r.empty() || !live(g, r)) return; STStats st; Q top = thrOf(g, r); auto F = pareto_front(g, r, top, st, maxSize); if (F.empty()) { c.count("front_beyond_bound"); return; } if (target >= (int)F.size()) return; c.evals(); c.states(st.states);
  c.outcome(std::to_string(F.size()) + " points"); c.count("points_" + std::to_string(std::min<size_t>(F.size(), 6))); auto lo = smallest_caps(g);
  auto full = F; if (target) { F.resize(target); } // a target met only up to rounding lets the search go on: further points must lie on the whole front
  for (size_t m = 0; m < modes.size(); m++) { if (m == 2 && g.A.size() > 2) continue; // original search: see P18
    if (target && m == 2) continue;
    std::string dir = scratch(); mkdir(dir.c_str(), 0700); std::string file = dir + "/pp_logs/g_pp" + modes[m].second + ".csv"; unlink(file.c_str()); parameters_list_t p; p["LOGDIR"] = dir; if (m) p[modes[m].first] = "1"; if (target) { std::ostringstream o; o << std::setprecision(21) << (g.tden * F.back().thr.ld()); p["THR"] = o.str(); }
    models::Dataflow* d = build(g); Run y = algo("ThroughputBufferingDSE", d, p); delete d; std::string nm = m ? modes[m].second.substr(1) : "kiter";
    if (!y.ok()) { c.fail("error-" + nm, y.err); continue; } bool ok; auto R = rows(file, g.tok, ok); if (!ok) { c.fail("output-" + nm, "no readable result file"); continue; }
    bool zero = false; std::map<int, long double> got;
    for (auto& x : R) { c.validated(); if (x.thr <= 0) { if (x.size != 0) c.fail("zero-point-" + nm, "size " + std::to_string(x.size) + " announced for throughput 0"); zero = true; continue; }
      int s = 0; for (int q : x.cap) s += q; if (x.cap.size() != g.C.size() || s != x.size) { c.fail("row-" + nm, "capacities do not add up to the announced size " + std::to_string(x.size)); continue; }
      bool en = true; for (size_t i = 0; i < x.cap.size(); i++) if (x.cap[i] < g.C[i].m) en = false; Q t = en ? thrOf(bounded(g, x.cap), r) : Q(0); c.transitions(1); if (!close(x.thr, g.tden * t.ld(), 2e-5L)) c.fail("not-achievable-" + nm, "size " + std::to_string(x.size) + " announced with throughput " + std::to_string((double)x.thr) + ", these capacities give " + std::to_string((double)(g.tden * t.ld()))); got[x.size] = std::max(got[x.size], x.thr); }
    (void)zero; std::string want, have; for (auto& q : F) want += std::to_string(q.size) + ":" + std::to_string((double)(g.tden * q.thr.ld())) + " "; for (auto& q : got) have += std::to_string(q.first) + ":" + std::to_string((double)q.second) + " ";
    for (auto& q : F) { bool f = got.count(q.size) && close(got[q.size], g.tden * q.thr.ld(), 2e-5L); if (!f) c.fail("missing-point-" + nm, "front is " + want + " returned " + have); }
    for (auto& q : got) { bool f = false; for (auto& z : full) if (z.size == q.first && close(q.second, g.tden * z.thr.ld(), 2e-5L)) f = true; if (!f) c.fail("dominated-point-" + nm, "front is " + want + " returned " + have); } }
}
void go(Ctx& c, const Family& f, bool targets = false) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>& r) { if (r.empty() || !live(g, r)) return; for (int t = 0; t <= (targets ? 3 : 0); t++) { if (!c.take()) continue; c.mark(g.key() + "|" + std::to_string(t)); check(c, g, t); } }); }
void run(Ctx& c) { bool th = c.thorough;
  Alpha r12{{1, vecs(1, 1, 2)}}, r13{{1, vecs(1, 1, 3)}}, r14{{1, vecs(1, 1, 4)}}, d12{{1, V({{1}, {2}})}}, d13{{1, V({{1}, {3}})}}, d1{{1, V({{2}})}};
  Alpha cs{{1, vecs(1, 1, 3)}, {2, V({{1, 0}, {0, 2}, {1, 2}, {2, 1}, {1, 1}, {3, 1}})}}, csd{{1, V({{1}, {2}})}, {2, V({{1, 2}, {2, 1}})}}, csd1{{1, V({{2}})}, {2, V({{1, 2}})}};
  go(c, family("SDF, 1 actor, 1..2 self-loops, rates 1..3", 1, topologies(1, 1, 2, true, 2, true, true), all_phase(1, {1}), r13, d12, tokPC(), 12));
  go(c, family("SDF, 2 actors, 1 channel, rates 1..4 (1..6), tokens 0..p+c", 2, topologies(2, 1, 1, true, 1, true, true), all_phase(2, {1}), th ? Alpha{{1, vecs(1, 1, 6)}} : r14, Alpha{{1, V({{1}, {3}, {7}})}}, tokPC(), 18), true);
  go(c, family("CSDF, 2 actors, 1 channel, phases 1..2 (1..3), tokens 0..3", 2, {Topo{{0, 1}}}, all_phase(2, th ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2}), Alpha{{1, cs[1]}, {2, cs[2]}, {3, V({{1, 0, 1}, {1, 2, 3}, {0, 0, 2}})}}, Alpha{{1, csd[1]}, {2, csd[2]}, {3, V({{1, 2, 1}})}}, tokK(3), 18), true);
  go(c, family("SDF, 2 actors, 2 channels, rates 1..2 (1..3), tokens 0..2", 2, topologies(2, 2, 2, true, 2, true, true), all_phase(2, {1}), th ? r13 : r12, d13, tokK(th ? 3 : 2), 10), true);
  go(c, family("CSDF, 2-cycle, phases 1..2, tokens 0..4", 2, {cycle(2)}, all_phase(2, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}}, csd1, tokK(4), 10));
  go(c, family("SDF, 3 actors, 2 channels, rates 1..3, tokens 0..1", 3, topologies(3, 2, 2, false, 1, true, true), all_phase(3, {1}), r13, Alpha{{1, V({{1}, {2}})}}, tokK(th ? 2 : 1), th ? 14 : 11));
  go(c, family("SDF, 3 actors, triangles and rings, rates 1..2, tokens 0..1", 3, topologies(3, 3, 3, false, 1, true, true), all_phase(3, {1}), r12, d13, tokK(1), 6));
  go(c, family("CSDF, chain of 3 actors, phases 1..2, tokens 0..1", 3, {Topo{{0, 1}, {1, 2}}}, all_phase(3, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}}, csd1, tokK(1), 10), th);
  go(c, family("SDF, 2 actors, 1..2 channels and a self-loop, rates 1..2, tokens 0..2", 2, {Topo{{0, 1}, {0, 0}}, Topo{{0, 1}, {1, 1}}, Topo{{0, 1}, {1, 0}, {1, 1}}}, all_phase(2, {1}), r12, d13, tokK(2), 8));
  go(c, family("SDF, 4 actors, trees, rates 1..2", 4, topologies(4, 3, 3, false, 1, true, true), all_phase(4, {1}), r12, Alpha{{1, V({{1}, {2}})}}, tokK(0), 8));
  if (th) go(c, family("T: HSDF, 4 actors, 3..4 channels", 4, topologies(4, 3, 4, false, 1, true, true), all_phase(4, {1}), Alpha{{1, V({{1}})}}, Alpha{{1, V({{1}, {3}})}}, tokK(1), 8));
  { auto f = family("token counts beyond 32 bits: 2 actors, 1..2 channels, rates and tokens times 2^31", 2, {Topo{{0, 1}}, cycle(2)}, all_phase(2, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {1, 2}})}}, Alpha{{1, V({{1}, {3}})}, {2, V({{1, 2}})}}, tokK(2), 12); f.tok = 2147483648LL; go(c, f); }
  { auto f = family("fractional durations (thirds): SDF, 2 actors, 1 channel", 2, {Topo{{0, 1}}}, all_phase(2, {1}), r13, Alpha{{1, V({{1}, {2}, {4}})}}, tokK(2), 12); f.tden = 3; go(c, f); }
}
void one(Ctx& c, const std::string& key) { c.mark(key); size_t k = key.rfind('|'); check(c, G::parse(key.substr(0, k)), std::stoi(key.substr(k + 1))); }
}
kv::Module kv::module{"P09", run, one, "every live graph of the listed families: the points written by the exploration against the exact front obtained from every storage distribution of every size", {"connected graphs, concurrency limit 1, positive execution times", "step-multiplier (COARSE) and monotonic-optimisation options are heuristics and not judged", "original dependency search judged for graphs of up to two actors (see P18)"}};
