// The graph generators: every outcome of the generator's random draws for small configurations (its draws are choice points), every seed of a range for larger ones, every small parameter combination of the LTE generator.
#include "kv_random.hpp"
#include "kiter_api.hpp"
#include "stdfam.hpp"
#include <generators/RandomGenerator.h>
#include <generators/LTEGenerator.h>
#include <sys/mman.h>
using namespace kv;
// addresses are not part of a seed: memory handed out upwards or downwards from an arena
namespace { char *lo = nullptr, *hi = nullptr, *at = nullptr; int order = 0; const size_t ARENA = 32u << 20;
struct Arena { Arena(int o) { lo = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); hi = lo + ARENA; at = o > 0 ? lo : hi; order = o; } ~Arena() { order = 0; munmap(lo, ARENA); lo = hi = nullptr; } }; }
void* operator new(size_t n) { n = (n + 31) / 16 * 16; if (order && (order > 0 ? at + n <= hi : at - n >= lo)) { if (order > 0) { at += n; return at - n; } return at -= n; } void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if ((char*)p >= lo && (char*)p < hi) return; free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
namespace {
struct Cfg { int v0, v1, e0, e1, w, d, ph, ip, noreent, noself; std::string str() const { std::string s; for (int x : {v0, v1, e0, e1, w, d, ph, ip, noreent, noself}) s += std::to_string(x) + " "; return s; } };
RandomGeneratorConfiguration conf(const Cfg& f) { RandomGeneratorConfiguration r; r.min_vertices_count = f.v0; r.max_vertices_count = f.v1; r.min_edges_count = f.e0; r.max_edges_count = f.e1; r.max_weight = f.w; r.max_duration = f.d; r.max_phase_quantity = f.ph; r.max_init_phase_quantity = f.ip; r.no_reentrancy = f.noreent; r.no_self_loop = f.noself; return r; }
void judge(Ctx& c, const Cfg& f, models::Dataflow* d, const std::string& how) {
  G g; Run x = guarded([&]() { g = readG(d); }); if (!x.ok()) { c.fail("shape", x.err + how); return; } auto in = [](ll v, ll a, ll b) { return v >= a && v <= b; }; auto bad = [&](const std::string& k, const std::string& m) { c.fail(k, m + how + " graph " + g.key()); };
  c.states(1); c.validated(); if (!in(g.A.size(), f.v0, f.v1)) bad("actors", std::to_string(g.A.size()) + " actors"); if (!in(g.C.size(), f.e0, f.e1)) bad("channels", std::to_string(g.C.size()) + " channels");
  for (auto& a : g.A) { if (!in(a.dur.size(), 1, f.ph)) bad("phases", std::to_string(a.dur.size()) + " phases"); if (!in(a.idur.size(), 0, f.ip)) bad("phases", std::to_string(a.idur.size()) + " initial phases"); for (int t : a.dur) if (!in(t, 1, f.d)) bad("duration", "duration " + std::to_string(t)); for (int t : a.idur) if (!in(t, 1, f.d)) bad("duration", "initial duration " + std::to_string(t)); if (a.reent != (f.noreent ? 0 : 1)) bad("reentrancy", "reentrancy factor " + std::to_string(a.reent)); }
  for (auto& ch : g.C) { if (f.noself && ch.s == ch.t) bad("self-loop", "channel from an actor to itself"); for (auto* v : {&ch.p, &ch.c}) { ll s = 0; for (int q : *v) { if (q < 0) bad("rate", "negative rate"); s += q; } if (!in(s, 1, f.w)) bad("rate", "rate " + std::to_string(s) + " per cycle"); } for (auto* v : {&ch.ip, &ch.ic}) { ll s = 0; for (int q : *v) { if (q < 0) bad("rate", "negative rate"); s += q; } if (!in(s, 0, f.w)) bad("rate", "initial rate " + std::to_string(s)); } if (ch.m < 0) bad("tokens", "negative number of tokens"); }
  ll steps = 0; G z; auto r = repetition(g); if (r.empty()) { bad("consistent", "inconsistent graph"); return; } if (!(settle(g, r, z, &steps) && live(z, r))) bad("live", "the graph deadlocks"); c.transitions(steps); c.outcome(g.key()); }
std::vector<long> play(Ctx& c, const Cfg& f, const std::vector<long>& s, bool test) { RandomGenerator gen(conf(f)); models::Dataflow* d = nullptr; draws.start(s); Run x = guarded([&]() { d = gen.generate(7); }); draws.on = false; auto ar = draws.arity; std::string h = " (draws"; for (size_t i = 0; i < ar.size(); i++) h += " " + std::to_string(i < s.size() ? s[i] % ar[i] : 0); h += ")"; if (test) { c.evals(); if (!x.ok() || !d) c.fail("error", "generation failed: " + x.err + h); else { auto keep = draws.arity; judge(c, f, d, h); } } delete d; return ar; }
void tree(Ctx& c, const Cfg& f, std::vector<long> s) { size_t base = s.size(); for (;;) { auto ar = play(c, f, s, true); s.resize(ar.size(), 0); c.count("draw sequences"); while (s.size() > base && s.back() + 1 >= ar[s.size() - 1]) s.pop_back(); if (s.size() <= base) return; s.back()++; if (c.failures > 50) return; } }
models::Dataflow* viaCmd(const Cfg& f, long seed) { parameters_list_t p; p["min_vertices_count"] = std::to_string(f.v0); p["max_vertices_count"] = std::to_string(f.v1); p["min_edges_count"] = std::to_string(f.e0); p["max_edges_count"] = std::to_string(f.e1); p["max_weight"] = std::to_string(f.w); p["max_duration"] = std::to_string(f.d); p["max_phase_quantity"] = std::to_string(f.ph); p["max_init_phase_quantity"] = std::to_string(f.ip); p["seed"] = std::to_string(seed); return generators::generate_random_sdf(p); }
void seeded(Ctx& c, const Cfg& f, long seed) { models::Dataflow *a = nullptr, *b = nullptr, *e = nullptr; c.evals(); std::string how = " (seed " + std::to_string(seed) + ")"; Run x = guarded([&]() { a = RandomGenerator(conf(f)).generate(seed); RandomGenerator g2(conf(f)); delete g2.generate(seed + 1); b = g2.generate(seed); if (!f.noreent && f.noself) e = viaCmd(f, seed); }); for (int o : {1, -1}) if (x.ok()) { Arena m(o); models::Dataflow* q = nullptr; std::string k; { Run y = guarded([&]() { q = RandomGenerator(conf(f)).generate(seed); }); int keep = order; order = 0; if (y.ok()) k = readG(q).key(); delete q; order = keep; } if (k != readG(a).key()) { c.fail("seed", "the graph depends on memory addresses" + how); break; } } if (!x.ok()) { c.fail("error", "generation failed: " + x.err + how); } else { judge(c, f, a, how); if (readG(a).key() != readG(b).key()) c.fail("seed", "the same seed gives two different graphs" + how); if (e && readG(e).key() != readG(a).key()) c.fail("command", "the generator command does not honour its parameters" + how + " " + readG(e).key()); } delete a; delete b; delete e; }
void lte(Ctx& c, const std::vector<int>& n) { parameters_list_t p; const char* nm[] = {"miwf", "cwac", "ifft", "dd"}; for (int i = 0; i < 4; i++) p[nm[i]] = std::to_string(n[i]); models::Dataflow* d = nullptr; c.evals(); G g; Run x = guarded([&]() { d = generators::generate_lte_sdf(p); g = readG(d); }); if (!x.ok()) { c.fail("lte", x.err); delete d; return; } c.states(1); c.validated();
  std::vector<std::vector<int>> layer(4); {int k = 0; ForEachVertex(d, v) { std::string s = d->getVertexName(v); s = s.substr(0, s.find('_')); bool found = false; for (int i = 0; i < 4; i++) if (s == nm[i]) { layer[i].push_back(k); found = true; } if (!found) c.fail("lte", "unexpected actor " + d->getVertexName(v)); k++; }} std::map<std::pair<int, int>, int> seen; for (auto& ch : g.C) { seen[{ch.s, ch.t}]++; if (ch.m) c.fail("lte", "initial tokens"); } size_t want = 0;
  for (int i = 0; i < 4; i++) { if ((int)layer[i].size() != n[i]) c.fail("lte", std::to_string(layer[i].size()) + " actors of kind " + nm[i]); if (i < 3) for (int a : layer[i]) for (int b : layer[i + 1]) { want++; if (seen[{a, b}] != 1) c.fail("lte", "stages are not fully connected"); } } if (g.C.size() != want) c.fail("lte", std::to_string(g.C.size()) + " channels"); auto r = repetition(g); if (r.empty() && g.A.size()) c.fail("lte", "inconsistent graph"); else { ll steps = 0; G z; if (!(settle(g, r, z, &steps) && live(z, r))) c.fail("lte", "the graph deadlocks"); } c.outcome(std::to_string(g.C.size())); delete d; }
void dispatch(Ctx& c, const std::string& key) { std::istringstream in(key); std::string op; in >> op; std::vector<long> v; long x; while (in >> x) v.push_back(x); if (op == "lte") { lte(c, {v.begin(), v.end()}); return; } Cfg f{(int)v[0], (int)v[1], (int)v[2], (int)v[3], (int)v[4], (int)v[5], (int)v[6], (int)v[7], (int)v[8], (int)v[9]}; if (op == "seed") seeded(c, f, v[10]); else tree(c, f, {v.begin() + 10, v.end()}); }
void go(Ctx& c, const std::string& key) { if (!c.take()) return; c.mark(key); dispatch(c, key); }
void all(Ctx& c, const Cfg& f) { // split the tree of draws into subtrees
  c.note("every outcome of the draws: actors " + std::to_string(f.v0) + ".." + std::to_string(f.v1) + ", channels " + std::to_string(f.e0) + ".." + std::to_string(f.e1) + ", weight " + std::to_string(f.w) + ", duration " + std::to_string(f.d) + ", phases " + std::to_string(f.ph) + ", initial phases " + std::to_string(f.ip) + (f.noself ? ", no self-loops" : "")); std::vector<std::vector<long>> todo{{}}, done; while (todo.size() && todo.size() + done.size() < 300) { auto s = todo.front(); todo.erase(todo.begin()); Ctx dummy; auto ar = play(dummy, f, s, false); if (ar.size() <= s.size()) { done.push_back(s); continue; } for (long k = 0; k < ar[s.size()]; k++) { auto t = s; t.push_back(k); todo.push_back(t); } } done.insert(done.end(), todo.begin(), todo.end());
  for (auto& s : done) { std::string k = "draws " + f.str(); for (long q : s) k += std::to_string(q) + " "; go(c, k); } }
void run(Ctx& c) { bool t = c.thorough;
  all(c, {1, 2, 0, 2, 2, 1, 1, 0, 0, 0}); all(c, {2, 2, 1, 2, 3, 1, 1, 0, 0, 1}); all(c, {2, 2, 2, 2, 4, 1, 1, 0, 0, 0}); all(c, {3, 3, 2, 2, 2, 1, 1, 0, 0, 1}); all(c, {2, 2, 1, 1, 2, 2, 2, 0, 0, 0}); all(c, {2, 2, 1, 1, 3, 1, 3, 0, 0, 1}); all(c, {1, 1, 1, 2, 2, 1, 2, 0, 0, 0}); all(c, {2, 2, 2, 2, 2, 1, 2, 0, 0, 0}); all(c, {1, 1, 1, 1, 3, 1, 1, 2, 0, 0}); all(c, {2, 2, 1, 2, 2, 1, 1, 1, 0, 0}); all(c, {2, 2, 2, 2, 2, 1, 1, 2, 0, 1});
  all(c, {3, 3, 2, 2, 3, 1, 1, 0, 1, 0}); if (t) { all(c, {3, 3, 3, 3, 2, 1, 1, 0, 0, 0}); all(c, {2, 2, 3, 3, 2, 1, 2, 0, 0, 0}); all(c, {2, 2, 2, 2, 3, 1, 2, 1, 0, 0}); }
  int S = t ? 3000 : 300; c.note("every seed 0.." + std::to_string(S) + " of seven configurations"); std::vector<Cfg> cf{{8, 12, 8, 16, 3, 1, 1, 0, 0, 1}, {3, 6, 3, 9, 5, 4, 3, 0, 0, 1}, {1, 4, 0, 6, 3, 3, 2, 0, 0, 0}, {2, 5, 2, 8, 6, 9, 4, 0, 1, 0}, {2, 4, 2, 6, 4, 2, 2, 2, 0, 1}, {4, 4, 4, 4, 20, 50, 1, 0, 0, 1}, {2, 3, 1, 5, 3, 2, 3, 3, 0, 0}}; for (int s = 0; s <= S; s++) for (auto& f : cf) go(c, "seed " + f.str() + std::to_string(s));
  int L = t ? 5 : 3; c.note("LTE generator: every combination of stage widths 0.." + std::to_string(L) + ", and larger ones"); std::vector<int> w; for (int i = 0; i <= L; i++) w.push_back(i); w.push_back(9); for (auto& x : tuples(4, w)) go(c, "lte " + std::to_string(x[0]) + " " + std::to_string(x[1]) + " " + std::to_string(x[2]) + " " + std::to_string(x[3])); }
void one(Ctx& c, const std::string& key) { c.mark(key); dispatch(c, key); }
}
kv::Module kv::module{"P15", run, one, "the generator's random draws are choice points: every outcome of every draw for the small configurations, every seed of a range for the larger ones; graphs are judged against the configuration, by exact rational balance equations and by an untimed execution through the initial phases and one full iteration", {"draws repeated until accepted are branched twice, then rotated", "a cycle's total rate per channel is what max_weight bounds"}, 60};
