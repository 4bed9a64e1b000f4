// Packet traces of executions, and their replay on a time-division network.
#include "kiter_api.hpp"
#include "stdfam.hpp"
#include "oracle.hpp"
#include <fstream>
#include <unistd.h>
#include <cstdlib>
using namespace kv;
namespace {
struct Pkt { int s, d; ll dur; std::vector<int> deps; };
bool numbers(const std::string& l, std::vector<ll>& v) { v.clear(); if (l.empty() || !(isdigit(l[0]) || l[0] == '-')) return false; const char* p = l.c_str(); for (;;) { char* e; ll x = strtoll(p, &e, 10); if (e == p) return false; v.push_back(x); p = e; if (*p == '.') { p++; while (isdigit(*p)) p++; } if (!*p) return true; if (*p != ',') return false; p++; } }
// trace text -> packets; empty string when well formed
std::string parseTrace(const std::string& out, std::vector<Pkt>& P, std::vector<std::string>& raw) {
  std::istringstream in(out); std::string l; std::vector<ll> v; bool dims = false; while (std::getline(in, l)) { if (l.empty()) continue; if (l[0] == '#') { raw.push_back(l); continue; } if (!numbers(l, v)) continue; raw.push_back(l); if (!dims) { dims = true; if (v.size() != 3 || v[0] != 4 || v[1] != 4) return "grid line '" + l + "'"; continue; } if (v.size() < 5) return "short line '" + l + "'"; Pkt p{(int)v[0], (int)v[1], v[2], {}}; if (v[3] != (ll)P.size()) return "packet " + std::to_string(v[3]) + " where " + std::to_string(P.size()) + " is expected"; for (size_t i = 5; i < v.size(); i++) { if (v[i] < 0 || v[i] >= v[3]) return "packet " + std::to_string(v[3]) + " depends on packet " + std::to_string(v[i]) + ", which is not an earlier one"; p.deps.push_back(v[i]); } P.push_back(p); } return dims ? "" : "no trace"; }
ll cdiv(ll a, ll b) { return (a + b - 1) / b; }
// the trace against the graph; empty when right
std::string judge(const G& g, const std::vector<ll>& r, ll psize, ll iter, const std::vector<Pkt>& P) {
  int n = g.A.size(), N = P.size(); std::vector<std::vector<char>> anc(N, std::vector<char>(N, 0)); for (int i = 0; i < N; i++) for (int d : P[i].deps) { anc[i][d] = 1; for (int k = 0; k < d; k++) if (anc[d][k]) anc[i][k] = 1; }
  std::vector<std::vector<int>> comp(n); std::vector<int> firing(N, -1), nth(N, -1);
  for (int i = 0; i < N; i++) { if (P[i].s < 0 || P[i].s >= n || P[i].d < 0 || P[i].d >= n) return "packet " + std::to_string(i) + " is between unknown actors"; if (P[i].s == P[i].d && P[i].dur > 0) { auto& c = comp[P[i].s]; nth[i] = c.size(); c.push_back(i); if (P[i].dur != g.A[P[i].s].dur[0]) return "computation " + std::to_string(i) + " lasts " + std::to_string(P[i].dur); } else if (P[i].dur) return "packet " + std::to_string(i) + " has a duration"; }
  for (int a = 0; a < n; a++) { if ((ll)comp[a].size() != r[a] * iter) return aname(a) + " fires " + std::to_string(comp[a].size()) + " times instead of " + std::to_string(r[a] * iter); for (size_t k = 1; k < comp[a].size(); k++) if (!anc[comp[a][k]][comp[a][k - 1]]) return "firing " + std::to_string(k) + " of " + aname(a) + " does not follow the previous one"; }
  // packets of each firing towards each target, in order
  std::map<std::pair<int, int>, std::vector<std::vector<int>>> sent; for (auto& c : g.C) sent[{c.s, c.t}].resize(comp[c.s].size());
  for (int i = 0; i < N; i++) if (nth[i] < 0) { int f = -1; for (size_t k = 0; k < comp[P[i].s].size(); k++) if (anc[i][comp[P[i].s][k]]) f = k; if (f < 0) return "packet " + std::to_string(i) + " does not depend on any firing of " + aname(P[i].s); auto it = sent.find({P[i].s, P[i].d}); if (it == sent.end()) return "packet " + std::to_string(i) + " between actors without a channel"; it->second[f].push_back(i); firing[i] = f; }
  for (auto& e : sent) { ll want = 0; for (auto& c : g.C) if (c.s == e.first.first && c.t == e.first.second) want += psize ? cdiv(c.p[0], psize) : 1; for (size_t f = 0; f < e.second.size(); f++) if ((ll)e.second[f].size() != want) return "firing " + std::to_string(f) + " of " + aname(e.first.first) + " sends " + std::to_string(e.second[f].size()) + " packets to " + aname(e.first.second) + " instead of " + std::to_string(want); int par = 0; for (auto& c : g.C) if (c.s == e.first.first && c.t == e.first.second) par++; for (auto& F : e.second) { int first = 0; for (int x : F) { bool after = false; for (int y : F) if (anc[x][y]) after = true; if (!after) first++; } if (first > par) return "packets of one firing of " + aname(e.first.first) + " to " + aname(e.first.second) + " do not follow one another"; } }
  for (auto& c : g.C) { auto& S = sent[{c.s, c.t}]; int par = 0; for (auto& x : g.C) if (x.s == c.s && x.t == c.t) par++; for (size_t k = 0; k < comp[c.t].size(); k++) { int me = comp[c.t][k]; for (ll x = (ll)k * c.c[0]; x < (ll)(k + 1) * c.c[0]; x++) { if (x < c.m) continue; ll y = x - c.m, f = y / c.p[0], o = y % c.p[0]; if (f >= (ll)S.size()) return "token from beyond the last firing"; bool ok = false; for (size_t ff = f; ff < S.size() && !ok; ff++) for (size_t q = 0; q < S[ff].size(); q++) if (anc[me][S[ff][q]] && (par > 1 || ff > (size_t)f || (ll)q >= (psize ? o / psize : 0))) { ok = true; break; } if (!ok) return "firing " + std::to_string(k) + " of " + aname(c.t) + " consumes token " + std::to_string(y) + " of " + aname(c.s) + " without waiting for a packet carrying it"; } } }
  return ""; }
struct Scratch { std::string dir; Scratch() { const char* t = access("/dev/shm", W_OK) ? "/tmp/kv16_XXXXXX" : "/dev/shm/kv16_XXXXXX"; std::vector<char> b(t, t + strlen(t) + 1); dir = mkdtemp(b.data()); } ~Scratch() { for (auto f : {"map", "slot", "pkt"}) ::unlink((dir + "/" + f).c_str()); ::rmdir(dir.c_str()); } std::string put(const std::string& f, const std::string& text) { std::ofstream o(dir + "/" + f, std::ios::trunc); o << text; return dir + "/" + f; } };
struct Net { int rows, cols, T; std::vector<int> map; std::map<std::pair<int, int>, int> slot; };
int ab(int x) { return x < 0 ? -x : x; }
// replay of a packet list; empty when right
std::string replay(Ctx& c, const std::vector<Pkt>& P, const std::string& text, const Net& n) {
  static Scratch sc; std::string m = "100"; for (int x : n.map) m += "," + std::to_string(x); std::string st = std::to_string(n.T) + "\n"; for (auto& s : n.slot) st += "src," + std::to_string(s.first.first) + ",dst," + std::to_string(s.first.second) + ",slot," + std::to_string(s.second) + "\n";
  parameters_list_t p; p["mapfile"] = sc.put("map", m + "\n"); p["slotfile"] = sc.put("slot", st); p["pktfile"] = sc.put("pkt", text); static models::Dataflow none; Run r = algo("TDMASchedule", &none, p); c.validated(); if (!r.ok()) return r.err;
  std::map<int, std::vector<ll>> R; std::istringstream in(r.out); std::string l; std::vector<ll> v; while (std::getline(in, l)) if (l.compare(0, 7, "pkt_id=") == 0 && numbers(l.substr(7), v)) { if (v.size() != 8) return "line " + l; if (!R.insert({(int)v[0], v}).second) return "packet " + std::to_string(v[0]) + " delivered twice"; }
  if (R.size() != P.size()) return std::to_string(R.size()) + " packets delivered instead of " + std::to_string(P.size()); std::map<std::tuple<int, int, ll>, int> taken; std::string why;
  for (auto& x : R) { int i = x.first; auto& v = x.second; if (i < 0 || i >= (int)P.size()) return "unknown packet"; int s = n.map[P[i].s], d = n.map[P[i].d]; c.states(1); c.transitions(P[i].deps.size() + 1); ll D = v[1], C = v[2], S = v[3], E = v[4]; std::string who = "packet " + std::to_string(i) + ": "; if (v[5] != s || v[6] != d || v[7] != P[i].dur) return who + "wrong packet data"; ll need = 0; bool later = false; for (int q : P[i].deps) { need = std::max(need, R[q][4]); if (q > i) later = true; }
    if (D < need) return who + "starts at " + std::to_string(D) + " before its dependencies, done at " + std::to_string(need); if (D > need + (later ? 1 : 0)) return who + "starts at " + std::to_string(D) + " although its dependencies were done at " + std::to_string(need); if (C != D + P[i].dur) return who + "computed at " + std::to_string(C) + " after starting at " + std::to_string(D);
    if (s == d) { if (S != C || E != C) return who + "local packet not delivered at once"; continue; } if (S < C || S % n.T != n.slot.at({s, d})) return who + "sent at " + std::to_string(S) + ", outside its slot or too early"; ll dist = ab(s / n.cols - d / n.cols) + ab(s % n.cols - d % n.cols) + 1; if (E != S + dist) return who + "takes " + std::to_string(E - S) + " cycles over a distance of " + std::to_string(dist); if (!taken.insert({std::make_tuple(s, d, S), i}).second) return who + "shares its slot with another packet"; }
  for (auto& x : R) { int i = x.first; int s = n.map[P[i].s], d = n.map[P[i].d]; if (s == d) continue; for (ll t = x.second[2]; t < x.second[3]; t++) if (t % n.T == n.slot.at({s, d}) && !taken.count(std::make_tuple(s, d, t))) return "packet " + std::to_string(i) + " leaves the free slot at " + std::to_string(t) + " unused"; }
  return ""; }
void trace(Ctx& c, const G& g, ll psize, ll iter) { auto r = repetition(g); if (r.empty()) return; c.evals(); bool lv = live(g, r); auto* d = build(g); parameters_list_t p; if (psize) p["psize"] = std::to_string(psize); if (iter != 1) p["iteration"] = std::to_string(iter); Run run = algo("SymbolicExecutionWP", d, p); delete d; c.validated(); if (lv != run.ok()) { c.fail("trace-liveness", lv ? "live graph refused: " + run.err : "trace produced for a graph that deadlocks"); return; } c.outcome(lv ? "trace" : "deadlock refused"); if (!lv) return;
  std::vector<Pkt> P; std::vector<std::string> raw; std::string b = parseTrace(run.out, P, raw); if (b.empty()) { c.states(P.size()); for (auto& x : P) c.transitions(x.deps.size()); b = judge(g, r, psize, iter, P); } if (!b.empty()) { c.fail("trace", b); return; }
  std::string text; for (auto& l : raw) text += l + "\n"; std::vector<Net> nets; for (int k = 0; k < 3; k++) { Net n{4, 4, k == 0 ? 1 : k == 1 ? 3 : 5, {}, {}}; static const int place[3][5] = {{0, 1, 2, 4, 5}, {5, 9, 5, 3, 0}, {15, 0, 6, 0, 10}}; for (int i = 0; i < 16; i++) n.map.push_back(i < 5 ? place[k][i] : i); for (auto& x : P) { int s = n.map[x.s], t = n.map[x.d]; if (s != t) n.slot[{s, t}] = (s + 2 * t) % n.T; } nets.push_back(n); }
  for (auto& n : nets) { std::string e = replay(c, P, text, n); if (!e.empty()) { c.fail("replay", e); return; } } }
void exec(Ctx& c, const G& g) { auto r = repetition(g); if (r.empty()) return; c.evals(); bool ini = false; for (auto& a : g.A) if (a.idur.size()) ini = true; bool want = live(g, r); if (ini) return; auto* d = build(g); Run run = algo("SymbolicExecution", d); delete d; c.validated(); c.states(1); if (run.ok() != want) c.fail("liveness", want ? "execution of a live graph fails: " + run.err : "execution of a graph that deadlocks succeeds"); c.outcome(want ? "live" : "deadlock"); }
// "tdma rows cols T ; tasks->cores ; s d slot ... ; s d dur deps... ; ..."
void tdma(Ctx& c, const std::string& key) { std::vector<std::string> f; std::istringstream in(key); std::string t; while (std::getline(in, t, ';')) f.push_back(t); auto nums = [](const std::string& s) { std::vector<int> v; std::istringstream i(s); int x; while (i >> x) v.push_back(x); return v; }; auto h = nums(f[0]); Net n{h[0], h[1], h[2], nums(f[1]), {}}; auto sl = nums(f[2]); for (size_t i = 0; i + 2 < sl.size(); i += 3) n.slot[{sl[i], sl[i + 1]}] = sl[i + 2]; std::vector<Pkt> P; std::string text = "#NUM_ROWS,NUM_COLS,NUM_BANKS\n" + std::to_string(n.rows) + "," + std::to_string(n.cols) + ",1\n"; for (size_t i = 3; i < f.size(); i++) { auto v = nums(f[i]); Pkt p{v[0], v[1], v[2], {v.begin() + 3, v.end()}}; text += std::to_string(p.s) + "," + std::to_string(p.d) + "," + std::to_string(p.dur) + "," + std::to_string(P.size()) + ",0"; for (int x : p.deps) text += "," + std::to_string(x); text += "\n"; P.push_back(p); } c.evals(); std::string e = replay(c, P, text, n); if (!e.empty()) c.fail("replay", e); c.outcome("list of " + std::to_string(P.size())); }
void dispatch(Ctx& c, const std::string& key) { std::istringstream in(key); std::string op; in >> op; if (op == "trace") { ll ps, it; std::string k; in >> ps >> it >> k; trace(c, G::parse(k), ps, it); } else if (op == "exec") { std::string k; in >> k; exec(c, G::parse(k)); } else { std::string k; std::getline(in, k); tdma(c, k); } }
void go(Ctx& c, const std::string& key) { if (!c.take()) return; c.mark(key); dispatch(c, key); }
std::string J(const std::vector<int>& v) { std::string s; for (int x : v) s += (s.empty() ? "" : " ") + std::to_string(x); return s; }
// every list of n packets over the given endpoints, durations and acyclic dependencies
void lists(Ctx& c, int rows, int cols, int n, const std::vector<int>& map, const std::vector<std::pair<int, int>>& ends, const std::vector<int>& durs, const std::vector<int>& Ts, bool forward) {
  std::set<std::pair<int, int>> pairs; for (auto& e : ends) if (map[e.first] != map[e.second]) pairs.insert({map[e.first], map[e.second]}); std::vector<std::pair<int, int>> pv(pairs.begin(), pairs.end()); int bits = forward ? n * (n - 1) : n * (n - 1) / 2; std::vector<std::vector<int>> shapes; { std::vector<int> idx; for (size_t i = 0; i < ends.size() * durs.size(); i++) idx.push_back(i); shapes = tuples(n, idx); }
  for (int T : Ts) { std::vector<int> sv; for (int i = 0; i < T; i++) sv.push_back(i); for (auto& st : tuples(pv.size(), sv)) { std::string head = "tdma " + std::to_string(rows) + " " + std::to_string(cols) + " " + std::to_string(T) + ";" + J(map) + ";"; for (size_t i = 0; i < pv.size(); i++) head += std::to_string(pv[i].first) + " " + std::to_string(pv[i].second) + " " + std::to_string(st[i]) + " ";
    for (int m = 0; m < (1 << bits); m++) { std::vector<std::vector<int>> dep(n); int b = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (forward ? j != i : j < i) if ((m >> b++) & 1) dep[i].push_back(j); if (forward) { bool any = false; std::vector<char> done(n, 0); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (!done[i]) { bool ok = true; for (int j : dep[i]) if (!done[j]) ok = false; if (ok) done[i] = 1; } for (int i = 0; i < n; i++) { if (!done[i]) any = true; } if (any) continue; }
      for (auto& sh : shapes) { if (!c.take()) continue; std::string k = head; for (int i = 0; i < n; i++) { auto& e = ends[sh[i] / durs.size()]; k += ";" + std::to_string(e.first) + " " + std::to_string(e.second) + " " + std::to_string(durs[sh[i] % durs.size()]); for (int x : dep[i]) k += " " + std::to_string(x); } c.mark(k); dispatch(c, k); } } } } }
void run(Ctx& c) { bool th = c.thorough; Alpha one{{1, V({{1}})}}, r12{{1, vecs(1, 1, 2)}}, r13{{1, vecs(1, 1, 3)}}, r14{{1, vecs(1, 1, 4)}}, d12{{1, V({{1}, {3}})}};
  auto traces = [&](const Family& f, std::vector<ll> ps, std::vector<ll> its) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>& r) { if (r.empty()) return; for (ll p : ps) for (ll it : its) go(c, "trace " + std::to_string(p) + " " + std::to_string(it) + " " + g.key()); }); };
  traces(family("traces: SDF, 1 actor, 0..2 self-loops, rates 1..3", 1, topologies(1, 0, 2, true, 2, true, true), all_phase(1, {1}), r13, d12, tokPC(), 12), {0, 1, 2, 3, 4}, {1, 2, 3});
  traces(family("traces: SDF, 2 actors, 0..2 channels with self-loops, rates 1..3 (4)", 2, topologies(2, 0, 2, true, 2, true, true), all_phase(2, {1}), th ? r14 : r13, th ? d12 : one, tokK(th ? 4 : 3), 16), {0, 1, 2, 3}, {1, 2});
  traces(family("traces: SDF, 2 actors, 3 channels, rates 1..2", 2, topologies(2, 3, 3, true, 2, true, true), all_phase(2, {1}), r12, one, tokK(2), 12), {0, 1, 2}, {1, 2});
  traces(family("traces: SDF, 3 actors, 2..3 channels, rates 1..2 (3)", 3, topologies(3, 2, 3, false, 1, true, true), all_phase(3, {1}), th ? r13 : r12, one, tokK(th ? 3 : 2), 14), {0, 1, 2}, {1, 2});
  traces(family("traces: HSDF, 4..5 channels, 4 actors", 4, topologies(4, 4, 5, false, 1, true, true), all_phase(4, {1}), one, one, tokK(1), 8), {0}, {1, 2}); if (th) traces(family("traces: SDF, 4-cycle", 4, {cycle(4)}, all_phase(4, {1}), r12, one, tokK(3), 14), {0, 1}, {1, 2});
  auto execs = [&](const Family& f) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>& r) { if (!r.empty()) go(c, "exec " + g.key()); }); };
  Alpha c2{{1, vecs(1, 1, 2)}, {2, vecs(2, 0, 2)}, {3, V({{1, 0, 1}, {1, 2, 3}, {0, 0, 2}})}}, cd{{1, V({{1}})}, {2, V({{1, 2}})}, {3, V({{1, 1, 1}})}};
  execs(family("execution: CSDF, 1 actor, 0..2 self-loops, 1..3 phases", 1, topologies(1, 0, 2, true, 2, true, true), all_phase(1, {1, 2, 3}), c2, cd, tokPC(), 12)); execs(family("execution: CSDF, 2 actors, 0..2 channels, 1..3 phases", 2, topologies(2, 0, 2, true, 1, true, true), all_phase(2, {1, 2, 3}), c2, cd, tokK(3), 14)); execs(family("execution: SDF, 3 actors, up to 3 channels, also unconnected", 3, topologies(3, 0, 3, true, 1, true, false), all_phase(3, {1}), r12, one, tokK(2), 12)); execs(family("execution: CSDF, 3-cycle", 3, {cycle(3)}, all_phase(3, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}}, cd, tokK(3), 14));
  large_families(th ? 1 : 0, [&](const Family& f) { bool sdf = true; for (auto& g : f.list) for (auto& a : g.A) if (a.dur.size() > 1) sdf = false; if (sdf && f.list.size() && total(repetition(f.list[0])) < 60) traces(f, {0, 2}, {1, 2}); execs(f); });
  c.note("replay: one packet between every pair of cores of every grid up to 4x4, every slot of up to 3 (5)"); for (int R = 1; R <= 4; R++) for (int C = 1; C <= 4; C++) for (int s = 0; s < R * C; s++) for (int d = 0; d < R * C; d++) for (int T = 1; T <= (th ? 5 : 3); T++) for (int sl = 0; sl < (s == d ? 1 : T); sl++) for (int du : {0, 2}) { std::vector<int> id; for (int i = 0; i < R * C; i++) id.push_back(i); go(c, "tdma " + std::to_string(R) + " " + std::to_string(C) + " " + std::to_string(T) + ";" + J(id) + ";" + (s == d ? "" : std::to_string(s) + " " + std::to_string(d) + " " + std::to_string(sl)) + ";" + std::to_string(s) + " " + std::to_string(d) + " " + std::to_string(du)); }
  std::vector<std::pair<int, int>> e2{{0, 0}, {0, 1}, {1, 0}}, e3{{0, 0}, {0, 1}, {1, 2}, {2, 1}, {2, 0}};
  c.note("replay: every list of 1..2 packets on three cores of a 2x3 grid, all slots, durations {0,1,3}, dependencies in both directions"); for (int n = 1; n <= 2; n++) lists(c, 2, 3, n, {0, 4, 2}, e3, {0, 1, 3}, th ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2}, true);
  c.note("replay: every list of 3 packets between two cores, all slots of 1..3, dependencies in both directions"); lists(c, 1, 2, 3, {0, 1}, e2, th ? std::vector<int>{0, 1, 3} : std::vector<int>{0, 1}, {1, 2, 3}, true);
  c.note("replay: every list of 4 packets between two cores, 1..2 slots"); lists(c, 2, 1, 4, {0, 1}, {{0, 0}, {0, 1}}, {0, 1}, {1, 2}, false); if (th) lists(c, 2, 2, 4, {0, 3}, e2, {0, 2}, {2, 3}, false);
  c.note("replay: two tasks on one core"); lists(c, 2, 2, 3, {1, 1, 2}, {{0, 1}, {0, 2}, {1, 2}}, {0, 2}, {1, 2}, false);
}
void one(Ctx& c, const std::string& key) { c.mark(key); dispatch(c, key); }
}
kv::Module kv::module{"P16", run, one, "every trace of every consistent single-phase graph of bounded families for several packet sizes and iteration counts; every packet list of up to 4 packets with every dependency relation, slot table and grid within the bounds is replayed", {"a packet of a channel stands for all earlier packets of the channel (first-in first-out delivery)", "slot tables give a slot to every pair of cores that communicates; dependencies are acyclic", "execution times of at least 1 so that computations can be told from transfers"}};
