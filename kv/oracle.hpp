// Reference models (exact, independent of the code under test).
#pragma once
#include "graph.hpp"
#include <deque>
#include <unordered_map>
#include <cmath>
namespace kv {
const int INF_THR = -1; // throughput value meaning "unbounded"

inline ll fdiv(ll a, ll b) { ll q = a / b, r = a % b; return (r != 0 && ((r < 0) != (b < 0))) ? q - 1 : q; }
// cumulated tokens after x firings of a cyclic rate vector; x may be negative (periodic extension)
inline ll cum(const std::vector<int>& v, ll x) { ll f = v.size(), q = fdiv(x, f), r = x - q * f, s = q * sum(v); for (ll i = 0; i < r; i++) s += v[i]; return s; }
// smallest x with cum(v,x) >= need
inline ll firings_for(const std::vector<int>& v, ll need) {
  ll S = sum(v), f = v.size(), q = fdiv(need, S); ll x = (q - 1) * f; // cum = (q-1)*S < need
  while (cum(v, x) < need) x++;
  while (cum(v, x - 1) >= need) x--;
  return x;
}

// ---------- exact cycle-ratio solver on small constraint graphs -------------
struct CEdge { int u, v; Q d, h; };           // start(v) >= start(u) + d - omega*h
struct CRes { bool feasible; Q omega; std::vector<int> cycle; };
// Minimal omega >= 0 satisfying every circuit, exact. feasible=false when no omega works.
inline CRes min_omega(int n, const std::vector<CEdge>& E) {
  Q lam(0); CRes res{true, lam, {}};
  for (int it = 0; it < 10000; it++) {
    std::vector<Q> w(E.size()); for (size_t i = 0; i < E.size(); i++) w[i] = E[i].d - lam * E[i].h;
    std::vector<Q> dist(n, Q(0)); std::vector<int> pre(n, -1); int x = -1;
    for (int k = 0; k <= n; k++) { x = -1; for (size_t i = 0; i < E.size(); i++) { Q c = dist[E[i].u] + w[i]; if (dist[E[i].v] < c) { dist[E[i].v] = c; pre[E[i].v] = i; x = E[i].v; } } if (x < 0) break; }
    if (x < 0) { res.omega = lam; return res; }
    for (int k = 0; k < n; k++) x = E[pre[x]].u;
    std::vector<int> cyc; int y = x; do { cyc.push_back(pre[y]); y = E[pre[y]].u; } while (y != x);
    Q sd(0), sh(0); for (int i : cyc) { sd = sd + E[i].d; sh = sh + E[i].h; }
    std::reverse(cyc.begin(), cyc.end()); res.cycle = cyc;
    if (sh <= Q(0)) { res.feasible = false; return res; }
    Q nl = sd / sh; if (nl <= lam) { fprintf(stderr, "oracle: no progress\n"); abort(); }
    lam = nl;
  }
  abort();
}
// integer version with common denominators removed (much faster); falls back to the exact one's semantics
struct IEdge { int u, v; ll d, h; };
// returns: 0 feasible, 1 infeasible; omega = num/den. All d>=0.
inline bool min_omega_int(int n, const std::vector<IEdge>& E, ll& num, ll& den) {
  num = 0; den = 1; std::vector<i128> dist(n); std::vector<int> pre(n);
  for (;;) {
    std::fill(dist.begin(), dist.end(), 0); std::fill(pre.begin(), pre.end(), -1); int x = -1;
    for (int k = 0; k <= n; k++) { x = -1; for (size_t i = 0; i < E.size(); i++) { i128 c = dist[E[i].u] + (i128)den * E[i].d - (i128)num * E[i].h; if (dist[E[i].v] < c) { dist[E[i].v] = c; pre[E[i].v] = i; x = E[i].v; } } if (x < 0) return true; }
    for (int k = 0; k < n; k++) x = E[pre[x]].u;
    ll sd = 0, sh = 0; int y = x; do { sd += E[pre[y]].d; sh += E[pre[y]].h; y = E[pre[y]].u; } while (y != x);
    if (sh <= 0) return false;
    ll k = std::gcd(sd, sh); num = sd / k; den = sh / k;
  }
}

// Exact best period of a class of periodic schedules: firing n of actor a starts at s[a][n mod g_a] + (n div g_a) * g_a*omega/N_a.
// (g_a = N_a: every schedule with the iteration period; g_a = phases: 1-periodic; g_a = 1: strictly periodic.)
// r = repetition vector in phase cycles. Returns false when no such schedule exists. omega in exact rational of time ticks (without tden).
inline bool class_period(const G& g, const std::vector<ll>& r, const std::vector<ll>& grp, Q& omega, int* nodes = nullptr, int* edges = nullptr) {
  int n = g.A.size(); std::vector<int> base(n + 1, 0); std::vector<ll> N(n);
  for (int a = 0; a < n; a++) { base[a + 1] = base[a] + (int)grp[a]; N[a] = r[a] * phases(g, a); }
  ll L = 1; // all heights are multiples of 1/L : height of firing n = (n div g)*g/N
  for (int a = 0; a < n; a++) { ll k = std::gcd(grp[a], N[a]); ll dd = N[a] / k; L = L / std::gcd(L, dd) * dd; }
  // slots of actor a may pair a start-slot with several phases when g is not a multiple of the phase count
  std::map<std::pair<int,int>, std::map<ll, ll>> best; // (u,v) -> d -> minimal height (scaled by L)
  auto H = [&](int a, ll x) { return fdiv(x, grp[a]) * grp[a] * L / N[a]; };
  auto H2 = [&](int a, ll x) { ll q = fdiv(x, grp[a]); return q * (grp[a] * L / N[a]); };
  auto slot = [&](int a, ll x) { return base[a] + (int)(x - fdiv(x, grp[a]) * grp[a]); };
  (void)H;
  auto add = [&](int s, ll fs, int t, ll ft, ll d) { auto& m = best[{slot(s, fs), slot(t, ft)}]; ll h = H2(t, ft) - H2(s, fs); auto it = m.find(d); if (it == m.end() || it->second > h) m[d] = h; };
  for (int a = 0; a < n; a++) { // sequential firings (or ordered starts when unlimited)
    ll P = std::max<ll>(grp[a], 1); ll per = P / std::gcd<ll>(P, phases(g, a)) * phases(g, a);
    for (ll x = 0; x < per; x++) add(a, x, a, x + 1, g.A[a].reent > 0 ? g.A[a].dur[((x % phases(g, a)) + phases(g, a)) % phases(g, a)] : 0);
  }
  for (auto& c : g.C) {
    // hyperperiod in firings of target: iterations K such that K*N_t multiple of g_t and K*N_s multiple of g_s
    ll K1 = grp[c.t] / std::gcd(grp[c.t], N[c.t]), K2 = grp[c.s] / std::gcd(grp[c.s], N[c.s]); ll K = K1 / std::gcd(K1, K2) * K2;
    for (ll m = 0; m < K * N[c.t]; m++) {
      if (c.c[m % c.c.size()] == 0) continue; // consumes nothing: no new requirement
      ll x = firings_for(c.p, cum(c.c, m + 1) - c.m) - 1; int f = phases(g, c.s);
      add(c.s, x, c.t, m, g.A[c.s].dur[(x % f + f) % f]);
    }
  }
  std::vector<IEdge> E; for (auto& b : best) for (auto& dh : b.second) E.push_back({b.first.first, b.first.second, dh.first, dh.second});
  if (nodes) *nodes += base[n]; if (edges) *edges += (int)E.size();
  ll num, den; if (!min_omega_int(base[n], E, num, den)) return false;
  omega = Q(i128(num) * L, i128(den)); // heights were scaled by L
  return true;
}
// self-dependency of a firing on itself within the same iteration (deadlock) is a circuit of height 0, duration maybe 0
struct Thr { bool live; bool unbounded; Q period; }; // period per iteration
// Exact maximal throughput through the dependency graph of all firings of one iteration.
inline Thr hsdf_throughput(const G& g, const std::vector<ll>& r) {
  int n = g.A.size(); std::vector<int> base(n + 1, 0); std::vector<ll> N(n);
  for (int a = 0; a < n; a++) { N[a] = r[a] * phases(g, a); base[a + 1] = base[a] + (int)N[a]; }
  std::vector<IEdge> E;
  auto add = [&](int s, ll fs, int t, ll ft, ll d) { ll q = fdiv(fs, N[s]); E.push_back({base[s] + (int)(fs - q * N[s]), base[t] + (int)ft, d, -q}); };
  for (int a = 0; a < n; a++) if (g.A[a].reent > 0) for (ll x = 0; x < N[a]; x++) { ll f = x - g.A[a].reent; int ph = ((f % phases(g, a)) + phases(g, a)) % phases(g, a); add(a, f, a, x, g.A[a].dur[ph]); }
  for (auto& c : g.C) for (ll m = 0; m < N[c.t]; m++) { if (c.c[m % c.c.size()] == 0) continue; ll x = firings_for(c.p, cum(c.c, m + 1) - c.m) - 1; int f = phases(g, c.s); add(c.s, x, c.t, m, g.A[c.s].dur[(x % f + f) % f]); }
  // deadlock: circuit with no delay
  int V = base[n]; std::vector<int> indeg(V, 0); std::vector<std::vector<int>> out(V);
  for (auto& e : E) if (e.h <= 0) { out[e.u].push_back(e.v); indeg[e.v]++; }
  std::vector<int> st; int done = 0; for (int i = 0; i < V; i++) if (!indeg[i]) st.push_back(i);
  while (st.size()) { int v = st.back(); st.pop_back(); done++; for (int w : out[v]) if (!--indeg[w]) st.push_back(w); }
  if (done < V) return {false, false, Q(0)};
  ll num, den; if (!min_omega_int(V, E, num, den)) return {false, false, Q(0)};
  if (num == 0) return {true, true, Q(0)};
  return {true, false, Q((i128)num, (i128)den)};
}
// ---------- explicit-state self-timed execution (token game) ----------------
struct STStats { ll states = 0, transitions = 0; };
// Self-timed execution of the sub-graph made of the actors in `in` and channels among them. Firings of actors with
// reent==1 are sequential; reent==0: unlimited. cap[i]>=0 : capacity of channel i (space reserved at start, freed at end).
// Returns iterations per tick (exact), 0 if deadlock.
inline Q token_game(const G& g, const std::vector<ll>& r, const std::vector<char>& in, STStats& S, const std::vector<int>* cap = nullptr, ll maxstates = 2000000) {
  int n = g.A.size(), nc = g.C.size(); std::vector<int> tok(nc), sp(nc, 0), ph(n, 0); std::vector<std::deque<std::pair<int,int>>> run(n);
  for (int i = 0; i < nc; i++) { tok[i] = g.C[i].m; if (cap) sp[i] = (*cap)[i] - g.C[i].m; }
  int ref = -1; for (int a = 0; a < n; a++) if (in[a] && ref < 0) ref = a;
  ll fired = 0, now = 0; std::map<std::vector<int>, std::pair<ll, ll>> seen;
  auto inC = [&](int i) { return in[g.C[i].s] && in[g.C[i].t]; };
  for (;;) {
    bool prog = true; ll guard = 0;
    while (prog) { prog = false;
      if (++guard > 100000) return Q(-2); // zero-time livelock
      for (int a = 0; a < n; a++) if (in[a]) while (run[a].size() && run[a].front().first == 0) { int p = run[a].front().second; run[a].pop_front(); for (int i = 0; i < nc; i++) if (inC(i)) { if (g.C[i].s == a) tok[i] += g.C[i].p[p]; if (cap && g.C[i].t == a) sp[i] += g.C[i].c[p]; } if (a == ref) fired++; prog = true; S.transitions++; }
      for (int a = 0; a < n; a++) if (in[a]) for (;;) {
        if (g.A[a].reent > 0 && (int)run[a].size() >= g.A[a].reent) break;
        bool ok = true; for (int i = 0; i < nc && ok; i++) if (inC(i)) { if (g.C[i].t == a && tok[i] < g.C[i].c[ph[a]]) ok = false; if (cap && g.C[i].s == a && sp[i] < g.C[i].p[ph[a]]) ok = false; }
        if (!ok) break;
        for (int i = 0; i < nc; i++) if (inC(i)) { if (g.C[i].t == a) tok[i] -= g.C[i].c[ph[a]]; if (cap && g.C[i].s == a) sp[i] -= g.C[i].p[ph[a]]; }
        run[a].push_back({g.A[a].dur[ph[a]], ph[a]}); ph[a] = (ph[a] + 1) % phases(g, a); prog = true; S.transitions++;
        if (run[a].size() > 10000) return Q(-2);
      } }
    std::vector<int> key(tok); for (int a = 0; a < n; a++) { key.push_back(ph[a]); key.push_back(run[a].size()); for (auto& x : run[a]) { key.push_back(x.first); } }
    auto it = seen.find(key); S.states++;
    if (it != seen.end()) { ll df = fired - it->second.first, dt = now - it->second.second; if (dt == 0) return Q(-2); return Q((i128)df, (i128)dt) / Q(r[ref] * phases(g, ref)); }
    seen[key] = {fired, now}; if ((ll)seen.size() > maxstates) return Q(-3);
    int step = INT32_MAX; for (int a = 0; a < n; a++) if (in[a]) for (auto& x : run[a]) step = std::min(step, x.first);
    if (step == INT32_MAX) return Q(0);
    for (int a = 0; a < n; a++) if (in[a]) for (auto& x : run[a]) x.first -= step;
    now += step;
  }
}
// minimum over strongly connected components
inline Q selftimed(const G& g, const std::vector<ll>& r, STStats& S) {
  auto c = scc(g); std::set<int> ids(c.begin(), c.end()); Q best(-1); bool first = true;
  for (int id : ids) { std::vector<char> in(g.A.size()); for (size_t a = 0; a < g.A.size(); a++) in[a] = c[a] == id; Q t = token_game(g, r, in, S); if (t < Q(0)) return t; if (first || t < best) { best = t; first = false; } }
  return best;
}
// reachability of one complete iteration (liveness), durations ignored
inline bool live(const G& g, const std::vector<ll>& r) {
  int n = g.A.size(); std::vector<ll> left(n), f(n, 0), tok; for (int a = 0; a < n; a++) left[a] = r[a] * phases(g, a); for (auto& c : g.C) tok.push_back(c.m);
  for (bool p = true; p;) { p = false; for (int a = 0; a < n; a++) while (f[a] < left[a]) { int ph = f[a] % phases(g, a); bool ok = true; for (size_t i = 0; i < g.C.size(); i++) if (g.C[i].t == a && tok[i] < g.C[i].c[ph]) ok = false; if (!ok) break; for (size_t i = 0; i < g.C.size(); i++) { if (g.C[i].t == a) tok[i] -= g.C[i].c[ph]; if (g.C[i].s == a) tok[i] += g.C[i].p[ph]; } f[a]++; p = true; } }
  for (int a = 0; a < n; a++) if (f[a] < left[a]) return false; return true;
}
// ---------- replay of a (quasi-)periodic schedule on the token machine ------
struct TaskSched { std::vector<long double> init; long double period; std::vector<long double> starts; };
// returns "" when valid up to the horizon; checks >= `iters` iterations after the last initial start
inline std::string replay_schedule(const G& g, const std::vector<ll>& r, const std::vector<TaskSched>& T, long double omega, STStats& S, int itersMin = 2) {
  int n = g.A.size(); long double maxs = 0; int L = 0;
  for (int a = 0; a < n; a++) { if (T[a].starts.empty()) return "actor without periodic starts"; if (!(T[a].period > 0) || !std::isfinite((double)T[a].period)) return "non-positive or infinite task period"; for (auto x : T[a].init) maxs = std::max(maxs, x); for (auto x : T[a].starts) { if (!std::isfinite((double)x)) return "non-finite start"; maxs = std::max(maxs, x); } }
  for (int l = 1; l <= 256 && !L; l++) { bool ok = true; for (int a = 0; a < n && ok; a++) { long double q = l * omega / T[a].period; if (std::fabs((double)(q - std::round((double)q))) > 1e-6) ok = false; } if (ok) L = l; }
  if (!L) return "task periods are not commensurable with the graph period";
  // rate: number of starts per period over period must equal N_a/omega
  for (int a = 0; a < n; a++) { long double want = (long double)(r[a] * phases(g, a)) / omega, got = T[a].starts.size() / T[a].period; if (std::fabs((double)((want - got) / want)) > 1e-6) return "actor " + std::to_string(a) + " does not fire at its balanced rate"; }
  long double H = maxs + (L * 2 + itersMin) * omega; long double eps = 1e-7L * std::max((long double)1, omega);
  struct Ev { long double t; int kind; int a; ll k; }; std::vector<Ev> ev; // kind 0 end, 1 start
  for (int a = 0; a < n; a++) { ll k = 0; std::vector<long double> f; for (auto x : T[a].init) f.push_back(x);
    for (ll q = 0;; q++) { bool any = false; for (auto x : T[a].starts) { long double t = x + q * T[a].period; if (t <= H) { f.push_back(t); any = true; } } if (!any) break; if (f.size() > 200000) return "schedule too long"; }
    for (size_t i = 0; i < f.size(); i++, k++) { if (f[i] < -eps) return "negative start"; if (i && f[i] < f[i - 1] - eps) return "firings of actor " + std::to_string(a) + " out of order"; int p = k % phases(g, a); long double d = (long double)g.A[a].dur[p] / g.tden; if (i && g.A[a].reent == 1) { int pp = (k - 1) % phases(g, a); if (f[i] < f[i - 1] + (long double)g.A[a].dur[pp] / g.tden - eps) return "actor " + std::to_string(a) + " overlaps itself at firing " + std::to_string(k); } ev.push_back({f[i], 1, a, k}); ev.push_back({f[i] + d, 0, a, k}); } }
  std::sort(ev.begin(), ev.end(), [](const Ev& x, const Ev& y) { return x.t < y.t; });
  std::vector<ll> tok; for (auto& c : g.C) tok.push_back(c.m);
  size_t i = 0; std::vector<Ev> group;
  while (i < ev.size() && ev[i].t <= H) { // events within eps are simultaneous: ends first, then starts as far as possible (zero-length firings may feed others)
    size_t j = i; while (j < ev.size() && ev[j].t <= ev[i].t + eps) j++;
    std::vector<Ev> ends, starts; for (size_t k = i; k < j; k++) (ev[k].kind ? starts : ends).push_back(ev[k]);
    auto key = [](const Ev& x, const Ev& y) { return x.k < y.k; }; std::stable_sort(starts.begin(), starts.end(), key); std::stable_sort(ends.begin(), ends.end(), key);
    std::set<std::pair<int, ll>> begun, pend; for (auto& e : starts) pend.insert({e.a, e.k});
    bool prog = true; std::vector<char> ed(ends.size(), 0), sd(starts.size(), 0); size_t left = ends.size() + starts.size();
    while (prog && left) { prog = false;
      for (size_t k = 0; k < ends.size(); k++) if (!ed[k] && !pend.count({ends[k].a, ends[k].k})) { ed[k] = 1; left--; prog = true; S.transitions++; int p = ends[k].k % phases(g, ends[k].a); for (size_t c = 0; c < g.C.size(); c++) if (g.C[c].s == ends[k].a) tok[c] += g.C[c].p[p]; }
      for (size_t k = 0; k < starts.size(); k++) if (!sd[k]) { int a = starts[k].a, p = starts[k].k % phases(g, a); bool ok = true; for (size_t c = 0; c < g.C.size(); c++) if (g.C[c].t == a && tok[c] < g.C[c].c[p]) ok = false; if (!ok) continue; for (size_t c = 0; c < g.C.size(); c++) if (g.C[c].t == a) tok[c] -= g.C[c].c[p]; pend.erase({a, starts[k].k}); sd[k] = 1; left--; prog = true; S.transitions++; } }
    S.states++;
    for (size_t k = 0; k < starts.size(); k++) if (!sd[k]) return "firing " + std::to_string(starts[k].k) + " of actor " + std::to_string(starts[k].a) + " starts at " + std::to_string((double)starts[k].t) + " before its tokens exist";
    i = j; }
  return "";
}
// the graph once every actor has left its initial phases (phases rotated to where the actors stand); false when some actor never does
inline bool settle(const G& g, const std::vector<ll>& r, G& z, ll* st = nullptr) { size_t n = g.A.size(); std::vector<ll> k(n, 0), m, cap(n); ll slack = 4; for (auto& ch : g.C) { m.push_back(ch.m); for (int x : ch.ic) slack += x; } for (size_t a = 0; a < n; a++) cap[a] = (ll)g.A[a].idur.size() + slack * r[a] * (ll)g.A[a].dur.size();
  auto rate = [](const std::vector<int>& i, const std::vector<int>& p, ll x) { return (ll)(x < (ll)i.size() ? i[x] : p[(x - i.size()) % p.size()]); }; bool go = true, out = false;
  while (go) { out = true; for (size_t a = 0; a < n; a++) if (k[a] < (ll)g.A[a].idur.size()) out = false; if (out) break; go = false; for (size_t a = 0; a < n; a++) { if (k[a] >= cap[a]) continue; bool en = true; for (size_t i = 0; i < g.C.size() && en; i++) if (g.C[i].t == (int)a && m[i] < rate(g.C[i].ic, g.C[i].c, k[a])) en = false; if (!en) continue; for (size_t i = 0; i < g.C.size(); i++) { if (g.C[i].t == (int)a) m[i] -= rate(g.C[i].ic, g.C[i].c, k[a]); if (g.C[i].s == (int)a) m[i] += rate(g.C[i].ip, g.C[i].p, k[a]); } k[a]++; if (st) ++*st; go = true; } }
  if (!out) return false; z = g; auto rot = [&](std::vector<int>& v, int a) { ll s = (k[a] - (ll)g.A[a].idur.size()) % (ll)v.size(); std::rotate(v.begin(), v.begin() + s, v.end()); }; for (size_t a = 0; a < n; a++) { rot(z.A[a].dur, a); z.A[a].idur.clear(); } for (size_t i = 0; i < z.C.size(); i++) { auto& ch = z.C[i]; rot(ch.p, ch.s); rot(ch.c, ch.t); ch.ip.clear(); ch.ic.clear(); ch.m = (int)m[i]; } return true; }
} // namespace kv
