#include "kiter_api.hpp"
#include "stdfam.hpp"
#include <algorithms/normalization.h>
using namespace kv;
namespace {
ll fine(const Chan& c) { ll f = 0; for (int x : c.p) f = std::gcd(f, (ll)x); for (int x : c.c) f = std::gcd(f, (ll)x); return f; }
// two markings of the same net allow the same firing sequences: explore every reachable count vector of the original up to `lap` iterations and compare the enabled actors
struct Norm { std::vector<std::vector<ll>> p, c; std::vector<ll> m; };
void walk(Ctx& c, const G& g, const std::vector<ll>& r, const Norm& x, int lap) {
  size_t n = g.A.size(); std::vector<ll> lim(n), cnt(n, 0); for (size_t a = 0; a < n; a++) lim[a] = r[a] * phases(g, a) * lap; std::set<std::vector<ll>> seen{cnt}; std::vector<std::vector<ll>> todo{cnt}; ll st = 0, tr = 0;
  auto tok = [&](size_t i, const std::vector<ll>& k, bool norm) { auto& ch = g.C[i]; ll s = norm ? x.m[i] : ch.m; auto add = [&](ll kk, size_t ph, bool prod) { ll q = 0; for (ll j = 0; j < kk; j++) q += prod ? (norm ? x.p[i][j % ph] : ch.p[j % ph]) : (norm ? x.c[i][j % ph] : ch.c[j % ph]); return q; }; return s + add(k[ch.s], ch.p.size(), true) - add(k[ch.t], ch.c.size(), false); };
  while (todo.size()) { auto k = todo.back(); todo.pop_back(); st++; for (size_t a = 0; a < n; a++) { if (k[a] >= lim[a]) continue; bool en = true, en2 = true; for (size_t i = 0; i < g.C.size(); i++) if (g.C[i].t == (int)a) { size_t ph = g.C[i].c.size(); if (tok(i, k, false) < g.C[i].c[k[a] % ph]) en = false; if (tok(i, k, true) < x.c[i][k[a] % ph]) en2 = false; }
      tr++; if (en != en2) { std::string s; for (ll v : k) s += std::to_string(v) + ","; c.fail("firing", "after firings (" + s + ") actor " + std::to_string(a) + " is " + (en ? "enabled" : "blocked") + " in the graph and " + (en2 ? "enabled" : "blocked") + " in its normalised form"); return; }
      if (en) { auto k2 = k; k2[a]++; if (seen.insert(k2).second) todo.push_back(k2); } } if (st > 20000) break; }
  c.states(st); c.transitions(tr);
}
bool inspect(Ctx& c, const G& g, const std::vector<ll>& r, models::Dataflow* d, const std::string& how, Norm* out) {
  int ncomp; wcc(g, &ncomp); size_t before = 0; (void)before; bool bad = false; auto fail = [&](const std::string& k, const std::string& m) { c.fail(k, m + how); bad = true; }; Norm x; ll all = 0;
  for (size_t a = 0; a < g.A.size(); a++) if (d->getZi(d->getVertexByName(aname(a))) <= 0) fail("weight", "weight of actor " + std::to_string(a) + " is not positive");
  for (size_t i = 0; i < g.C.size(); i++) { auto& ch = g.C[i]; Edge e = d->getEdgeByName(cname(i)); auto al = d->getAlpha(e); Q A((i128)al.numerator(), (i128)al.denominator()); if (A <= Q(0)) { fail("factor", "factor of channel " + std::to_string(i) + " is not positive"); return false; }
    Q zs = A * Q(sum(ch.p)), zt = A * Q(sum(ch.c)); if (zs != Q(d->getZi(d->getVertexByName(aname(ch.s)))) || zt != Q(d->getZi(d->getVertexByName(aname(ch.t))))) fail("balance", "channel " + std::to_string(i) + " moves " + zs.str() + "/" + zt.str() + " normalised tokens per cycle, weights are " + std::to_string(d->getZi(d->getVertexByName(aname(ch.s)))) + "/" + std::to_string(d->getZi(d->getVertexByName(aname(ch.t)))));
    std::vector<ll> p, cc; for (size_t k = 0; k < ch.p.size(); k++) { ll v = d->getNormIn(e, k + 1); if (Q(v) != A * Q(ch.p[k])) fail("rate", "normalised production of channel " + std::to_string(i)); p.push_back(v); all = std::gcd(all, v); } for (size_t k = 0; k < ch.c.size(); k++) { ll v = d->getNormOut(e, k + 1); if (Q(v) != A * Q(ch.c[k])) fail("rate", "normalised consumption of channel " + std::to_string(i)); cc.push_back(v); all = std::gcd(all, v); }
    ll f = fine(ch), m = d->getNormMop(e); if (Q(m) != A * Q(ch.m / f * f)) fail("marking", "normalised marking of channel " + std::to_string(i) + " is " + std::to_string(m) + " for " + std::to_string(ch.m) + " tokens and factor " + A.str()); x.p.push_back(p); x.c.push_back(cc); x.m.push_back(m); c.validated(); }
  if (ncomp == 1 && g.C.size() && all != 1) fail("minimal", "all normalised rates are multiples of " + std::to_string(all)); if (out) *out = x; return !bad;
}
void check(Ctx& c, const G& g, bool light) {
  auto r = repetition(g); c.evals(); models::Dataflow* d = build(g); bool res = false; Run x = guarded([&]() { res = algorithms::normalize(d); });
  if (r.empty()) { c.outcome("inconsistent"); c.count("inconsistent"); if (x.ok() && res) c.fail("inconsistent-accepted", "inconsistent graph was normalised"); delete d; return; }
  c.count("consistent"); if (!x.ok()) { c.fail("error", "normalisation failed: " + x.err); delete d; return; } if (!res || !d->is_normalized()) { c.fail("refused", "consistent graph not normalised"); delete d; return; }
  Norm nm; bool okk = false; x = guarded([&]() { okk = inspect(c, g, r, d, "", &nm); }); if (!x.ok()) c.fail("error", "reading normalised values failed: " + x.err);
  std::string o; for (size_t a = 0; a < g.A.size(); a++) o += std::to_string(d->getZi(d->getVertexByName(aname(a)))) + ","; c.outcome(o);
  if (okk) walk(c, g, r, nm, 2);
  // original values untouched, analyses indifferent
  for (size_t i = 0; i < g.C.size(); i++) { Edge e = d->getEdgeByName(cname(i)); for (size_t k = 0; k < g.C[i].p.size(); k++) if (d->getEdgeInPhase(e, k + 1) != g.C[i].p[k]) c.fail("changed", "rate changed"); for (size_t k = 0; k < g.C[i].c.size(); k++) if (d->getEdgeOutPhase(e, k + 1) != g.C[i].c[k]) c.fail("changed", "rate changed"); if (d->getPreload(e) != g.C[i].m) c.fail("changed", "tokens changed"); }
  if (!light) { models::Dataflow* e = build(g); Run a = guarded([&]() { (void)computeRepetitionVector(d); }), b = guarded([&]() { (void)computeRepetitionVector(e); }); if (a.ok() != b.ok()) c.fail("analysis", "repetition vector fails after normalisation only"); else for (size_t i = 0; i < g.A.size(); i++) if (d->getNi(d->getVertexByName(aname(i))) != e->getNi(e->getVertexByName(aname(i)))) { c.fail("analysis", "repetition vector differs after normalisation"); break; }
    for (const char* n : {"KPeriodicThroughput", "1PeriodicThroughput", "SPeriodicThroughput"}) { auto strip = [](const std::string& s) { std::string r; std::stringstream st(s); std::string l; while (std::getline(st, l)) if (l.find("Time") == std::string::npos && l.find("hroughput is") != std::string::npos) r += l + "\n"; return r; }; Run p = algo(n, d), q = algo(n, e); c.validated(); if (p.ok() != q.ok() || strip(p.out) != strip(q.out)) c.fail("analysis", std::string(n) + " differs after normalisation: " + strip(p.out) + " / " + strip(q.out)); } delete e; }
  delete d;
  // history: normalised with other rates and tokens, edited back, normalised again
  if (g.C.size()) { G h = g; for (int& v : h.C[0].p) v *= 2; for (int& v : h.C[0].c) v *= 2; for (auto& ch : h.C) ch.m = ch.m * 2 + 1; models::Dataflow* e = build(h); bool r1 = false, r2 = false; Run y = guarded([&]() { r1 = algorithms::normalize(e); for (size_t i = 0; i < h.C.size(); i++) (void)e->getNormMop(e->getEdgeByName(cname(i))); e->reset_computation(); for (size_t i = 0; i < g.C.size(); i++) { Edge k = e->getEdgeByName(cname(i)); e->setEdgeInPhases(k, std::vector<TOKEN_UNIT>(g.C[i].p.begin(), g.C[i].p.end())); e->setEdgeOutPhases(k, std::vector<TOKEN_UNIT>(g.C[i].c.begin(), g.C[i].c.end())); e->setPreload(k, g.C[i].m); } r2 = algorithms::normalize(e); });
    if (!y.ok() || !r1 || !r2) c.fail("edited", "normalisation after edits fails " + y.err); else { Run z = guarded([&]() { inspect(c, g, r, e, " (after edits)", nullptr); }); if (!z.ok()) c.fail("edited", "reading normalised values failed after edits: " + z.err); } delete e; }
}
void run(Ctx& c) {
  auto ok = [](const G& g) { for (auto& ch : g.C) if (sum(ch.p) == 0 || sum(ch.c) == 0) return false; return true; }; int cnt = 0;
  auto go = [&](Family f, bool incons) { f.consistentOnly = !incons; c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>&) { if (!ok(g)) return; cnt++; each(c, g, [&](const G& x) { check(c, x, !c.thorough && (cnt % 8)); }); }); };
  Alpha one6{{1, vecs(1, 1, 6)}}, d{{1, V({{1}})}, {2, V({{1, 2}})}, {3, V({{1, 1, 2}})}}, ph{{1, vecs(1, 1, 3)}, {2, V({{1, 0}, {0, 2}, {1, 2}, {2, 2}, {4, 2}})}, {3, V({{1, 0, 1}, {2, 4, 0}, {3, 3, 3}})}};
  int t = c.thorough; large_families(1, [&](const Family& f) { go(f, false); });
  go(family("1 actor, 0..2 self-loops, rates 1..6", 1, topologies(1, 0, 2, true, 2, true, true), all_phase(1, {1}), one6, d, tokK(3), 24), true);
  go(family("1 actor, 0..2 self-loops, phases 2..3", 1, topologies(1, 0, 2, true, 2, true, true), all_phase(1, {2, 3}), ph, d, tokK(3), 24), true);
  go(family("2 actors, 0..2 channels incl. self-loops, disconnected too, rates 1..6", 2, topologies(2, 0, 2, true, 2, false, false), all_phase(2, {1}), one6, d, tokK(t ? 7 : 3), 40), true);
  go(family("2 actors, 1..2 channels, phases 1..3", 2, topologies(2, 1, 2, true, 2, true, false), all_phase(2, {1, 2, 3}), ph, d, tokK(t ? 6 : 2), 40), true);
  go(family("3 actors, 0..3 channels, disconnected too, rates 1..3", 3, topologies(3, 0, 3, true, 1, true, false), all_phase(3, {1}), Alpha{{1, vecs(1, 1, 3)}}, d, tokK(1), 40), true);
  go(family("3 actors, 2..3 channels, rates 1..4, 6", 3, topologies(3, 2, t ? 3 : 2, false, 1, false, true), all_phase(3, {1}), Alpha{{1, V({{1}, {2}, {3}, {4}, {6}})}}, d, tokK(t ? 3 : 2), 60), false);
  go(family("3 actors, 2..3 channels, phases 1..2", 3, topologies(3, 2, 3, false, 1, true, true), all_phase(3, {1, 2}), Alpha{{1, V({{1}, {2}, {3}})}, {2, V({{1, 0}, {0, 2}, {4, 2}})}}, d, tokK(1), 40), false);
  go(family("4 actors, 2..3 channels, disconnected too, rates 1..3", 4, topologies(4, 2, 3, false, 1, true, false), all_phase(4, {1}), Alpha{{1, vecs(1, 1, 3)}}, d, tokK(t ? 2 : 1), 40), false);
}
void oneCase(Ctx& c, const std::string& key) { c.mark(key); check(c, G::parse(key), false); }
}
kv::Module kv::module{"P19", run, oneCase, "every graph of the listed families, consistent or not, is normalised: weights, factors, normalised rates and markings against exact rationals; every reachable firing-count vector of up to two iterations is compared between graph and normalised form; again after edits", {"channels with a zero total rate excluded (no weight exists)", "minimality claimed for connected graphs"}};
