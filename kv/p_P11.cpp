// Buffer sizing for a target period against exact throughput of the bounded graph and the complete enumeration of storage distributions.
#include "kiter_api.hpp"
#include "stdfam.hpp"
#include "bounded.hpp"
#include <algorithms/buffersizing/periodic.h>
#include <algorithms/buffersizing/periodic_fixed.h>
#include <unistd.h>
using namespace kv;
extern "C" int backtrace(void**, int) { return 0; }
namespace {
struct Muffle { int o; Muffle() { fflush(stdout); o = dup(1); FILE* f = fopen("/dev/null", "w"); dup2(fileno(f), 1); fclose(f); } ~Muffle() { fflush(stdout); dup2(o, 1); ::close(o); } }; // the solver talks on descriptor 1
Run mute(const std::string& a, models::Dataflow* d, parameters_list_t p) { Muffle m; return algo(a, d, p); }
// every distribution of weighted total T above lo; returns true as soon as ok(caps)
template <class F> bool anyDist(const std::vector<int>& lo, const std::vector<int>& w, ll T, F ok) { ll base = 0; for (size_t i = 0; i < lo.size(); i++) base += (ll)lo[i] * w[i]; if (T < base) return false; std::vector<int> cap(lo.size()); bool found = false;
  std::function<void(size_t, ll)> rec = [&](size_t i, ll left) { if (found) return; if (i == lo.size()) { if (left == 0 && ok(cap)) found = true; return; } if (i + 1 == lo.size()) { if (left % w[i]) return; cap[i] = lo[i] + left / w[i]; if (ok(cap)) found = true; return; } for (int k = 0; (ll)k * w[i] <= left; k++) { cap[i] = lo[i] + k; rec(i + 1, left - (ll)k * w[i]); } }; rec(0, T - base); return found; }
template <class F> ll cheapest(const std::vector<int>& lo, const std::vector<int>& w, ll maxT, F ok) { ll base = 0; for (size_t i = 0; i < lo.size(); i++) base += (ll)lo[i] * w[i]; for (ll T = base; T <= maxT; T++) if (anyDist(lo, w, T, ok)) return T; return -1; }
std::string S(const Q& q) { return q.str(); }
models::Dataflow* make(const G& g, const std::vector<int>& w) { auto* d = build(g); for (size_t i = 0; i < w.size(); i++) d->setTokenSize(d->getEdgeByName(cname(i)), w[i]); return d; }
struct Sz { bool ok, valid; ll total; std::vector<int> cap; std::string err; bool integral = true; };
Sz size_(models::Dataflow* d, const G& g, bool strict, bool ilp, TIME_UNIT p) { BufferSizingResult R; Run y = guarded([&]() { Muffle m; R = strict ? algorithms::speriodic_memory_sizing_csdf(d, p, ilp, false) : algorithms::periodic_memory_sizing_csdf(d, p, ilp, false); }); Sz s; s.ok = y.ok(); s.err = y.err; s.valid = y.ok() && R.is_valid(); s.total = R.total_size(); if (strict && s.valid) for (size_t i = 0; i < g.C.size(); i++) { double x = R.get_edge_size(d->getEdgeId(d->getEdgeByName(cname(i)))); s.cap.push_back((int)x); if (x != (int)x) s.integral = false; } return s; }
bool sustains(const G& g, const std::vector<ll>& r, const std::vector<int>& cap, const Q& P) { for (size_t i = 0; i < cap.size(); i++) if (cap[i] < g.C[i].m) return false; Q t = thrOf(bounded(g, cap), r); return t == Q(-1) || t * P >= Q(1); }
struct Base { std::vector<ll> r, ph, one; Q p1, ps; bool hasS = false, fine = false; std::vector<int> lo, zero; };
Base base(const G& g) { Base b; b.r = repetition(g); if (b.r.empty() || !live(g, b.r)) return b; b.one.assign(g.A.size(), 1); for (size_t a = 0; a < g.A.size(); a++) b.ph.push_back(phases(g, a)); if (!class_period(g, b.r, b.ph, b.p1) || !(Q(0) < b.p1)) return b; b.hasS = class_period(g, b.r, b.one, b.ps); b.lo = smallest_caps(g); for (auto& c : g.C) b.zero.push_back(c.m); b.fine = true; return b; }
const std::vector<std::pair<int, int>> mult = {{1, 1}, {9, 8}, {3, 2}, {2, 1}, {5, 1}};
ll optimum(const G& g, const Base& b, const std::vector<int>& w, bool strict, const Q& P, ll T) { return cheapest(b.zero, w, T, [&](const std::vector<int>& cap) { Q q; return class_period(bounded(g, cap), b.r, strict ? b.one : b.ph, q) && q <= P; }); }
void sizes(Ctx& c, const G& g, const std::vector<int>& w) { Base b = base(g); if (!b.fine) return; size_t nC = g.C.size(); c.evals();
  for (int strict = 0; strict < 2; strict++) { if (strict && !b.hasS) continue; for (int ilp = 0; ilp < 2; ilp++) { ll prev = -1; for (auto m : mult) { Q P = (strict ? b.ps : b.p1) * Q((i128)m.first, (i128)m.second); std::string nm = std::string(strict ? "strict" : "periodic") + (ilp ? "-ilp" : ""), at = "period " + S(P) + ": ";
    auto* d = make(g, w); Sz s = size_(d, g, strict, ilp, (TIME_UNIT)(P.ld() / g.tden)); c.validated();
    if (!s.ok) c.fail("error-" + nm, at + s.err); else if (!s.valid || s.total <= 0) c.fail("none-" + nm, "no sizes for the reachable period " + S(P)); else { c.states(1);
      if (strict) { ll sum = 0; for (size_t i = 0; i < nC; i++) sum += (ll)s.cap[i] * w[i]; if (!s.integral || sum != s.total) c.fail("total-" + nm, at + "sizes add up to " + std::to_string(sum) + ", total " + std::to_string(s.total)); if (!sustains(g, b.r, s.cap, P)) c.fail("insufficient-" + nm, at + "the capacities do not sustain it"); }
      if (ilp) { ll best = optimum(g, b, w, strict, P, s.total); c.transitions(s.total); if (best < 0) c.fail("insufficient-" + nm, at + "no distribution of " + std::to_string(s.total) + " allows such a schedule"); else if (best < s.total) c.fail("not-minimal-" + nm, at + "total " + std::to_string(s.total) + ", " + std::to_string(best) + " is enough"); if (prev >= 0 && s.total > prev) c.fail("monotone-" + nm, at + "needs " + std::to_string(s.total) + ", a smaller period only " + std::to_string(prev)); prev = s.total; c.outcome(std::to_string(best)); }
      else if (!strict && !anyDist(b.lo, w, s.total, [&](const std::vector<int>& cap) { return sustains(g, b.r, cap, P); })) c.fail("insufficient-" + nm, at + "no distribution of " + std::to_string(s.total) + " sustains it");
      if (m.first != m.second) { // the command prints the same
        auto* e = make(g, w); parameters_list_t p; std::ostringstream o; o << std::setprecision(21) << (TIME_UNIT)(P.ld() / g.tden); p["PERIOD"] = o.str(); if (ilp) p["ILP"] = "1"; Run y = mute(strict ? "SPeriodicSizing" : "PeriodicSizing", e, p); long double x; if (!y.ok()) c.fail("command-" + nm, at + y.err); else if (!number_after(y.out, strict ? "SPeriodicSizing size is" : "1Periodic size is", x) || x != s.total) c.fail("command-" + nm, at + "the command does not print the size " + std::to_string(s.total)); delete e; }
    } delete d; }
    if (!strict) { auto* d = make(g, w); Sz s = size_(d, g, 0, ilp, (TIME_UNIT)(b.p1.ld() / g.tden * 0.99L)); if (s.valid) c.fail("unreachable", "sizes for a period below the smallest one"); delete d; 
      d = make(g, w); parameters_list_t p; if (ilp) p["ILP"] = "1"; Run y = mute("PeriodicSizing", d, p); long double x; Sz t = size_(d, g, 0, ilp, (TIME_UNIT)(b.p1.ld() / g.tden)); if (!y.ok()) c.fail("default-period", y.err); else if (!number_after(y.out, "1Periodic size is", x) || !t.valid || x < t.total - (ilp ? 0 : (ll)nC)) c.fail("default-period", "unexpected size without PERIOD"); delete d; } } } }
void fixed(Ctx& c, const G& g) { Base b = base(g); if (!b.fine) return; std::vector<int> w(g.C.size(), 1); c.evals(); for (std::string off : {"BURST", "AVERAGE", "MINMAX", "WIGGERS", "backpressure"}) for (int ilp = 0; ilp < 2; ilp++) { bool bp = off == "backpressure"; if (bp && ilp) continue; for (auto m : mult) { Q P = b.p1 * Q((i128)m.first, (i128)m.second); auto* d = make(g, w); parameters_list_t p; std::ostringstream o; o << std::setprecision(21) << (TIME_UNIT)(P.ld() / g.tden); p["PERIOD"] = o.str(); p["OFFSET"] = off; if (ilp) p["ILP"] = "1"; Run y = mute(bp ? "BackPressureSizing" : "FixedOffsetBufferSizing", d, p); c.validated(); delete d; std::string nm = off + (ilp ? "-ilp" : "");
    long double x; if (!y.ok() || !number_after(y.out, "Total buffer size", x) || x == 0) { c.count("refused_" + nm); continue; } // these placements of the phases may be impossible for the period
    ll T = (ll)x; c.count("sized_" + nm); c.states(1); if (!anyDist(b.lo, w, T, [&](const std::vector<int>& cap) { return sustains(g, b.r, cap, P); })) c.fail("insufficient-" + nm, "period " + S(P) + ": no distribution of " + std::to_string(T) + " sustains it"); } } }
void vbuf(Ctx& c, const G& g) { Base b = base(g); if (!b.fine || !b.hasS) return; std::vector<int> w(g.C.size(), 1); c.evals(); for (int ilp = 0; ilp < 2; ilp++) for (int mul = 1; mul <= 3; mul++) for (auto m : mult) { Q P = b.ps * Q((i128)m.first, (i128)m.second); TIME_UNIT pd = (TIME_UNIT)(P.ld() / g.tden); auto* d0 = make(g, w); Sz s = size_(d0, g, true, ilp, pd); delete d0; if (!s.valid) continue;
    auto* d = make(g, w); parameters_list_t p; std::ostringstream o; o << std::setprecision(21) << pd; p["PERIOD"] = o.str(); if (ilp) p["ILP"] = "1"; if (mul > 1) p["MUL"] = std::to_string(mul); Run y = mute("AddVBuffers", d, p); c.validated(); if (!y.ok()) { c.fail("vbuf-error", y.err); delete d; continue; }
    size_t nC = g.C.size(); if (d->getEdgesCount() != (ARRAY_INDEX)(2 * nC) || d->getVerticesCount() != (ARRAY_INDEX)g.A.size()) c.fail("vbuf", "number of channels or actors");
    auto chan = [&](const std::string& n, const Chan& x, const std::string& what) { Run q = guarded([&]() { Edge e = d->getEdgeByName(n); if (d->getEdgeSource(e) != d->getVertexByName(aname(x.s)) || d->getEdgeTarget(e) != d->getVertexByName(aname(x.t))) c.fail("vbuf", what + ": ends of " + n); if (d->getPreload(e) != x.m) c.fail("vbuf", what + ": tokens of " + n + " are " + std::to_string(d->getPreload(e)) + " instead of " + std::to_string(x.m)); for (size_t k = 0; k < x.p.size(); k++) if (d->getEdgeInPhase(e, k + 1) != x.p[k]) c.fail("vbuf", what + ": production of " + n); for (size_t k = 0; k < x.c.size(); k++) if (d->getEdgeOutPhase(e, k + 1) != x.c[k]) c.fail("vbuf", what + ": consumption of " + n); if (d->getEdgeInPhasesCount(e) != (PHASE_INDEX)x.p.size() || d->getEdgeOutPhasesCount(e) != (PHASE_INDEX)x.c.size()) c.fail("vbuf", what + ": phases of " + n); }); if (!q.ok()) c.fail("vbuf", what + ": " + n + " " + q.err); };
    std::vector<int> cap; for (auto x : s.cap) cap.push_back(x * mul); for (size_t i = 0; i < nC; i++) { chan(cname(i), g.C[i], "original"); Chan v; v.s = g.C[i].t; v.t = g.C[i].s; v.p = g.C[i].c; v.c = g.C[i].p; v.m = cap[i] - g.C[i].m; chan("vir_" + cname(i), v, "reverse"); }
    Run q = guarded([&]() { if (!computeRepetitionVector(d)) c.fail("vbuf", "inconsistent after bounding"); else for (size_t a = 0; a < g.A.size(); a++) if (d->getNi(d->getVertexByName(aname(a))) != b.r[a] * phases(g, a)) c.fail("vbuf", "repetition vector changed"); }); if (!q.ok()) c.fail("vbuf-error", q.err);
    if (!sustains(g, b.r, cap, P)) c.fail("vbuf-insufficient", "period " + S(P)); delete d; } }
// exploration over periods: every printed point must be the sizing for its period and every size of the exact front must appear
void dse(Ctx& c, const G& g, bool strict) { Base b = base(g); if (!b.fine || (strict && !b.hasS)) return; std::vector<int> w(g.C.size(), 1); c.evals(); 
  for (int ilp = 1; ilp < 2; ilp++) { auto* d = make(g, w); parameters_list_t p; if (ilp) p["ILP"] = "1"; std::string nm = std::string(strict ? "dse-strict" : "dse") ; Run y = mute(strict ? "SPeriodicDSE" : "PeriodicDSE", d, p); delete d; c.validated(); if (!y.ok()) { c.fail(nm + "-error", y.err); continue; }
    std::vector<std::pair<double, ll>> got; std::istringstream in(y.out); std::string l; while (std::getline(in, l)) { double P; ll Z; char extra; if (l.find(';') == std::string::npos && l.find('\t') != std::string::npos && sscanf(l.c_str(), "%lf\t%lld%c", &P, &Z, &extra) == 2) got.push_back({P, Z}); }
    if (got.empty()) { c.fail(nm, "no point printed"); continue; } Q top = strict ? b.ps : b.p1; double F0 = g.tden / (double)top.ld(), gran = (g.tden / (double)b.p1.ld()) / 10000;
    // exact front of the class: size -> smallest period
    std::map<ll, Q> front; ll base = 0; for (int x : b.zero) base += x; Q best(0); bool has = false; for (ll T = base; T < 200; T++) { Q bp(0); bool h = false; anyDist(b.zero, w, T, [&](const std::vector<int>& cap) { Q q; c.states(1); if (class_period(bounded(g, cap), b.r, strict ? b.one : b.ph, q)) { if (q < top) q = top; if (!h || q < bp) { bp = q; h = true; } } return false; }); if (h && (!has || bp < best)) { front[T] = bp; best = bp; has = true; } if (has && best == top) break; }
    (void)F0; std::string want, have; for (auto& f : front) want += S(f.second) + ":" + std::to_string(f.first) + " "; for (auto& x : got) { std::ostringstream o; o << x.first << ":" << x.second; have += o.str() + " "; } std::string both = "exact " + want + "printed " + have; c.outcome(std::to_string(front.size()) + " points");
    for (size_t i = 1; i < got.size(); i++) if (!(got[i].second > got[i - 1].second && got[i].first < got[i - 1].first)) c.fail(nm, "dominated point; " + both);
    for (auto& x : got) { if (!front.count(x.second)) { c.fail(nm, "size not on the front; " + both); continue; } if (x.first < front[x.second].ld() / g.tden * (1 - 1e-5)) c.fail(nm, "size announced for a period it cannot sustain; " + both); }
    double prevF = 0; for (auto& f : front) { double fr = g.tden / (double)f.second.ld(); bool wide = fr - prevF > 2 * gran; prevF = fr; bool ok = false; for (auto& x : got) if (x.second == f.first && 1 / x.first >= fr - 1.5 * gran - 1e-5 * fr) ok = true; if (wide && !ok) c.fail(nm, "missing point; " + both); } } }
std::string W(const std::vector<int>& w) { std::string s; for (int x : w) s += (s.empty() ? "" : ",") + std::to_string(x); return s; }
void dispatch(Ctx& c, const std::string& key) { size_t k = key.find('|'); std::string op = key.substr(0, k), rest = key.substr(k + 1); if (op == "sizes") { size_t q = rest.find('|'); std::vector<int> a, w; G::list2(rest.substr(0, q), a, w); sizes(c, G::parse(rest.substr(q + 1)), w); } else if (op == "vbuf") vbuf(c, G::parse(rest)); else if (op == "fixed") fixed(c, G::parse(rest)); else if (op == "dse") dse(c, G::parse(rest), false); else if (op == "sdse") dse(c, G::parse(rest), true); }
void go(Ctx& c, std::string ops, const Family& f, bool weights = false) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>& r) { if (r.empty() || !live(g, r)) return; std::istringstream in(ops); std::string op; while (in >> op) { if (op == "sizes") { for (auto& w : weights ? tuples(g.C.size(), {1, 2}) : tuples(g.C.size(), {1})) { if (!c.take()) continue; std::string k = "sizes|" + W(w) + "|" + g.key(); c.mark(k); dispatch(c, k); } } else { if (!c.take()) continue; std::string k = op + "|" + g.key(); c.mark(k); dispatch(c, k); } } }); }
void run(Ctx& c) { bool th = c.thorough;
  Alpha r12{{1, vecs(1, 1, 2)}}, r13{{1, vecs(1, 1, 3)}}, r14{{1, vecs(1, 1, 4)}}, r16{{1, vecs(1, 1, 6)}}, d13{{1, V({{1}, {3}})}}, d1{{1, V({{2}})}}, d12{{1, V({{1}, {2}})}}; std::string all = "sizes fixed vbuf dse sdse", some = "sizes vbuf";
  Alpha cs{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}, {2, 1}, {1, 1}})}, {3, V({{1, 0, 1}, {1, 2, 3}, {0, 0, 2}})}}, csd{{1, V({{1}, {3}})}, {2, V({{1, 2}, {3, 1}})}, {3, V({{1, 2, 1}})}}, csd1{{1, V({{2}})}, {2, V({{1, 2}})}, {3, V({{1, 2, 1}})}};
  go(c, all, family("SDF, 1 actor, 1..2 self-loops, rates 1..3", 1, topologies(1, 1, 2, true, 2, true, true), all_phase(1, {1}), r13, d13, tokPC(), 12), true);
  go(c, all, family("SDF, 2 actors, 1 channel, rates 1..4 (1..6), tokens 0..3", 2, topologies(2, 1, 1, false, 1, true, true), all_phase(2, {1}), th ? r16 : r14, d13, th ? tokPC() : tokK(3), 18), true);
  go(c, all, family("SDF, 2 actors, 2 channels (also in one direction), rates 1..2 (1..3), tokens 0..2 (0..4)", 2, topologies(2, 2, 2, false, 2, true, true), all_phase(2, {1}), th ? r13 : r12, d13, tokK(th ? 4 : 2), 12), true);
  go(c, all, family("CSDF, 2 actors, 1 channel, phases 1..2 (1..3), tokens 0..2", 2, {Topo{{0, 1}}}, all_phase(2, th ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2}), cs, th ? csd : csd1, tokK(2), 14), th);
  go(c, all, family("CSDF, 2-cycle, phases 1..2, tokens 0..4", 2, {cycle(2)}, all_phase(2, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}}, csd1, tokK(4), 12));
  go(c, some, family("SDF, 3 actors, 2 channels, rates 1..3, tokens 0..1", 3, topologies(3, 2, 2, false, 1, true, true), all_phase(3, {1}), r13, d12, tokK(1), th ? 14 : 9), th);
  go(c, th ? all : some, family("SDF, 3 actors, triangles and rings, rates 1..2, tokens 0..1 (0..2)", 3, topologies(3, 3, 3, false, 1, true, true), all_phase(3, {1}), r12, d13, tokK(th ? 2 : 1), 6));
  go(c, th ? all : some, family("CSDF, chain of 3 actors, phases 1..2, tokens 0..1", 3, {Topo{{0, 1}, {1, 2}}}, all_phase(3, {1, 2}), Alpha{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}}, csd1, tokK(1), 10));
  go(c, all, family("unlimited concurrency: SDF, 2-cycle", 2, {cycle(2)}, all_phase(2, {1}), r12, d13, tokK(3), 12, {{0, 0}, {0, 1}, {1, 0}}));
  { std::vector<std::array<int, 5>> ch; std::vector<G> l; for (int n : th ? std::vector<int>{4, 5, 6} : std::vector<int>{4, 5}) for (int j = 0; j < n; j++) for (int q : {2, 3}) for (int u = 0; u < 2; u++) { ch.clear(); for (int i = 0; i < n; i++) ch.push_back({i, (i + 1) % n, u && i == 1 ? 2 : 1, u && i == 3 ? 2 : 1, i == j ? q : 0}); std::vector<std::vector<int>> d(n, {1}); d[n / 2] = {4}; l.push_back(plain(d, ch)); } for (int n : {4, 5}) for (int j = 0; j < n; j++) { ch.clear(); for (int i = 0; i + 1 < n; i++) ch.push_back({i, i + 1, i == 1 ? 2 : 1, i == 2 ? 2 : 1, i == j}); std::vector<std::vector<int>> d(n, {1}); d[j] = {3}; l.push_back(plain(d, ch)); } Family f; f.name = "rings and chains of 4..5 (6) actors, every place of the tokens"; f.n = 0; f.list = l; go(c, some, f); }
  { std::vector<G> l; large_families(0, [&](const Family& f) { for (size_t i = 0; i < f.list.size(); i += th ? 1 : 4) if (total(repetition(f.list[i])) <= 60) l.push_back(f.list[i]); }); Family f; f.name = "larger graphs (bounded graph only)"; f.n = 0; f.list = l; go(c, "vbuf", f); }
  { auto f = family("fractional durations (thirds): SDF, 2 actors, 1 channel", 2, {Topo{{0, 1}}}, all_phase(2, {1}), r13, Alpha{{1, V({{1}, {2}, {4}})}}, tokK(2), 12); f.tden = 3; go(c, all, f); }
}
void one(Ctx& c, const std::string& key) { c.mark(key); dispatch(c, key); }
}
kv::Module kv::module{"P11", run, one, "every live graph of the listed families, five periods from the smallest reachable one up: reported sizes against the exact throughput of the bounded graph and the least total over every storage distribution; bounded graphs; complete exploration fronts", {"positive execution times, concurrency limit 1 or none", "without the integer option only sufficiency is judged (rounding the relaxed program is not monotone)", "fixed-offset and back-pressure sizing may refuse a period; what they do print is judged for sufficiency"}};
