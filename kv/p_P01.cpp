#include "kiter_api.hpp"
#include "stdfam.hpp"
using namespace kv;
namespace {
void check(Ctx& c, const G& g) {
  auto r = repetition(g); int ncomp; auto comp = wcc(g, &ncomp);
  int n = g.A.size();
  // declaration orders: as given, actors reversed, channels reversed
  std::vector<int> ra(n), rc(g.C.size()); for (int i = 0; i < n; i++) ra[i] = n - 1 - i; for (size_t i = 0; i < rc.size(); i++) rc[i] = rc.size() - 1 - i;
  std::vector<char> iso(n, 1); for (auto& ch : g.C) iso[ch.s] = iso[ch.t] = 0;
  G h = g; for (int a = 0; a < n; a++) for (size_t p = 0; p < h.A[a].dur.size(); p++) h.A[a].dur[p] = (a * 5 + p * 3 + 2) % 7; for (size_t i = 0; i < h.C.size(); i++) h.C[i].m = (i * 5 + 3) % 8; // other tokens and durations: the answer must be the same
  for (int variant = 0; variant < 4; variant++) {
    if (variant == 1 && n < 2) continue; if (variant == 2 && rc.size() < 2) continue;
    models::Dataflow* d = build(variant == 3 ? h : g, variant == 1 ? &ra : nullptr, variant == 2 ? &rc : nullptr);
    bool res = false; Run x = guarded([&]() { res = computeRepetitionVector(d); });
    c.evals(); c.validated(); c.states(1); c.transitions(g.C.size());
    std::string v = variant == 0 ? "" : variant == 3 ? " (other tokens and durations)" : variant == 1 ? " (actors declared in reverse)" : " (channels declared in reverse)";
    if (!x.ok()) { c.fail("error", "repetition vector computation failed: " + x.err + v); delete d; return; }
    if (r.empty()) { c.outcome("inconsistent"); c.count("inconsistent"); if (res || d->has_repetition_vector()) c.fail("inconsistent-accepted", "inconsistent graph received a repetition vector" + v); delete d; continue; }
    if (!res || !d->has_repetition_vector()) { c.fail("consistent-rejected", "consistent graph reported inconsistent" + v); delete d; continue; }
    std::vector<ll> N(n); std::string o; bool ok = true; std::map<int, Q> scale;
    for (int a = 0; a < n; a++) { N[a] = d->getNi(d->getVertexByName(aname(a))); o += std::to_string(N[a]) + ","; ll want = r[a] * phases(g, a);
      if (N[a] <= 0) ok = false; else if (iso[a]) { if (ncomp == 1 && N[a] != 1 && N[a] != want) ok = false; } else if (ncomp == 1) { if (N[a] != want) ok = false; } else { Q s = Q(N[a]) / Q(want); if (s.d != 1) ok = false; if (scale.count(comp[a]) && scale[comp[a]] != s) ok = false; scale[comp[a]] = s; } }
    c.outcome(o); c.count("consistent");
    if (!ok) { std::string w; for (int a = 0; a < n; a++) w += std::to_string(r[a] * phases(g, a)) + ","; c.fail("wrong-vector", "got (" + o + ") expected (" + w + ")" + (ncomp > 1 ? " up to one positive factor per component" : "") + v); }
    delete d;
  }
}
Family fam(const std::string& name, int n, std::vector<Topo> t, std::vector<int> ph, std::map<int, std::vector<std::vector<int>>> rates, bool allphases = true) {
  Family f; f.name = name; f.n = n; f.topos = t; f.phaseCounts = tuples(n, ph); f.rates = rates; for (int p : ph) f.durs[p] = {std::vector<int>(p, 1)}; f.maxTok = [](const std::vector<int>&, const std::vector<int>&, bool) { return 0; }; f.reent = {std::vector<int>(n, 1)}; f.consistentOnly = false; return f;
}
void run(Ctx& c) {
  auto go = [&](const Family& f) { c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>&) {
      for (auto& ch : g.C) if (sum(ch.p) == 0 && sum(ch.c) == 0) return; // any vector balances it: outside the property
      each(c, g, [&](const G& x) { check(c, x); }); }); };
  std::map<int, std::vector<std::vector<int>>> s4{{1, vecs(1, 0, 4, false)}, {2, vecs(2, 0, 2, false)}, {3, vecs(3, 0, 1, false)}};
  std::map<int, std::vector<std::vector<int>>> s6{{1, vecs(1, 1, 6)}}, s3{{1, vecs(1, 1, 3)}}, m{{1, {{1}, {2}, {3}}}, {2, {{0, 1}, {2, 1}, {1, 1}}}, {3, {{1, 0, 1}, {1, 2, 3}}}};
  std::map<int, std::vector<std::vector<int>>> ph{{1, {{1}, {2}}}, {2, {{1, 0}, {1, 2}}}, {3, {{1, 1, 1}, {0, 0, 2}}}, {4, {{1, 0, 2, 0}, {1, 1, 1, 1}}}};
  std::map<int, std::vector<std::vector<int>>> s12{{1, vecs(1, 1, 12)}};
  go(fam("1 actor, 0..2 self-loops, phases 1..3, rates 0..4/0..2/0..1", 1, topologies(1, 0, 2, true, 2, false, true), {1, 2, 3}, s4));
  go(fam("2 actors, 0..2 channels (self-loops, parallel), phases 1..3", 2, topologies(2, 0, 2, true, 2, false, false), {1, 2, 3}, s4));
  go(fam("2 actors, 1..3 channels, rates 1..6", 2, topologies(2, 1, 3, false, 3, false, true), {1}, s6));
  go(fam("3 actors, 0..3 channels (up to isomorphism, disconnected too), rates 1..3", 3, topologies(3, 0, 3, true, 2, true, false), {1}, s3));
  go(fam("3 actors, 2..3 channels connected, phases 1..3 mixed", 3, topologies(3, 2, 3, false, 2, true, true), {1, 2, 3}, m));
  go(fam("3 actors, 2 channels connected, rates 1..12", 3, topologies(3, 2, 2, false, 2, false, true), {1}, s12));
  go(fam("2 actors 0..2 channels, phases 1..4 mixed", 2, topologies(2, 0, 2, true, 2, false, false), {1, 2, 3, 4}, ph));
  go(fam("4 actors, 3 channels up to isomorphism, disconnected too, rates 1..3", 4, topologies(4, 0, 3, false, 2, true, false), {1}, s3));
  go(fam("4 actors, 4 channels connected, rates 1,2", 4, topologies(4, 4, 4, false, 2, true, true), {1}, {{1, {{1}, {2}}}}));
  std::map<int, std::vector<std::vector<int>>> lg{{1, {{1}, {2}, {3}, {2000000000}}}, {2, {{2000000000, 2000000000}, {2147483647, 1}, {1, 2}}}};
  go(fam("2 actors, 1..2 channels, rates up to 2^31-1 (totals above it)", 2, topologies(2, 1, 2, true, 2, false, true), {1, 2}, lg));
  large_families(1, go);
  if (c.thorough) {
    go(fam("T: 2 actors, 1..3 channels, phases 1..3 full", 2, topologies(2, 1, 3, true, 2, false, false), {1, 2}, s4));
    go(fam("T: 3 actors, 2..3 channels, phases 1..4", 3, topologies(3, 2, 3, true, 2, true, true), {1, 2, 3, 4}, ph));
    go(fam("T: 4 actors, 3..4 channels connected, rates 1..3", 4, topologies(4, 3, 4, false, 2, true, true), {1}, s3));
    go(fam("T: 5 actors, 4..5 channels connected, rates 1,2", 5, topologies(5, 4, 5, false, 1, true, true), {1}, {{1, {{1}, {2}}}}));
  }
}
void one(Ctx& c, const std::string& key) { c.mark(key); check(c, G::parse(key)); }
}
kv::Module kv::module{"P01", run, one, "every graph of the listed families (complete product of topologies, phase counts, rates), each declared in three orders; non-trivial = at least one channel", {"rates <= 12, <= 5 actors; channels whose production and consumption are both all-zero are outside the property", "an actor without any channel is balanced by every positive count (the repository's own tests pin 1 firing, not one phase cycle)", "for disconnected graphs minimality is only required up to one positive factor per component"}};
