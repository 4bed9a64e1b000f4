// Every sequence of graph edits up to a depth, executed on the real Dataflow class and on a plain reference model.
#include "kiter_api.hpp"
#include <algorithms/normalization.h>
using namespace kv;
extern "C" int backtrace(void**, int) { return 0; } // rejected edits print a stack trace: not needed here
namespace {
typedef std::vector<long long> IV; typedef std::vector<long double> TV;
struct RVx { ll id; std::string name, type; ll ph = 0, iph = 0, reent = 0, map = -1; TV dur, idur; };
struct REx { ll id; int s, t; std::string name; IV in, out, iin, iout, route; ll pre = 0, size = 0; int type = 0; }; // s,t: positions in V
struct Ref { std::vector<RVx> V; std::vector<REx> E; bool locked = false, rv = false, norm = false; std::string gname, aname, gtype; ll gid = 0; };
ll vsum(const IV& v) { ll s = 0; for (ll x : v) s += x; return s; }
enum R { OK, REJECT, EITHER, SKIP };
std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> r; std::string e; std::stringstream st(s); while (std::getline(st, e, d)) r.push_back(e); return r; }
IV nums(const std::string& s) { IV v; if (s == "-") return v; for (auto& x : split(s, ',')) v.push_back(std::stoll(x)); return v; }
bool analysable(const Ref& m) { if (m.V.empty()) return false; for (auto& v : m.V) { if (v.ph < 1 || v.iph != 0 || (ll)v.dur.size() != v.ph || v.idur.size()) return false; } for (auto& e : m.E) if ((ll)e.in.size() != m.V[e.s].ph || (ll)e.out.size() != m.V[e.t].ph || e.iin.size() || e.iout.size() || !vsum(e.in) || !vsum(e.out)) return false; return true; }
G toG(const Ref& m) { G g; g.A.resize(m.V.size()); for (size_t i = 0; i < m.V.size(); i++) { g.A[i].dur.assign(m.V[i].dur.begin(), m.V[i].dur.end()); g.A[i].reent = m.V[i].reent; } for (auto& e : m.E) { Chan c; c.s = e.s; c.t = e.t; c.p.assign(e.in.begin(), e.in.end()); c.c.assign(e.out.begin(), e.out.end()); c.m = e.pre; g.C.push_back(c); } return g; }
// ---- operations: text form, fields separated by blanks; actors and channels are addressed by position in creation order
// reference semantics; returns what the tool has to do. EITHER: tool may refuse (identifier below an existing one), graph then unchanged or gone
R ref(Ref& m, const std::string& op, ll& newId) {
  auto a = split(op, ' '); const std::string& o = a[0]; newId = 0; auto N = [&](size_t i) { return std::stoll(a[i]); };
  auto maxV = [&]() { ll x = 0; for (auto& v : m.V) x = std::max(x, v.id); return x; };
  auto vid = [&](ll id) { for (auto& v : m.V) if (v.id == id) return true; return false; }; auto eid = [&](ll id) { for (auto& e : m.E) if (e.id == id) return true; return false; };
  auto vname = [&](const std::string& n) { for (auto& v : m.V) if (v.name == n) return true; return false; }; auto ename = [&](const std::string& n) { for (auto& e : m.E) if (e.name == n) return true; return false; };
  if (o == "copy" || o == "assign") return OK;
  if (o == "reset") { m.locked = m.rv = m.norm = false; return OK; }
  if (o == "rv") { if (!analysable(m)) return SKIP; if (m.rv) return OK; m.locked = true; G g = toG(m); if (!repetition(g).empty()) m.rv = true; return OK; }
  if (o == "norm") { if (!analysable(m) || m.E.empty()) return SKIP; G g = toG(m); int nc; wcc(g, &nc); if (repetition(g).empty() || nc > 1) return SKIP; m.locked = true; if (!m.norm) m.norm = true; return OK; }
  if (o == "thr" || o == "thr1" || o == "sym") { if (!analysable(m)) return SKIP; G g = toG(m); auto r = repetition(g); if (r.empty()) return SKIP; if (o == "sym" && (m.locked || m.V.size() < 1)) { } m.locked = true; m.rv = true; return OK; }
  if (m.locked) return REJECT;
  if (o == "v") { RVx v; if (a.size() > 1) { if (vname(a[1])) return REJECT; v.name = a[1]; } v.id = -1; m.V.push_back(v); return OK; }
  if (o == "vi") { RVx v; v.id = N(1); if (vid(v.id)) return REJECT; if (a.size() > 2) { if (vname(a[2])) return REJECT; v.name = a[2]; } bool low = maxV() >= v.id; m.V.push_back(v); return low ? EITHER : OK; }
  if (o == "e" || o == "ei") { REx e; e.s = N(1); e.t = N(2); if (e.s >= (int)m.V.size() || e.t >= (int)m.V.size()) return SKIP; size_t k = 3; e.id = -1; if (o == "ei") { e.id = N(3); k = 4; if (e.id <= 0 || eid(e.id)) return REJECT; } if (a.size() > k) { if (ename(a[k])) return REJECT; e.name = a[k]; } m.E.push_back(e); return OK; }
  if (o == "gn") { m.gname = a[1]; return OK; }
  size_t i = N(1); bool onV = o[0] == 'V'; if (i >= (onV ? m.V.size() : m.E.size())) return SKIP;
  if (onV) { RVx& v = m.V[i];
    if (o == "Vrm") { std::vector<REx> E; for (auto& e : m.E) if (e.s != (int)i && e.t != (int)i) { if (e.s > (int)i) e.s--; if (e.t > (int)i) e.t--; E.push_back(e); } m.E = E; m.V.erase(m.V.begin() + i); return OK; }
    if (o == "Vname") { if (a[2] == "-") return REJECT; if (v.name != a[2] && vname(a[2])) return REJECT; v.name = a[2]; return OK; }
    if (o == "Vid") { if (v.id != N(2) && vid(N(2))) return REJECT; v.id = N(2); return OK; }
    if (o == "Vph") { v.ph = N(2); return OK; } if (o == "Viph") { v.iph = N(2); return OK; }
    if (o == "Vdur") { IV d = nums(a[2]); if ((ll)d.size() != v.ph) return REJECT; v.dur.assign(d.begin(), d.end()); return OK; }
    if (o == "Vidur") { IV d = nums(a[2]); if ((ll)d.size() != v.iph) return REJECT; v.idur.assign(d.begin(), d.end()); return OK; }
    if (o == "Vre") { v.reent = N(2); return OK; } if (o == "Vmap") { v.map = N(2); return OK; } if (o == "Vtype") { v.type = a[2]; return OK; }
    if (o == "Vrephase") { ll p = N(2); v.ph = p; v.dur.assign(p, 2); for (auto& e : m.E) { if (e.s == (int)i) e.in.assign(p, 1); if (e.t == (int)i) e.out.assign(p, 1); } return OK; }
  } else { REx& e = m.E[i];
    if (o == "Erm") { m.E.erase(m.E.begin() + i); return OK; }
    if (o == "Ename") { if (a[2] == "-") return REJECT; if (e.name != a[2] && ename(a[2])) return REJECT; e.name = a[2]; return OK; }
    if (o == "Eid") { if (N(2) <= 0) return REJECT; if (e.id != N(2) && eid(N(2))) return REJECT; e.id = N(2); return OK; }
    if (o == "Ein") { IV r = nums(a[2]); RVx& v = m.V[e.s]; if (v.ph > 0 && v.ph != (ll)r.size()) return REJECT; v.ph = r.size(); e.in = r; return OK; }
    if (o == "Eout") { IV r = nums(a[2]); RVx& v = m.V[e.t]; if (v.ph > 0 && v.ph != (ll)r.size()) return REJECT; v.ph = r.size(); e.out = r; return OK; }
    if (o == "Eiin") { IV r = nums(a[2]); RVx& v = m.V[e.s]; if (v.iph > 0 && v.iph != (ll)r.size()) return REJECT; v.iph = r.size(); e.iin = r; return OK; }
    if (o == "Eiout") { IV r = nums(a[2]); RVx& v = m.V[e.t]; if (v.iph > 0 && v.iph != (ll)r.size()) return REJECT; v.iph = r.size(); e.iout = r; return OK; }
    if (o == "Epre") { e.pre = N(2); return OK; } if (o == "Esize") { e.size = N(2); return OK; } if (o == "Etype") { e.type = N(2); return OK; } if (o == "Eroute") { e.route = nums(a[2]); return OK; }
    if (o == "Eset") { e.in.assign(m.V[e.s].ph, 0); e.out.assign(m.V[e.t].ph, 0); e.in[0] = N(2); e.out[0] = N(3); for (size_t k = 1; k < e.in.size(); k++) e.in[k] = 1; for (size_t k = 1; k < e.out.size(); k++) e.out[k] = 1; e.pre = N(4); return m.V[e.s].ph < 1 || m.V[e.t].ph < 1 ? SKIP : OK; }
  }
  return SKIP;
}
struct Tool { models::Dataflow* d; std::vector<models::Dataflow*> old; std::vector<std::string> oldDesc; Ref before; // before: reference state in which positions are resolved
  Vertex v(size_t i, const Ref& m) { if (m.V[i].name.size() && i % 2) return d->getVertexByName(m.V[i].name); return d->getVertexById(m.V[i].id); }
  Edge e(size_t i, const Ref& m) { if (m.E[i].name.size() && i % 2) return d->getEdgeByName(m.E[i].name); return d->getEdgeById(m.E[i].id); } };
template <class T> std::vector<T> cv(const IV& v) { return std::vector<T>(v.begin(), v.end()); }
// full observable state of the tool's graph, as text (used for "unchanged" comparisons)
template <class X> std::string js(const X& v) { std::ostringstream o; for (auto x : v) o << (double)x << ","; return o.str(); }
std::string dump(models::Dataflow* d) {
  std::ostringstream o; std::vector<std::string> L; o << d->getGraphName() << "|" << d->getVerticesCount() << "|" << d->getEdgesCount() << "|" << d->is_read_only() << d->has_repetition_vector() << d->is_normalized() << "\n";
  for (auto x : d->vertices()) { Vertex v(x); std::ostringstream s; s << "v" << d->getVertexId(v) << " '" << d->getVertexName(v) << "' t" << d->getVertexType(v) << " " << d->getPhasesQuantity(v) << "/" << d->getInitPhasesQuantity(v) << " r" << d->getReentrancyFactor(v) << " m" << d->getMapping(v) << " i" << js(d->getVertexInitPhaseDuration(v)); if (d->getPhasesQuantity(v)) try { std::string t = js(d->getVertexPhaseDuration(v)); s << " d" << t; } catch (kv_exit_exc&) { s << " d?"; } L.push_back(s.str()); }
  for (auto x : d->edges()) { Edge e = it2Edge(x); std::ostringstream s; s << "e" << d->getEdgeId(e) << " '" << d->getEdgeName(e) << "' " << d->getVertexId(d->getEdgeSource(e)) << ">" << d->getVertexId(d->getEdgeTarget(e)) << " p" << js(d->getEdgeInVector(e)) << ";" << js(d->getEdgeInitInVector(e)) << " c" << js(d->getEdgeOutVector(e)) << ";" << js(d->getEdgeInitOutVector(e)) << " m" << d->getPreload(e) << " s" << d->getTokenSize(e) << " y" << (int)d->getEdgeType(e) << " R" << js(d->getRoute(e)) << " T" << d->getEdgeIn(e) << "/" << d->getEdgeOut(e); L.push_back(s.str()); }
  std::sort(L.begin(), L.end()); for (auto& s : L) o << s << "\n"; return o.str();
}
// apply to the tool; m: reference state before the operation. Exceptions are the caller's business. Returns new id for additions
ll apply(Tool& T, const Ref& m, const std::string& op) {
  auto a = split(op, ' '); const std::string& o = a[0]; auto N = [&](size_t i) { return std::stoll(a[i]); }; models::Dataflow* d = T.d;
  auto nm = [&](size_t i) { return a[i] == "-" ? std::string() : a[i]; };
  if (o == "copy") { T.old.push_back(d); T.oldDesc.push_back(dump(d)); T.d = new models::Dataflow(*d); return 0; }
  if (o == "assign") { T.old.push_back(d); T.oldDesc.push_back(dump(d)); models::Dataflow* n = new models::Dataflow(); Vertex x = n->addVertex("zzz"); n->addEdge(x, x, "loop"); *n = *d; T.d = n; return 0; }
  if (o == "reset") { d->reset_computation(); return 0; }
  if (o == "rv") { computeRepetitionVector(d); return 0; }
  if (o == "norm") { algorithms::normalize(d); return 0; }
  if (o == "thr") { algorithms::compute_Kperiodic_throughput_and_cycles(d, parameters_list_t()); return 0; }
  if (o == "thr1") { auto* t = KiterRegistry<transformation_t>::get("1PeriodicThroughput"); t->fun(d, parameters_list_t()); return 0; }
  if (o == "v") { Vertex v = a.size() > 1 ? d->addVertex(a[1]) : d->addVertex(); return d->getVertexId(v); }
  if (o == "vi") { Vertex v = a.size() > 2 ? d->addVertex((ARRAY_INDEX)N(1), a[2]) : d->addVertex((ARRAY_INDEX)N(1)); return d->getVertexId(v); }
  if (o == "e") { Vertex s = T.v(N(1), m), t = T.v(N(2), m); Edge e = a.size() > 3 ? d->addEdge(s, t, a[3]) : d->addEdge(s, t); if (d->getEdgeSource(e) != s || d->getEdgeTarget(e) != t) return -7; return d->getEdgeId(e); }
  if (o == "ei") { Vertex s = T.v(N(1), m), t = T.v(N(2), m); Edge e = a.size() > 4 ? d->addEdge(s, t, (ARRAY_INDEX)N(3), a[4]) : d->addEdge(s, t, (ARRAY_INDEX)N(3)); return d->getEdgeId(e); }
  if (o == "gn") { d->setGraphName(a[1]); return 0; }
  if (o[0] == 'V') { Vertex v = T.v(N(1), m);
    if (o == "Vrm") d->removeVertex(v); else if (o == "Vname") d->setVertexName(v, nm(2)); else if (o == "Vid") d->setVertexId(v, N(2)); else if (o == "Vph") d->setPhasesQuantity(v, N(2)); else if (o == "Viph") d->setInitPhasesQuantity(v, N(2));
    else if (o == "Vdur") d->setVertexDuration(v, cv<TIME_UNIT>(nums(a[2]))); else if (o == "Vidur") d->setVertexInitDuration(v, cv<TIME_UNIT>(nums(a[2]))); else if (o == "Vre") d->setReentrancyFactor(v, N(2)); else if (o == "Vmap") d->setMapping(v, N(2)); else if (o == "Vtype") d->setVertexType(v, a[2]);
    else if (o == "Vrephase") { ll p = N(2); d->setPhasesQuantity(v, p); {ForOutputEdges(d, v, e) d->setEdgeInPhases(e, std::vector<TOKEN_UNIT>(p, 1));} {ForInputEdges(d, v, e) d->setEdgeOutPhases(e, std::vector<TOKEN_UNIT>(p, 1));} d->setVertexDuration(v, std::vector<TIME_UNIT>(p, 2)); }
  } else { Edge e = T.e(N(1), m);
    if (o == "Erm") d->removeEdge(e); else if (o == "Ename") d->setEdgeName(e, nm(2)); else if (o == "Eid") d->setEdgeId(e, N(2)); else if (o == "Ein") d->setEdgeInPhases(e, cv<TOKEN_UNIT>(nums(a[2]))); else if (o == "Eout") d->setEdgeOutPhases(e, cv<TOKEN_UNIT>(nums(a[2])));
    else if (o == "Eiin") d->setEdgeInInitPhases(e, cv<TOKEN_UNIT>(nums(a[2]))); else if (o == "Eiout") d->setEdgeOutInitPhases(e, cv<TOKEN_UNIT>(nums(a[2]))); else if (o == "Epre") d->setPreload(e, N(2)); else if (o == "Esize") d->setTokenSize(e, N(2)); else if (o == "Etype") d->setEdgeType(e, (EDGE_TYPE)N(2)); else if (o == "Eroute") d->setRoute(e, cv<edge_id_t>(nums(a[2])));
    else if (o == "Eset") { std::vector<TOKEN_UNIT> p(d->getPhasesQuantity(d->getEdgeSource(e)), 1), q(d->getPhasesQuantity(d->getEdgeTarget(e)), 1); p[0] = N(2); q[0] = N(3); d->setEdgeInPhases(e, p); d->setEdgeOutPhases(e, q); d->setPreload(e, N(4)); }
  }
  return 0;
}
std::string expectDump(const Ref& m) {
  std::ostringstream o; std::vector<std::string> L; o << m.gname << "|" << m.V.size() << "|" << m.E.size() << "|" << m.locked << m.rv << m.norm << "\n";
  for (auto& v : m.V) { std::ostringstream s; s << "v" << v.id << " '" << v.name << "' t" << v.type << " " << v.ph << "/" << v.iph << " r" << v.reent << " m" << v.map << " i" << js(v.idur); if (v.ph) { if (v.dur.size()) s << " d" << js(v.dur); else s << " d?"; } L.push_back(s.str()); }
  for (auto& e : m.E) { std::ostringstream s; s << "e" << e.id << " '" << e.name << "' " << m.V[e.s].id << ">" << m.V[e.t].id << " p" << js(e.in) << ";" << js(e.iin) << " c" << js(e.out) << ";" << js(e.iout) << " m" << e.pre << " s" << e.size << " y" << e.type << " R" << js(e.route) << " T" << vsum(e.in) << "/" << vsum(e.out); L.push_back(s.str()); }
  std::sort(L.begin(), L.end()); for (auto& s : L) o << s << "\n"; return o.str();
}
template <class F> bool throws(F f) { try { f(); } catch (std::out_of_range&) { return true; } return false; }
void observe(Ctx& c, models::Dataflow* d, const Ref& m) {
  c.validated(); std::string got = dump(d), want = expectDump(m);
  if (got != want) { auto A = split(got, '\n'), B = split(want, '\n'); for (size_t i = 0; i < std::max(A.size(), B.size()); i++) if (i >= A.size() || i >= B.size() || A[i] != B[i]) { c.fail("state", "graph has: " + (i < A.size() ? A[i] : "(nothing)") + "  expected: " + (i < B.size() ? B[i] : "(nothing)")); return; } }
  // resolvability both ways
  for (ll id = 0; id <= 8; id++) { bool hv = false, he = false; for (auto& v : m.V) if (v.id == id) hv = true; for (auto& e : m.E) if (e.id == id) he = true;
    if (throws([&]() { if (d->getVertexId(d->getVertexById(id)) != (ARRAY_INDEX)id) c.fail("resolve", "actor id"); }) == hv) c.fail("resolve", "actor with id " + std::to_string(id) + (hv ? " not found" : " found"));
    if (throws([&]() { if (d->getEdgeId(d->getEdgeById(id)) != (ARRAY_INDEX)id) c.fail("resolve", "channel id"); }) == he) c.fail("resolve", "channel with id " + std::to_string(id) + (he ? " not found" : " found")); }
  for (std::string n : {"A", "B", "C", "x", "y"}) { ll v = -1, e = -1; for (auto& w : m.V) if (w.name == n) v = w.id; for (auto& w : m.E) if (w.name == n) e = w.id;
    ll gv = -1, ge = -1; throws([&]() { gv = d->getVertexId(d->getVertexByName(n)); }); throws([&]() { ge = d->getEdgeId(d->getEdgeByName(n)); }); if (gv != v || ge != e) c.fail("resolve", "name " + n + " resolves to " + std::to_string(gv) + "/" + std::to_string(ge)); }
  for (auto& v : m.V) if ((ll)d->getMaxVertexId() <= v.id) c.fail("maxid", "getMaxVertexId not above the identifiers in use"); for (auto& e : m.E) if ((ll)d->getMaxEdgeId() <= e.id) c.fail("maxid", "getMaxEdgeId not above the identifiers in use");
  // adjacency from every view
  for (size_t i = 0; i < m.V.size(); i++) { Vertex v = d->getVertexById(m.V[i].id); std::multiset<ll> in, out, con, gi, go, gc, ri, ro;
    for (auto& e : m.E) { if (e.t == (int)i) in.insert(e.id); if (e.s == (int)i) out.insert(e.id); if (e.s == (int)i || e.t == (int)i) con.insert(e.id); }
    {ForInputEdges(d, v, e) { gi.insert(d->getEdgeId(e)); if (d->getEdgeTarget(e) != v) c.fail("adjacency", "input channel of another actor"); }} {ForOutputEdges(d, v, e) { go.insert(d->getEdgeId(e)); if (d->getEdgeSource(e) != v) c.fail("adjacency", "output channel of another actor"); }} {ForConnectedEdges(d, v, e) gc.insert(d->getEdgeId(e));}
    for (auto x : d->in_edges(v)) ri.insert(d->getEdgeId(it2Edge(x))); for (auto x : d->out_edges(v)) ro.insert(d->getEdgeId(it2Edge(x)));
    if (gi != in || ri != in || d->getVertexInDegree(v) != in.size()) c.fail("adjacency", "input channels of actor " + std::to_string(m.V[i].id)); if (go != out || ro != out || d->getVertexOutDegree(v) != out.size()) c.fail("adjacency", "output channels of actor " + std::to_string(m.V[i].id)); if (gc != con) c.fail("adjacency", "connected channels"); if (d->getVertexDegree(v) != in.size() + out.size()) c.fail("adjacency", "degree");
    for (size_t j = 0; j < m.V.size(); j++) { bool has = false; for (auto& e : m.E) if (e.s == (int)i && e.t == (int)j) has = true; if (d->edgeExist(v, d->getVertexById(m.V[j].id)) != has) c.fail("adjacency", "edgeExist"); }
    if (m.V[i].ph > 0 && (ll)m.V[i].dur.size() == m.V[i].ph) { ll s = 0; for (auto x : m.V[i].dur) s += (ll)x; if (d->getVertexTotalDuration(v) != s) c.fail("duration", "total duration"); for (ll k = 1; k <= m.V[i].ph; k++) if (d->getVertexDuration(v, k) != m.V[i].dur[k - 1]) c.fail("duration", "phase duration"); } }
  for (auto& e : m.E) { Edge x = d->getEdgeById(e.id); for (size_t k = 0; k < e.in.size(); k++) if (d->getEdgeInPhase(x, k + 1) != e.in[k]) c.fail("rates", "production of one phase"); for (size_t k = 0; k < e.out.size(); k++) if (d->getEdgeOutPhase(x, k + 1) != e.out[k]) c.fail("rates", "consumption of one phase"); for (size_t k = 0; k < e.iin.size(); k++) if (d->getEdgeInPhase(x, (PHASE_INDEX)k + 1 - (PHASE_INDEX)e.iin.size()) != e.iin[k]) c.fail("rates", "initial production"); for (size_t k = 0; k < e.iout.size(); k++) if (d->getEdgeOutPhase(x, (PHASE_INDEX)k + 1 - (PHASE_INDEX)e.iout.size()) != e.iout[k]) c.fail("rates", "initial consumption"); if (e.in.size()) { ll g = 0; for (ll y : e.in) g = std::gcd(g, y); for (ll y : e.out) g = std::gcd(g, y); if (e.out.size() && d->computeFineGCD(x) != g) c.fail("gcd", "rate gcd"); if (e.out.size() && d->getFineGCD(x) != g) c.fail("gcd", "rate gcd of channel " + std::to_string(e.id) + " is " + std::to_string(d->getFineGCD(x)) + ", should be " + std::to_string(g)); } }
  // results held after an edit are exactly those of the present graph
  if (m.rv) { G g = toG(m); auto r = repetition(g); int nc; wcc(g, &nc); if (nc == 1) for (size_t i = 0; i < m.V.size(); i++) if (g.C.size() && d->getNi(d->getVertexById(m.V[i].id)) != r[i] * m.V[i].ph) c.fail("stale-repetition", "repetition count of actor " + std::to_string(m.V[i].id) + " is " + std::to_string(d->getNi(d->getVertexById(m.V[i].id)))); }
  else if (m.V.size()) { bool refused = false; try { d->getNi(d->getVertexById(m.V[0].id)); } catch (kv_exit_exc&) { refused = true; } if (!refused) c.fail("stale-repetition", "a repetition count is still delivered after an edit"); }
  if (m.norm) { for (auto& e : m.E) { Edge x = d->getEdgeById(e.id); TOKEN_FRACT al = d->getAlpha(x); if (al * (TOKEN_UNIT)vsum(e.in) != TOKEN_FRACT(d->getZi(d->getEdgeSource(x))) || al * (TOKEN_UNIT)vsum(e.out) != TOKEN_FRACT(d->getZi(d->getEdgeTarget(x)))) c.fail("stale-weights", "normalised weights do not belong to the present rates"); } }
  else if (m.V.size()) { bool refused = false; try { d->getZi(d->getVertexById(m.V[0].id)); } catch (kv_exit_exc&) { refused = true; } if (!refused) c.fail("stale-weights", "a normalised weight is still delivered after an edit"); }
}
void finalAnalysis(Ctx& c, models::Dataflow* d, const Ref& m) { // analyse the edited graph and compare with a reference computed from scratch
  if (!analysable(m)) return; for (auto& v : m.V) if (v.reent > 1) return; G g = toG(m); int nc; wcc(g, &nc); if (nc > 1) return; auto r = repetition(g); ll tot = 0; for (size_t i = 0; i < r.size(); i++) tot += r[i] * phases(g, i); if (tot > 40) return;
  for (auto& a : g.A) if (a.reent != 1 && a.dur.size() > 1) return;
  Run x = guarded([&]() { d->reset_computation(); bool ok = d->is_consistent(); if (ok != !r.empty()) { c.fail("consistency", "consistency of the edited graph misjudged"); return; } if (!ok) return; if (g.A.size() == 1 && g.C.empty() && phases(g, 0) > 1) return;
    for (size_t i = 0; i < m.V.size(); i++) if (d->getNi(d->getVertexById(m.V[i].id)) != r[i] * m.V[i].ph) c.fail("repetition", "repetition vector of the edited graph is wrong");
    Thr t = hsdf_throughput(g, r); for (int rep = 0; rep < 2; rep++) { TIME_UNIT v = algorithms::compute_Kperiodic_throughput_and_cycles(d, parameters_list_t()).throughput; bool good = !t.live ? v <= 1e-9 : t.unbounded ? !(v < 1e12) : close(v, 1.0L / t.period.ld()); if (!good) c.fail("throughput", "throughput of the edited graph is " + std::to_string((double)v) + ", should be " + (t.live ? t.period.str() + " (period)" : "0")); c.count("throughput_compared"); if (rep == 0) d->reset_computation(); } });
  if (!x.ok()) c.fail("analysis-error", x.err);
}
bool build_seq(const std::string& key, std::vector<std::string>& ops) { ops = split(key, '/'); return true; }
void check(Ctx& c, const std::vector<std::string>& ops) {
  c.evals(); Capture cap; Ref m; Tool T; T.d = new models::Dataflow(); bool dead = false; c.transitions(ops.size()); bool last = false;
  for (size_t k = 0; k < ops.size() && !dead; k++) { Ref before = m; ll id; last = k + 1 == ops.size(); R r = ref(m, ops[k], id); if (r == SKIP) { dead = true; break; } if (r == REJECT) m = before;
    std::string pre = last && before.locked && r == REJECT ? dump(T.d) : std::string(); bool rejected = false; std::string err; ll got = 0;
    try { got = apply(T, before, ops[k]); } catch (kv_exit_exc&) { rejected = true; } catch (std::exception& e) { rejected = true; err = e.what(); }
    if (!err.empty()) { if (last) c.fail("edit-error", ops[k] + ": " + err); dead = true; break; }
    if (r == OK && rejected) { if (last) c.fail("legal-edit-refused", ops[k] + " refused"); dead = true; }
    if (r == REJECT && !rejected) { if (last) c.fail("illegal-edit-accepted", ops[k] + " accepted"); dead = true; }
    if (r == REJECT && rejected) { if (!before.locked) { dead = true; /* the tool ends here */ c.outcome("rejected"); } else { if (last && dump(T.d) != pre) c.fail("locked-edit", ops[k] + " changed a graph whose analysis results are held"); } }
    if (r == EITHER && rejected) { dead = true; }
    if (!rejected && !dead && m.V.size() && m.V.back().id == -1) { for (size_t j = 0; j + 1 < m.V.size(); j++) if (m.V[j].id == got) c.fail("identifier", "new actor got an identifier in use"); m.V.back().id = got; }
    if (!rejected && !dead && m.E.size() && m.E.back().id == -1) { for (size_t j = 0; j + 1 < m.E.size(); j++) if (m.E[j].id == got) c.fail("identifier", "new channel got an identifier in use"); if (got <= 0) c.fail("identifier", "new channel got an unusable identifier"); m.E.back().id = got; }
  }
  if (!dead) { observe(c, T.d, m); c.outcome(std::to_string(m.V.size()) + "/" + std::to_string(m.E.size()) + (m.locked ? "L" : "") + (m.rv ? "R" : "") + (m.norm ? "N" : "")); }
  if (!dead) finalAnalysis(c, T.d, m);
  for (size_t i = 0; i < T.old.size(); i++) { if (!dead && dump(T.old[i]) != T.oldDesc[i]) c.fail("copy-shared", "editing a copy changed the original"); delete T.old[i]; } delete T.d;
}
// ---- enumeration ----
typedef std::function<std::vector<std::string>(const Ref&)> Menu;
void explore(Ctx& c, std::vector<std::string>& seq, const Ref& m, const Menu& menu, int depth) {
  if (c.take()) { std::string key; for (size_t i = 0; i < seq.size(); i++) key += (i ? "/" : "") + seq[i]; c.mark(key); c.states(1); check(c, seq); }
  if (!depth) return;
  for (auto& op : menu(m)) { Ref n = m; ll id; R r = ref(n, op, id); if (r == SKIP) continue; seq.push_back(op);
    if (r == REJECT && !m.locked) { if (c.take()) { std::string key; for (size_t i = 0; i < seq.size(); i++) key += (i ? "/" : "") + seq[i]; c.mark(key); c.states(1); check(c, seq); } }
    else { if (r == REJECT) n = m; else { ll mx = 0; for (auto& v : n.V) mx = std::max(mx, v.id); if (n.V.size() && n.V.back().id == -1) n.V.back().id = mx + 1; mx = 0; for (auto& e : n.E) mx = std::max(mx, e.id); if (n.E.size() && n.E.back().id == -1) n.E.back().id = mx + 1; } explore(c, seq, n, menu, depth - 1); }
    seq.pop_back(); }
}
std::string S(ll x) { return std::to_string(x); }
Menu structureMenu(int maxV, int maxE, bool full) { return [=](const Ref& m) { std::vector<std::string> o; auto A = [&](const std::string& s) { o.push_back(s); };
  if ((int)m.V.size() < maxV) { A("v"); A("v A"); A("v B"); A("vi 3"); if (full) { A("vi 1 A"); A("vi 5 B"); } }
  if ((int)m.E.size() < maxE) for (size_t i = 0; i < m.V.size(); i++) for (size_t j = 0; j < m.V.size(); j++) { A("e " + S(i) + " " + S(j)); if (full || i <= j) A("e " + S(i) + " " + S(j) + " x"); if (full) { A("ei " + S(i) + " " + S(j) + " 2"); A("ei " + S(i) + " " + S(j) + " 4 y"); } }
  for (size_t i = 0; i < m.V.size(); i++) { A("Vrm " + S(i)); A("Vname " + S(i) + " A"); if (full) { A("Vname " + S(i) + " -"); A("Vname " + S(i) + " C"); A("Vid " + S(i) + " 1"); } A("Vid " + S(i) + " 4"); }
  for (size_t i = 0; i < m.E.size(); i++) { A("Erm " + S(i)); A("Ename " + S(i) + " x"); if (full) { A("Ename " + S(i) + " -"); A("Eid " + S(i) + " 0"); A("Eid " + S(i) + " 1"); } A("Eid " + S(i) + " 3"); }
  A("copy"); if (full) A("assign"); if (full) A("gn g"); return o; }; }
Menu dataMenu(bool clear = false) { return [=](const Ref& m) { std::vector<std::string> o; auto A = [&](const std::string& s) { o.push_back(s); };
  for (size_t i = 0; i < m.V.size(); i++) { std::string v = S(i); for (const char* x : {"Vph # 1", "Vph # 2", "Viph # 1", "Vdur # 3", "Vdur # 1,2", "Vidur # 4", "Vre # 1", "Vre # 0", "Vmap # 2", "Vtype # k"}) { std::string s = x; s.replace(s.find('#'), 1, v); A(s); }
    if (clear) for (const char* x : {"Vph # 0", "Viph # 0", "Vdur # 0", "Vdur # 0,0", "Vidur # 0", "Vidur # -", "Vmap # 0", "Vmap # -1", "Vtype # j"}) { std::string s = x; s.replace(s.find('#'), 1, v); A(s); } }
  for (size_t i = 0; i < m.E.size(); i++) { std::string v = S(i); for (const char* x : {"Ein # 2", "Ein # 1,0", "Eout # 3", "Eout # 2,2", "Eiin # 1", "Eiout # 2", "Epre # 3", "Esize # 2", "Etype # 1", "Eroute # 1,2", "Erm #"}) { std::string s = x; s.replace(s.find('#'), 1, v); A(s); }
    if (clear) for (const char* x : {"Ein # 0", "Ein # 0,0", "Ein # 0,4", "Eout # 0", "Eout # 0,0", "Eout # 0,4", "Eiin # 0", "Eiin # -", "Eiout # 0", "Eiout # -", "Epre # 0", "Esize # 0", "Etype # 0", "Eroute # 3", "Eroute # -"}) { std::string s = x; s.replace(s.find('#'), 1, v); A(s); } }
  A("Vrm 0"); A("copy"); return o; }; }
Menu analysisMenu(bool full) { return [=](const Ref& m) { std::vector<std::string> o; auto A = [&](const std::string& s) { o.push_back(s); };
  A("rv"); A("norm"); A("thr"); A("reset"); A("copy"); if (full) A("thr1");
  for (size_t i = 0; i < m.E.size(); i++) { A("Eset " + S(i) + " 2 1 2"); A("Eset " + S(i) + " 2 2 3"); A("Erm " + S(i)); if (full || !i) { A("Eset " + S(i) + " 1 1 1"); A("Epre " + S(i) + " 0"); A("Epre " + S(i) + " 4"); A("Ein " + S(i) + " 3"); A("Eid " + S(i) + " " + S(i + 1)); A("Eid " + S(i) + " 7"); } }
  for (size_t i = 0; i < m.V.size(); i++) { A("Vrephase " + S(i) + " 2"); A("Vre " + S(i) + " 1"); if (full || !i) { A("Vdur " + S(i) + " 5"); A("Vrm " + S(i)); A("Vname " + S(i) + " C"); } }
  if (m.E.size() < 3 && m.V.size() > 1) { A("e 0 1"); A("ei 1 0 1"); } return o; }; }
void explorePrefix(Ctx& c, const std::string& prefix, const Menu& menu, int depth) { std::vector<std::string> seq = split(prefix, '/'); Ref m; for (auto& op : seq) { ll id; ref(m, op, id); ll mx = 0; for (auto& v : m.V) mx = std::max(mx, v.id); if (m.V.size() && m.V.back().id == -1) m.V.back().id = mx + 1; mx = 0; for (auto& e : m.E) mx = std::max(mx, e.id); if (m.E.size() && m.E.back().id == -1) m.E.back().id = mx + 1; } explore(c, seq, m, menu, depth); }
void run(Ctx& c) {
  int t = c.thorough ? 1 : 0; std::vector<std::string> s;
  c.note("structure edits (full menu, <=3 actors, <=3 channels), all sequences up to length " + S(4 + t)); explore(c, s, Ref(), structureMenu(3, 3, true), 4 + t);
  c.note("structure edits (reduced menu, <=3 actors, <=3 channels), all sequences up to length " + S(5 + t)); explore(c, s, Ref(), structureMenu(3, 3, false), 5 + t);
  c.note("structure edits after building 3 actors in a ring plus parallel channels, up to length " + S(3 + t)); explorePrefix(c, "v A/v B/v C/e 0 1 x/e 1 2/e 2 0 y/e 0 1/e 1 1", structureMenu(4, 6, true), 3 + t - (c.thorough ? 0 : 1));
  c.note("data edits on two actors with a channel and a self-loop, up to length " + S(3 + t)); explorePrefix(c, "v A/v B/e 0 1 x/e 0 0", dataMenu(), 3 + t);
  c.note("data edits that clear or replace values, up to length " + S(2 + t)); explorePrefix(c, "v A/v B/e 0 1 x/e 0 0", dataMenu(true), 2 + t);
  { std::string ring; for (int i = 0; i < 12; i++) ring += "v/"; for (int i = 0; i < 12; i++) ring += "e " + S(i) + " " + S((i + 1) % 12) + "/"; ring.pop_back(); c.note("structure and data edits on a ring of 12 actors, up to length 2"); explorePrefix(c, ring, structureMenu(13, 13, false), 2); explorePrefix(c, ring, dataMenu(), 2); }
  const char* two = "v A/Vph 0 1/Vdur 0 2/Vre 0 1/v B/Vph 1 1/Vdur 1 3/Vre 1 1/e 0 1 x/Eset 0 1 1 0/e 1 0/Eset 1 1 1 2";
  c.note("analyses mixed with edits on a two-actor ring, up to length " + S(3 + t) + " (full menu) and " + S(4 + t) + " (reduced menu)"); explorePrefix(c, two, analysisMenu(true), 3 + t); explorePrefix(c, two, analysisMenu(false), 4 + t);
  const char* two2 = "v A/Vph 0 2/Vdur 0 2,1/v B/Vph 1 1/Vdur 1 3/Vre 1 1/Vre 0 1/e 0 1 x/Eset 0 2 4 0/e 1 0/Eset 1 4 2 9/e 1 1 y/Eset 2 2 2 2";
  c.note("analyses mixed with edits on a two-actor multi-rate ring with a self-loop"); explorePrefix(c, two2, analysisMenu(false), 3 + t);
}
void one(Ctx& c, const std::string& key) { c.mark(key); std::vector<std::string> ops; build_seq(key, ops); check(c, ops); }
}
kv::Module kv::module{"P08", run, one, "every sequence of edit / analysis operations of the listed menus up to the stated length, executed on the real graph class and on a plain reference model; non-trivial = at least one operation", {"after a refused edit (except while analysis results are held) the tool ends the process, so nothing is claimed about the graph afterwards", "adding an actor with an explicit identifier below an existing one may be refused"}};
