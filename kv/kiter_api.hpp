// Bridge to the code under test.
#pragma once
#include "framework.hpp"
#include "families.hpp"
#include <models/Dataflow.h>
#include <models/repetition_vector.h>
#include <commons/KiterRegistry.h>
#include <algorithms/algorithms.h>
#include <iostream>
#include <sstream>
#include <regex>
namespace kv {
struct BuildOpt { bool names = true; std::vector<int> actorOrder, chanOrder; };
inline std::string aname(int i) { return "a" + std::to_string(i); }
inline std::string cname(int i) { return "c" + std::to_string(i); }
inline models::Dataflow* build(const G& g, const std::vector<int>* aord = nullptr, const std::vector<int>* cord = nullptr) {
  models::Dataflow* d = new models::Dataflow(); d->setGraphName("g"); d->setAppName("app"); d->setGraphType("csdf"); std::vector<Vertex> v(g.A.size());
  for (size_t k = 0; k < g.A.size(); k++) { int i = aord ? (*aord)[k] : k; v[i] = d->addVertex(aname(i)); d->setPhasesQuantity(v[i], g.A[i].dur.size()); std::vector<TIME_UNIT> l, il; for (int x : g.A[i].dur) l.push_back((TIME_UNIT)x / g.tden); for (int x : g.A[i].idur) il.push_back((TIME_UNIT)x / g.tden); d->setVertexDuration(v[i], l); d->setInitPhasesQuantity(v[i], il.size()); d->setVertexInitDuration(v[i], il); d->setReentrancyFactor(v[i], g.A[i].reent); d->setVertexType(v[i], aname(i)); }
  auto sc = [&](const std::vector<int>& v) { std::vector<TOKEN_UNIT> r; for (int x : v) r.push_back((TOKEN_UNIT)x * g.tok); return r; };
  for (size_t k = 0; k < g.C.size(); k++) { int i = cord ? (*cord)[k] : k; const Chan& c = g.C[i]; Edge e = d->addEdge(v[c.s], v[c.t], cname(i)); d->setEdgeInPhases(e, sc(c.p)); d->setEdgeOutPhases(e, sc(c.c)); d->setEdgeInInitPhases(e, sc(c.ip)); d->setEdgeOutInitPhases(e, sc(c.ic)); d->setPreload(e, (TOKEN_UNIT)c.m * g.tok); d->setTokenSize(e, 1); d->setEdgeInputPortName(e, "in_" + cname(i)); d->setEdgeOutputPortName(e, "out_" + cname(i)); }
  return d;
}
inline G readG(models::Dataflow* d) { G g; std::map<long, int> at; {ForEachVertex(d, v) { at[d->getVertexId(v)] = g.A.size(); Actor a; a.reent = d->getReentrancyFactor(v); for (int k = 1; k <= (int)d->getPhasesQuantity(v); k++) a.dur.push_back((int)d->getVertexDuration(v, k)); auto id = d->getVertexInitPhaseDuration(v); for (auto t : id) a.idur.push_back((int)t); if ((int)a.idur.size() != (int)d->getInitPhasesQuantity(v)) throw std::runtime_error("initial durations do not match the initial phases"); g.A.push_back(a); }}
  {ForEachEdge(d, e) { Chan c; c.s = at.at(d->getVertexId(d->getEdgeSource(e))); c.t = at.at(d->getVertexId(d->getEdgeTarget(e))); auto ps = d->getPhasesQuantity(d->getEdgeSource(e)), pt = d->getPhasesQuantity(d->getEdgeTarget(e)); for (auto x : d->getEdgeInVector(e)) c.p.push_back((int)x); for (auto x : d->getEdgeOutVector(e)) c.c.push_back((int)x); for (auto x : d->getEdgeInitInVector(e)) c.ip.push_back((int)x); for (auto x : d->getEdgeInitOutVector(e)) c.ic.push_back((int)x); if (c.p.size() != (size_t)ps || c.c.size() != (size_t)pt || c.ip.size() != g.A[c.s].idur.size() || c.ic.size() != g.A[c.t].idur.size()) throw std::runtime_error("rate vectors do not match the phases"); c.m = (int)d->getPreload(e); g.C.push_back(c); }} return g; }
// repetition vector (in phase cycles) as the tool sees it: identical to r for connected graphs, for disconnected ones the per-component factor is the tool's choice (checked by P01)
inline std::vector<ll> tool_r(const G& g, const std::vector<ll>& r) { int nc; wcc(g, &nc); if (nc <= 1) return r; models::Dataflow* d = build(g); std::vector<ll> R; if (computeRepetitionVector(d)) for (size_t a = 0; a < g.A.size(); a++) R.push_back(d->getNi(d->getVertexByName(aname(a))) / g.A[a].dur.size()); delete d; for (size_t i = 0; i < R.size(); i++) if (R[i] <= 0) return {}; return R; }
struct Capture { std::stringstream ss; std::streambuf* old; std::ios::fmtflags f; std::streamsize p; Capture() : old(std::cout.rdbuf(ss.rdbuf())) { f = std::cout.flags(); p = std::cout.precision(); } ~Capture() { std::cout.rdbuf(old); std::cout.flags(f); std::cout.precision(p); } std::string str() { return ss.str(); } };
struct Run { std::string out; int status = 0; std::string err; bool ok() const { return status == 0; } }; // status: 0 ok, 1 assertion/exit, 2 exception
template <class F> inline Run guarded(F f) { Run r; Capture c; try { f(); } catch (kv_exit_exc& e) { r.status = 1; r.err = "assertion/exit(" + std::to_string(e.code) + ")"; } catch (std::exception& e) { r.status = 2; r.err = std::string("exception ") + e.what(); } catch (std::runtime_error* e) { r.status = 1; r.err = std::string("assertion ") + e->what(); delete e; } r.out = c.str(); return r; }
inline Run algo(const std::string& name, models::Dataflow* d, parameters_list_t p = parameters_list_t()) {
  auto* t = KiterRegistry<transformation_t>::get(name); if (!t) { Run r; r.status = 3; r.err = "algorithm " + name + " not registered"; return r; }
  return guarded([&]() { t->fun(d, p); });
}
// last number following `label` in the text
inline bool number_after(const std::string& out, const std::string& label, long double& v) {
  size_t k = out.rfind(label); if (k == std::string::npos) return false; k += label.size(); while (k < out.size() && (out[k] == ' ' || out[k] == ':' || out[k] == '=' || out[k] == '\t')) k++;
  const char* s = out.c_str() + k; char* e; v = strtold(s, &e); return e != s;
}
inline bool close(long double a, long double b, long double rel = 1e-6L) { if (a == b) return true; if (std::isnan((double)a) || std::isnan((double)b)) return false; if (std::isinf((double)a) || std::isinf((double)b)) return false; long double m = std::max(std::fabs((double)a), std::fabs((double)b)); return std::fabs((double)(a - b)) <= rel * m; }
} // namespace kv
