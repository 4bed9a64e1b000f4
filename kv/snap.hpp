// Textual picture of everything a graph holds, by actor and channel identifier.
#pragma once
#include "kiter_api.hpp"
namespace kv {
template <class L> std::string T(const L& l) { std::ostringstream o; for (auto& x : l) o << x << ","; return o.str(); }
struct Snap { std::map<long, std::string> act, chan; std::map<long, std::string> actName; std::map<long, long> reent; };
inline std::string actorText(models::Dataflow* d, Vertex v, bool reent = true) { std::ostringstream o; o << d->getVertexName(v) << " " << d->getVertexType(v) << " phases " << d->getPhasesQuantity(v) << ": " << T(d->getVertexPhaseDuration(v)) << " init " << T(d->getVertexInitPhaseDuration(v)); if (reent) o << " reentrancy " << d->getReentrancyFactor(v); return o.str(); }
inline std::string chanText(models::Dataflow* d, Edge e) { std::ostringstream o; o << d->getEdgeName(e) << " " << d->getVertexId(d->getEdgeSource(e)) << "->" << d->getVertexId(d->getEdgeTarget(e)) << " in " << T(d->getEdgeInVector(e)) << " out " << T(d->getEdgeOutVector(e)) << " iin " << T(d->getEdgeInitInVector(e)) << " iout " << T(d->getEdgeInitOutVector(e)) << " tokens " << d->getPreload(e) << " size " << d->getTokenSize(e) << " " << d->getEdgeInputPortName(e) << " " << d->getEdgeOutputPortName(e); return o.str(); }
inline Snap snap(models::Dataflow* d, bool reent = true) { Snap s; {ForEachVertex(d, v) { s.act[d->getVertexId(v)] = actorText(d, v, reent); s.actName[d->getVertexId(v)] = d->getVertexName(v); s.reent[d->getVertexId(v)] = d->getReentrancyFactor(v); }} {ForEachEdge(d, e) { s.chan[d->getEdgeId(e)] = chanText(d, e); }} return s; }
inline std::string diff(const std::map<long, std::string>& a, const std::map<long, std::string>& b) { for (auto& x : a) { auto it = b.find(x.first); if (it == b.end()) return "lost: " + x.second; if (it->second != x.second) return "'" + x.second + "' became '" + it->second + "'"; } for (auto& x : b) if (!a.count(x.first)) return "added: " + x.second; return ""; }
inline Snap fullSnap(models::Dataflow* d) { Snap s = snap(d); {ForEachVertex(d, v) { s.act[d->getVertexId(v)] += " on " + std::to_string(d->getMapping(v)); }} {ForEachEdge(d, e) { s.chan[d->getEdgeId(e)] += " route " + T(d->getRoute(e)) + " kind " + std::to_string((int)d->getEdgeType(e)); }} s.act[-1] = d->getGraphName() + "|" + d->getAppName() + "|" + d->getGraphType(); return s; }
}
