#include "kiter_api.hpp"
#include "stdfam.hpp"
#include <printers/printers.h>
#include <fstream>
#include <unistd.h>
#include <cstdlib>
using namespace kv;
namespace {
std::string hexld(long double v) { char b[64]; snprintf(b, 64, "%La", v); return b; }
template <class T> std::string vs(const std::vector<T>& v) { std::ostringstream o; for (auto& x : v) o << (long long)x << ","; return o.str(); }
std::string vt(const std::vector<TIME_UNIT>& v) { std::string s; for (auto x : v) s += hexld(x) + ","; return s; }
// everything the file format is meant to keep
struct D { std::vector<std::string> head, actors, chans; std::string all() const { std::string s; for (auto* v : {&head, &actors, &chans}) for (auto& x : *v) s += x + "\n"; return s; } };
D describe(models::Dataflow* d) {
  D r; r.head.push_back("app=" + d->getAppName() + " graph=" + d->getGraphName() + " type=" + d->getGraphType());
  {ForEachVertex(d, v) { std::ostringstream o; o << "actor " << d->getVertexName(v) << " type " << d->getVertexType(v) << " phases " << d->getPhasesQuantity(v) << "/" << d->getInitPhasesQuantity(v) << " dur " << vt(d->getVertexPhaseDuration(v)) << " init " << vt(d->getVertexInitPhaseDuration(v)) << " limit " << d->getReentrancyFactor(v); r.actors.push_back(o.str()); }}
  {ForEachEdge(d, e) { std::ostringstream o; o << "channel " << d->getEdgeName(e) << " " << d->getVertexName(d->getEdgeSource(e)) << "->" << d->getVertexName(d->getEdgeTarget(e)) << " prod " << vs(d->getEdgeInitInVector(e)) << ";" << vs(d->getEdgeInVector(e)) << " cons " << vs(d->getEdgeInitOutVector(e)) << ";" << vs(d->getEdgeOutVector(e)) << " tokens " << d->getPreload(e) << " size " << d->getTokenSize(e); r.chans.push_back(o.str()); }}
  return r;
}
const char* NAMES[] = {"plain", "special", "empty-head", "digits"};
std::string an(int i, int nm) { if (nm == 1) { const char* s[] = {"a<b", "x & \"y\"", "\xc3\xa9t\xc3\xa9 'q'>", "a;b,c*2"}; return s[i % 4]; } if (nm == 3) { return std::to_string(i + 1); } return "a" + std::to_string(i); }
std::string cn(int i, int nm) { if (nm == 1) { const char* s[] = {"c<1", "&amp;", "Ra<b", "ch 3"}; return s[i % 4]; } if (nm == 3) return "R" + std::to_string(i + 1); return "c" + std::to_string(i); }
bool unit_loop(const G& g, const Chan& c) { if (c.s != c.t || c.m != 1) return false; for (auto* v : {&c.p, &c.c, &c.ip, &c.ic}) for (int x : *v) if (x != 1) return false; (void)g; return true; }
// the graph a reader has to deliver for g: a self-loop with unit rates and one token IS the concurrency limit in this file format
D expected(const G& g, int nm, int size) {
  D r; const char* h = nm == 2 ? "app= graph= type=" : nm == 1 ? "app=A&B<1> graph=g\"1\" type=csdf" : "app=app graph=g type=csdf"; r.head.push_back(h);
  std::vector<int> lim; for (auto& a : g.A) lim.push_back(a.reent); for (auto& c : g.C) if (unit_loop(g, c)) lim[c.s] = 1;
  auto times = [&](const std::vector<int>& v) { std::vector<TIME_UNIT> t; for (int x : v) t.push_back((TIME_UNIT)x / g.tden); return vt(t); };
  for (size_t i = 0; i < g.A.size(); i++) { std::ostringstream o; o << "actor " << an(i, nm) << " type " << "T" << an(i, nm) << " phases " << g.A[i].dur.size() << "/" << g.A[i].idur.size() << " dur " << times(g.A[i].dur) << " init " << times(g.A[i].idur) << " limit " << lim[i]; r.actors.push_back(o.str()); }
  for (size_t i = 0; i < g.C.size(); i++) { auto& c = g.C[i]; if (unit_loop(g, c)) continue; std::ostringstream o; o << "channel " << cn(i, nm) << " " << an(c.s, nm) << "->" << an(c.t, nm) << " prod " << vs(c.ip) << ";" << vs(c.p) << " cons " << vs(c.ic) << ";" << vs(c.c) << " tokens " << c.m << " size " << (size + (int)i * (size > 1)); r.chans.push_back(o.str()); }
  return r;
}
models::Dataflow* make(const G& g, int nm, int size, int edits) {
  models::Dataflow* d = new models::Dataflow(); if (nm != 2) { d->setAppName(nm == 1 ? "A&B<1>" : "app"); d->setGraphName(nm == 1 ? "g\"1\"" : "g"); d->setGraphType("csdf"); }
  std::vector<Vertex> v; Vertex junk; if (edits) junk = d->addVertex("junk");
  for (size_t i = 0; i < g.A.size(); i++) { Vertex x = d->addVertex(an(i, nm)); v.push_back(x); d->setVertexType(x, "T" + an(i, nm)); d->setPhasesQuantity(x, g.A[i].dur.size()); d->setInitPhasesQuantity(x, g.A[i].idur.size()); std::vector<TIME_UNIT> l, il; for (int y : g.A[i].dur) l.push_back((TIME_UNIT)y / g.tden); for (int y : g.A[i].idur) il.push_back((TIME_UNIT)y / g.tden); d->setVertexDuration(x, l); d->setVertexInitDuration(x, il); d->setReentrancyFactor(x, g.A[i].reent); }
  Edge je; bool hj = false; for (size_t i = 0; i < g.C.size(); i++) { auto& c = g.C[i]; if (edits && i == g.C.size() / 2) { je = d->addEdge(junk, v[0], "junkedge"); d->setEdgeOutPhases(je, std::vector<TOKEN_UNIT>(g.A[0].dur.size(), 1)); hj = true; }
    Edge e = d->addEdge(v[c.s], v[c.t], cn(i, nm)); d->setEdgeInPhases(e, std::vector<TOKEN_UNIT>(c.p.begin(), c.p.end())); d->setEdgeOutPhases(e, std::vector<TOKEN_UNIT>(c.c.begin(), c.c.end())); d->setEdgeInInitPhases(e, std::vector<TOKEN_UNIT>(c.ip.begin(), c.ip.end())); d->setEdgeOutInitPhases(e, std::vector<TOKEN_UNIT>(c.ic.begin(), c.ic.end())); d->setPreload(e, c.m); d->setTokenSize(e, size + (int)i * (size > 1)); }
  if (edits == 2 && hj) d->removeEdge(je); if (edits) d->removeVertex(junk);
  return d;
}
std::string scratch() { static std::string dir; if (dir.empty()) { char b[] = "/tmp/kv_P07_XXXXXX"; dir = mkdtemp(b); atexit([]() { unlink((dir + "/g.xml").c_str()); rmdir(dir.c_str()); }); } return dir + "/g.xml"; }
void diff(Ctx& c, const std::string& kind, const D& got, const D& want) {
  c.validated(); auto cmp = [&](const char* what, const std::vector<std::string>& a, const std::vector<std::string>& b) { if (a == b) return; for (size_t i = 0; i < std::max(a.size(), b.size()); i++) if (i >= a.size() || i >= b.size() || a[i] != b[i]) { c.fail(kind + "-" + what, "read: " + (i < a.size() ? a[i] : "(nothing)") + "  expected: " + (i < b.size() ? b[i] : "(nothing)")); return; } };
  cmp("head", got.head, want.head); cmp("actor", got.actors, want.actors); cmp("channel", got.chans, want.chans);
}
void roundtrip(Ctx& c, const G& g, int nm, int size, int edits, int via) {
  c.evals(); c.outcome("roundtrip " + std::to_string(g.A.size()) + "/" + std::to_string(g.C.size()));
  D want = expected(g, nm, size); models::Dataflow* d = make(g, nm, size, edits); models::Dataflow* e = nullptr; std::string xml, xml2; D got, orig = describe(d);
  Run x = guarded([&]() {
    if (via == 0) { xml = printers::generateSDF3XML(d); e = printers::parseSDF3XML(xml); }
    else if (via == 1) { printers::writeSDF3File(scratch(), d); e = printers::readSDF3File(scratch()); }
    else { Run y = algo("PrintXML", d); xml = y.out; e = printers::parseSDF3XML(xml); }
    if (!e) return; got = describe(e); if (via == 0 && !edits) { models::Dataflow* f = nullptr; xml2 = printers::generateSDF3XML(e); f = printers::parseSDF3XML(xml2); D again = describe(f); if (again.all() != got.all()) c.fail("second-roundtrip", "differs from the first"); delete f; } });
  if (!x.ok()) { c.fail("roundtrip-error", x.err); delete d; return; } if (!e) { c.fail("roundtrip-error", "own output not readable"); delete d; return; }
  diff(c, "roundtrip", got, want);
  if (describe(d).all() != orig.all()) c.fail("write-modifies", "writing changed the graph");
  bool hasInit = false; for (auto& a : g.A) if (a.idur.size()) hasInit = true;
  if (!hasInit) { bool c1 = false, c2 = false; Run y = guarded([&]() { c1 = computeRepetitionVector(d); c2 = computeRepetitionVector(e); if (c1 && c2) for (size_t i = 0; i < g.A.size(); i++) if (d->getNi(d->getVertexByName(an(i, nm))) != e->getNi(e->getVertexByName(an(i, nm)))) { bool lone = true; for (auto& ch : g.C) if ((ch.s == (int)i) != (ch.t == (int)i) || (ch.s == (int)i && !unit_loop(g, ch))) lone = false; int nc; wcc(g, &nc); if (!lone && nc == 1) c.fail("repetition", "repetition vector differs after reading"); } }); if (!y.ok()) c.fail("repetition-error", y.err); if (c1 != c2) c.fail("repetition", "consistency differs after reading"); }
  delete d; delete e;
}
// ---- files written by others ----
enum { COMPRESS = 1, REVATTR = 2, CHANFIRST = 4, OMIT0 = 8, SPACES = 16, EXTRAS = 32, PORTSREV = 64, REVPROPS = 128, NBITS = 8 };
std::string esc(const std::string& s) { std::string r; for (char ch : s) { if (ch == '<') r += "&lt;"; else if (ch == '>') r += "&gt;"; else if (ch == '&') r += "&amp;"; else if (ch == '"') r += "&quot;"; else r += ch; } return r; }
std::string lst(const std::vector<std::string>& v, bool comp) { std::string s; for (size_t i = 0; i < v.size();) { size_t j = i; while (comp && j < v.size() && v[j] == v[i]) j++; if (!comp) j = i + 1; if (s.size()) s += ","; if (comp && (j - i > 1 || i % 2)) s += std::to_string(j - i) + "*" + v[i]; else s += v[i]; i = j; } return s; }
std::string lst(const std::vector<int>& v, bool comp) { std::vector<std::string> t; for (int x : v) t.push_back(std::to_string(x)); return lst(t, comp); }
std::string tim(const G& g, const std::vector<int>& v, bool comp) { std::vector<std::string> t; for (int x : v) { if (x % g.tden == 0) t.push_back(std::to_string(x / g.tden)); else { char b[64]; snprintf(b, 64, "%.10g", (double)x / g.tden); t.push_back(b); } } return lst(t, comp); }
std::string elem(const std::string& name, std::vector<std::pair<std::string, std::string>> at, int o, const std::string& body = "") { if (o & REVATTR) std::reverse(at.begin(), at.end()); std::string sp = (o & SPACES) ? "\n   " : " ", s = "<" + name; for (auto& a : at) s += sp + a.first + ((o & SPACES) ? " = '" : "=\"") + esc(a.second) + ((o & SPACES) ? "'" : "\""); std::string nl = (o & SPACES) ? "\n\t" : ""; return s + (body.empty() && !(o & SPACES) ? "/>" : ">" + nl + body + nl + "</" + name + ">" + nl); }
std::string xmlfile(const G& g, int nm, int size, int o) {
  bool C = o & COMPRESS, sdf = true; for (auto& a : g.A) if (a.dur.size() > 1 || a.idur.size()) sdf = false; std::string tag = sdf && (o & EXTRAS) ? "sdf" : "csdf";
  auto rate = [&](const std::vector<int>& i, const std::vector<int>& p) { return (i.size() ? lst(i, C) + ";" : "") + lst(p, C); };
  std::string actors, chans, props;
  for (size_t a = 0; a < g.A.size(); a++) { std::vector<std::string> ports;
    for (size_t i = 0; i < g.C.size(); i++) { if (g.C[i].t == (int)a) ports.push_back(elem("port", {{"type", "in"}, {"name", "p" + std::to_string(i)}, {"rate", rate(g.C[i].ic, g.C[i].c)}}, o)); if (g.C[i].s == (int)a) ports.push_back(elem("port", {{"name", "q" + std::to_string(i)}, {"type", "out"}, {"rate", rate(g.C[i].ip, g.C[i].p)}}, o)); }
    if (g.A[a].reent) { std::vector<int> u(g.A[a].dur.size(), 1), ui(g.A[a].idur.size(), 1); ports.push_back(elem("port", {{"type", "out"}, {"name", "self_out"}, {"rate", rate(ui, u)}}, o)); ports.push_back(elem("port", {{"type", "in"}, {"name", "self_in"}, {"rate", rate(ui, u)}}, o)); }
    if (o & PORTSREV) std::reverse(ports.begin(), ports.end());
    std::string body; if (o & EXTRAS) body += "<!-- ports -->"; for (auto& p : ports) body += p; actors += elem("actor", {{"name", an(a, nm)}, {"type", "T" + an(a, nm)}}, o, body);
    std::string pr = elem("actorProperties", {{"actor", an(a, nm)}}, o, ((o & EXTRAS) ? "<!-- x --><memory><stateSize max=\"1\"/></memory>" : "") + elem("processor", {{"type", "cluster_0"}, {"default", "true"}}, o, elem("executionTime", {{"time", (g.A[a].idur.size() ? tim(g, g.A[a].idur, C) + ";" : "") + tim(g, g.A[a].dur, C)}}, o)));
    if (o & REVPROPS) props = pr + props; else props += pr; }
  for (size_t i = 0; i < g.C.size(); i++) { std::vector<std::pair<std::string, std::string>> at{{"name", cn(i, nm)}, {"srcActor", an(g.C[i].s, nm)}, {"srcPort", "q" + std::to_string(i)}, {"dstActor", an(g.C[i].t, nm)}, {"dstPort", "p" + std::to_string(i)}}; int sz = size + (int)i * (size > 1); if (!(o & OMIT0) || sz != 1) at.push_back({"size", std::to_string(sz)}); if (!(o & OMIT0) || g.C[i].m) at.push_back({"initialTokens", std::to_string(g.C[i].m)}); chans += elem("channel", at, o); }
  for (size_t a = 0; a < g.A.size(); a++) if (g.A[a].reent) { std::string l = elem("channel", {{"name", "loop" + std::to_string(a)}, {"srcActor", an(a, nm)}, {"srcPort", "self_out"}, {"dstActor", an(a, nm)}, {"dstPort", "self_in"}, {"initialTokens", "1"}}, o); if (o & PORTSREV) chans = l + chans; else chans += l; }
  std::string head = nm == 1 ? "A&B<1>" : "app", gn = nm == 1 ? "g\"1\"" : "g";
  std::string inner = elem(tag, {{"name", gn}, {"type", "csdf"}}, o, (o & CHANFIRST) ? chans + actors : actors + chans) + elem(tag + "Properties", {}, o, props + ((o & EXTRAS) ? "<channelProperties channel=\"c0\"/><graphProperties><timeConstraints/></graphProperties>" : ""));
  return std::string("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n") + elem("sdf3", {{"type", tag}, {"version", "1.0"}}, o, elem("applicationGraph", {{"name", head}}, o, inner));
}
void readfile(Ctx& c, const G& g, int nm, int size, int o, int via) {
  c.evals(); c.outcome("read " + std::to_string(o & 7)); G h = g; D want = expected(h, nm, size); // decimal fractions in the file: expected value is the parsed decimal
  std::string xml = xmlfile(g, nm, size, o); models::Dataflow* e = nullptr; D got;
  Run x = guarded([&]() { if (via) { std::ofstream f(scratch()); f << xml; f.close(); e = printers::readSDF3File(scratch()); } else e = printers::parseSDF3XML(xml); if (e) got = describe(e); });
  if (!x.ok()) { c.fail("read-error", x.err); return; } if (!e) { c.fail("read-error", "file refused"); return; }
  diff(c, "read", got, want); delete e;
}
void dispatch(Ctx& c, const std::string& mode, int nm, int size, int x, int via, const G& g) { if (mode == "W") roundtrip(c, g, nm, size, x, via); else readfile(c, g, nm, size, x, via); }
void go(Ctx& c, const std::string& mode, int nm, int size, int x, int via, const G& g) { if (!c.take()) return; c.mark(mode + "!" + std::to_string(nm) + "!" + std::to_string(size) + "!" + std::to_string(x) + "!" + std::to_string(via) + "!" + g.key()); c.states(1); c.transitions(1); dispatch(c, mode, nm, size, x, via, g); }
void one(Ctx& c, const std::string& key) { c.mark(key); std::vector<std::string> p; std::stringstream s(key); std::string e; while (p.size() < 5 && std::getline(s, e, '!')) p.push_back(e); std::getline(s, e); dispatch(c, p[0], std::stoi(p[1]), std::stoi(p[2]), std::stoi(p[3]), std::stoi(p[4]), G::parse(e)); }
// all graphs of a family, with every combination of initial phases from `inits` per actor (initial rates follow a fixed pattern per channel)
void graphs(int n, const std::vector<Topo>& topos, const std::vector<int>& ph, const std::vector<int>& iph, const std::vector<int>& tok, const std::vector<int>& re, int tden, int pat, std::function<void(const G&)> f) {
  for (auto& tp : topos) for (auto& pc : tuples(n, ph)) for (auto& ip : tuples(n, iph)) for (auto& rr : tuples(n, re)) for (auto& tk : tuples(tp.size(), tok)) for (int p = 0; p < pat; p++) {
    G g; g.tden = tden; g.A.resize(n); g.C.resize(tp.size());
    static const int DP[3][6] = {{1, 1, 1, 1, 1, 1}, {3, 3, 7, 1, 7, 7}, {0, 12345679, 5, 0, 1, 2}};
    for (int a = 0; a < n; a++) { for (int k = 0; k < pc[a]; k++) g.A[a].dur.push_back(DP[p % 3][(k + a) % 6]); for (int k = 0; k < ip[a]; k++) g.A[a].idur.push_back(DP[p % 3][(k + a + 2) % 6]); g.A[a].reent = rr[a]; }
    static const int RP[4][6] = {{1, 1, 1, 1, 1, 1}, {2, 2, 0, 1, 1, 3}, {0, 1, 0, 12, 12, 12}, {5, 5, 5, 0, 0, 1000000}};
    for (size_t i = 0; i < tp.size(); i++) { auto& c = g.C[i]; c.s = tp[i].first; c.t = tp[i].second; c.m = tk[i]; auto fill = [&](std::vector<int>& v, int len, int q) { for (int k = 0; k < len; k++) v.push_back(RP[q % 4][k % 6]); bool z = true; for (int x : v) if (x) z = false; if (z && len) v[len - 1] = 1; }; fill(c.p, pc[c.s], p + i); fill(c.c, pc[c.t], p + i + (p > 3)); auto fi = [&](std::vector<int>& v, int len, int q) { for (int k = 0; k < len; k++) v.push_back(RP[q % 4][(k + 1) % 6]); }; fi(c.ip, ip[c.s], p + i); fi(c.ic, ip[c.t], p); }
    f(g); }
}
void run(Ctx& c) {
  bool T = c.thorough; auto t1 = topologies(1, 0, 2, true, 2, true, false), t2 = topologies(2, 0, T ? 3 : 2, true, 2, false, false), t3 = topologies(3, 2, 3, false, 1, false, true);
  auto W = [&](int nm, int size, int ed, int via) { return [&c, nm, size, ed, via](const G& g) { go(c, "W", nm, size, ed, via, g); }; };
  c.note("round trip: 1 actor, 0..2 self-loops, phases 1..6, initial phases 0..3, concurrency limit on/off, rate/duration patterns"); graphs(1, t1, {1, 2, 3, 4, 6}, {0, 1, 2, 3}, {0, 1, 2, 7}, {0, 1}, 1, 6, W(0, 1, 0, 0));
  c.note("round trip: fractional times (halves, thirds, sevenths, 1000ths)"); for (int td : {2, 3, 7, 1000}) graphs(1, t1, {1, 2, 3}, {0, 2}, {0, 1}, {0, 1}, td, 3, W(0, 1, 0, 0));
  c.note("round trip: 2 actors, 0..2 (3 thorough) channels"); graphs(2, t2, {1, 2}, {0, 1}, {0, 1, 3}, {0, 1}, 1, T ? 6 : 4, W(0, 8, 0, 0));
  c.note("round trip: special characters, empty head, digit names"); for (int nm = 1; nm <= 3; nm++) graphs(2, t2, {1, 2}, {0}, {0, 1}, {0, 1}, 1, 2, W(nm, 1, 0, 0));
  c.note("round trip after removing an actor and a channel"); for (int ed = 1; ed <= 2; ed++) graphs(2, t2, {1, 3}, {0}, {0, 2}, {0, 1}, 1, 2, W(0, 1, ed, 0));
  c.note("round trip through a file and through the PrintXML command"); for (int via = 1; via <= 2; via++) graphs(2, topologies(2, 0, 2, true, 1, true, false), {1, 2}, {0, 1}, {0, 1}, {0, 1}, 4, 3, W(0, 1, 0, via));
  c.note("round trip: 3 actors, 2..3 channels"); graphs(3, t3, {1, 2}, {0, 1}, {0, 1}, {0, 1}, 1, T ? 3 : 1, W(0, 1, 0, 0));
  large_families(T ? 1 : 0, [&](const Family& f) { c.note("round trip: " + f.name); for (auto& g : f.list) { W(0, 1, 0, 0)(g); W(2, 3, 1, 2)(g); } });
  c.note("reading: every combination of 8 presentation choices (compressed lists, attribute/port/element order, omitted defaults, white space, extra elements) on 1 and 2 actor graphs");
  for (int o = 0; o < (1 << NBITS); o++) { auto R = [&](int nm, int size, int via) { return [&c, o, nm, size, via](const G& g) { go(c, "R", nm, size, o, via, g); }; };
    graphs(1, topologies(1, 0, 1, true, 1, true, false), {1, 2, 3, 6}, {0, 2}, {0, 1}, {0, 1}, 4, 4, R(0, 1, 0)); graphs(2, topologies(2, 1, 2, true, 1, true, true), {1, 3}, {0, 1}, {0, 1}, {0, 1}, 1, T ? 4 : 1, R(0, 1, 0)); graphs(2, {{{0, 1}, {1, 0}}}, {1, 2}, {0}, {0, 5}, {0, 1}, 2, 2, R(1, 4, 0)); graphs(2, {{{0, 1}, {1, 1}}}, {2}, {0}, {0, 1}, {1}, 1, 2, R(0, 1, 1)); }
}
}
kv::Module kv::module{"P07", run, one, "every graph of the listed families is written and read back (and files in every presentation variant are read), then compared element by element with the graph they describe", {"concurrency limit none or one (a self-loop with unit rates and one token is the file representation of limit one)", "actor and channel names distinct and non-empty"}};
