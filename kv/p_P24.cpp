// Reports and generated construction code show the graph as it is.
#include "snap.hpp"
#include "stdfam.hpp"
#include "oracle.hpp"
#include <models/NoC.h>
#include <models/Scheduling.h>
#include <printers/stdout.h>
#include <fstream>
#include <array>
#include <cmath>
#include <unistd.h>
using namespace kv;
namespace {
// ---- construction code: executed statement by statement
struct Script {
  models::Dataflow* d = nullptr; bool returned = false; std::map<std::string, Vertex> v; std::map<std::string, Edge> e; std::string graphVar, bad;
  static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\r\n"); if (a == s.npos) return ""; size_t b = s.find_last_not_of(" \t\r\n"); return s.substr(a, b - a + 1); }
  static std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; int dep = 0; bool q = false; std::string cur; for (size_t i = 0; i < s.size(); i++) { char ch = s[i]; if (q) { cur += ch; if (ch == '\\' && i + 1 < s.size()) cur += s[++i]; else if (ch == '"') q = false; continue; } if (ch == '"') q = true; if (ch == '(' || ch == '{') dep++; if (ch == ')' || ch == '}') dep--; if (ch == ',' && !dep) { r.push_back(trim(cur)); cur = ""; } else cur += ch; } if (!trim(cur).empty() || !r.empty()) r.push_back(trim(cur)); return r; }
  static std::string str(const std::string& a) { if (a.size() < 2 || a[0] != '"') throw std::string("not a text: " + a); std::string r; for (size_t i = 1; i + 1 < a.size(); i++) { if (a[i] == '\\') i++; r += a[i]; } return r; }
  static std::vector<std::string> list(const std::string& a) { std::string b = trim(a); if (b.empty() || b[0] != '{') throw std::string("not a list: " + a); return split(b.substr(1, b.size() - 2)); }
  template <class N> static std::vector<N> nums(const std::string& a) { std::vector<N> r; for (auto& x : list(a)) { char* q; long double z = strtold(x.c_str(), &q); if (*q && *q != 'L' && *q != 'l') throw std::string("not a number: " + x); r.push_back((N)z); } return r; }
  static long integer(const std::string& a) { char* q; long x = strtol(a.c_str(), &q, 10); if (q == a.c_str() || (*q && *q != 'L')) throw std::string("not a number: " + a); return x; }
  std::string method(const std::string& s, std::vector<std::string>& args) { size_t k = s.find("->"), o = s.find('('), c = s.rfind(')'); if (k == s.npos || o == s.npos || c == s.npos || trim(s.substr(0, k)) != graphVar || graphVar.empty() || !trim(s.substr(c + 1)).empty()) throw std::string("unknown statement: " + s); args = split(s.substr(o + 1, c - o - 1)); return trim(s.substr(k + 2, o - k - 2)); }
  Vertex vertex(const std::string& a) { if (v.count(a)) return v[a]; std::vector<std::string> p; std::string m = method(a, p); if (m == "getVertexById" && p.size() == 1) return d->getVertexById(integer(p[0])); if (m == "getVertexByName" && p.size() == 1) return d->getVertexByName(str(p[0])); throw std::string("unknown actor: " + a); }
  Edge edge(const std::string& a) { if (e.count(a)) return e[a]; throw std::string("unknown channel: " + a); }
  void stmt(std::string s) { s = trim(s); if (s.empty() || s.compare(0, 9, "std::cout") == 0) return; if (returned) throw std::string("statement after return"); if (s.compare(0, 6, "return") == 0) { if (trim(s.substr(6)) != graphVar) throw std::string("returns something else: " + s); returned = true; return; } std::string var, rhs = s; size_t eq = s.find('='); size_t par = s.find('('); if (eq != s.npos && (par == s.npos || eq < par)) { var = trim(s.substr(0, eq)); size_t sp = var.find_last_of(" *&"); if (sp != var.npos) var = var.substr(sp + 1); rhs = trim(s.substr(eq + 1)); }
    if (rhs.compare(0, 4, "new ") == 0) { if (rhs.find("models::Dataflow") == rhs.npos || d) throw std::string("unknown statement: " + s); d = new models::Dataflow(); graphVar = var; return; } if (!d) throw std::string("no graph yet: " + s); std::vector<std::string> a; std::string m = method(rhs, a); size_t n = a.size();
    if (m == "addVertex") { Vertex x = n == 0 ? d->addVertex() : n == 1 && a[0][0] == '"' ? d->addVertex(str(a[0])) : n == 1 ? d->addVertex(integer(a[0])) : d->addVertex(integer(a[0]), str(a[1])); v.erase(var); v.insert({var, x}); }
    else if (m == "addEdge") { Edge x = n == 2 ? d->addEdge(vertex(a[0]), vertex(a[1])) : a[2][0] == '"' ? d->addEdge(vertex(a[0]), vertex(a[1]), str(a[2])) : n == 3 ? d->addEdge(vertex(a[0]), vertex(a[1]), integer(a[2])) : d->addEdge(vertex(a[0]), vertex(a[1]), integer(a[2]), str(a[3])); e.erase(var); e.insert({var, x}); }
    else if (m == "setVertexName") d->setVertexName(vertex(a.at(0)), str(a.at(1))); else if (m == "setVertexType") d->setVertexType(vertex(a.at(0)), str(a.at(1))); else if (m == "setInitPhasesQuantity") d->setInitPhasesQuantity(vertex(a.at(0)), integer(a.at(1))); else if (m == "setPhasesQuantity") d->setPhasesQuantity(vertex(a.at(0)), integer(a.at(1))); else if (m == "setReentrancyFactor") d->setReentrancyFactor(vertex(a.at(0)), integer(a.at(1))); else if (m == "setVertexInitDuration") d->setVertexInitDuration(vertex(a.at(0)), nums<TIME_UNIT>(a.at(1))); else if (m == "setVertexDuration") d->setVertexDuration(vertex(a.at(0)), nums<TIME_UNIT>(a.at(1)));
    else if (m == "setEdgeInInitPhases") d->setEdgeInInitPhases(edge(a.at(0)), nums<TOKEN_UNIT>(a.at(1))); else if (m == "setEdgeOutInitPhases") d->setEdgeOutInitPhases(edge(a.at(0)), nums<TOKEN_UNIT>(a.at(1))); else if (m == "setEdgeInPhases") d->setEdgeInPhases(edge(a.at(0)), nums<TOKEN_UNIT>(a.at(1))); else if (m == "setEdgeOutPhases") d->setEdgeOutPhases(edge(a.at(0)), nums<TOKEN_UNIT>(a.at(1))); else if (m == "setPreload") d->setPreload(edge(a.at(0)), integer(a.at(1))); else if (m == "setEdgeName") d->setEdgeName(edge(a.at(0)), str(a.at(1))); else if (m == "setTokenSize") d->setTokenSize(edge(a.at(0)), integer(a.at(1))); else if (m == "setEdgeInputPortName") d->setEdgeInputPortName(edge(a.at(0)), str(a.at(1))); else if (m == "setEdgeOutputPortName") d->setEdgeOutputPortName(edge(a.at(0)), str(a.at(1))); else if (m == "setGraphName") d->setGraphName(str(a.at(0))); else if (m == "setGraphType") d->setGraphType(str(a.at(0))); else if (m == "setAppName") d->setAppName(str(a.at(0))); else throw std::string("unknown statement: " + s); }
  void exec(const std::string& text) { // comments away, then the body between the outermost braces
    std::string t; std::istringstream in(text); std::string l; while (std::getline(in, l)) { bool q = false; for (size_t i = 0; i < l.size(); i++) { if (l[i] == '\\' && q) { i++; continue; } if (l[i] == '"') q = !q; if (!q && l[i] == '/' && i + 1 < l.size() && l[i + 1] == '/') { l = l.substr(0, i); break; } } t += l + "\n"; } size_t a = t.find('{'), b = t.rfind('}'); if (a == t.npos || b == t.npos || a >= b) throw std::string("no function body"); if (t.substr(0, a).find("generateGraph") == t.npos) throw std::string("no function"); std::string body = t.substr(a + 1, b - a - 1), cur; bool q = false; int lists = 0; int blocks = 0; for (size_t i = 0; i < body.size(); i++) { char ch = body[i]; if (q) { cur += ch; if (ch == '\\' && i + 1 < body.size()) cur += body[++i]; else if (ch == '"') q = false; continue; } if (ch == '"') { q = true; cur += ch; continue; } if (ch == '{') { if (trim(cur).empty() && !lists) { blocks++; continue; } lists++; } if (ch == '}') { if (lists) lists--; else { if (!trim(cur).empty()) throw std::string("unterminated statement: " + cur); if (--blocks < 0) throw std::string("braces"); v.clear(); e.clear(); continue; } } if (ch == ';') { stmt(cur); cur = ""; continue; } cur += ch; } if (blocks || !trim(cur).empty()) throw std::string("unterminated code"); }
};
void code(Ctx& c, const G& g, int opt) { c.evals(); auto* d = build(g); if (opt & 2) { d->removeVertex(d->getVertexByName(aname(0))); } parameters_list_t p; if (opt & 1) p["verbose"] = "1"; Run r = algo("PrintKiter", d, p); if (!r.ok()) { c.fail("code-error", r.err); delete d; return; } Script s; Run q = guarded([&]() { try { s.exec(r.out); } catch (std::string& m) { s.bad = m; } catch (std::out_of_range&) { s.bad = "missing argument or unknown identifier"; } }); c.validated(); c.states(1); if (!q.ok()) s.bad = q.err; if (s.bad.empty() && !s.returned) s.bad = "the function does not return the graph"; if (!s.bad.empty()) { c.fail("code", s.bad); delete s.d; delete d; return; }
  auto strip = [](models::Dataflow* d) { std::map<long, std::string> a; std::multiset<std::string> b; {ForEachVertex(d, v) { std::ostringstream o; o << d->getVertexName(v) << " " << d->getPhasesQuantity(v) << " " << d->getReentrancyFactor(v) << " "; o.precision(21); o << T(d->getVertexInitPhaseDuration(v)); for (auto x : d->getVertexPhaseDuration(v)) o << x << ","; o << ":"; for (auto x : d->getVertexInitPhaseDuration(v)) o << x << ","; a[d->getVertexId(v)] = o.str(); }} {ForEachEdge(d, e) { std::ostringstream o; o << d->getEdgeName(e) << " " << d->getVertexId(d->getEdgeSource(e)) << ">" << d->getVertexId(d->getEdgeTarget(e)) << " " << T(d->getEdgeInVector(e)) << T(d->getEdgeOutVector(e)) << T(d->getEdgeInitInVector(e)) << T(d->getEdgeInitOutVector(e)) << d->getPreload(e); b.insert(o.str()); }} return std::make_pair(a, b); };
  auto w = strip(d), h = strip(s.d); c.transitions(w.second.size()); std::string e = diff(w.first, h.first); if (e.empty() && w.second != h.second) { for (auto& x : w.second) if (!h.second.count(x)) e += " lost " + x; for (auto& x : h.second) if (!w.second.count(x)) e += " got " + x; } if (!e.empty()) c.fail("code-graph", e); delete s.d; delete d; c.outcome("code"); }
// ---- tables
std::vector<std::string> fields(const std::string& l) { std::vector<std::string> r; std::string t = l; for (char& ch : t) if (ch == '(' || ch == ')') ch = ' '; std::istringstream in(t); std::string w; while (in >> w) r.push_back(w); return r; }
void table(Ctx& c, const G& g, int opt) { c.evals(); auto* d = build(g); if (opt & 1) { int i = 0; ForEachVertex(d, v) { d->setMapping(v, 7 + i++); } int j = 0; ForEachEdge(d, e) { route_t rt; for (int q = 0; q < j % 3; q++) rt.push_back(11 * j + q); d->setRoute(e, rt); j++; } } if (opt & 2) { d->removeVertex(d->getVertexByName(aname(0))); }
  std::vector<std::vector<std::string>> wt, wc; bool cons = false; ll nt = 0, ph = 0, qt = 0; { auto* f = d; cons = computeRepetitionVector(f); f->reset_computation(); } if (!(opt & 2)) cons = !repetition(g).empty();
  Run r = algo("PrintInfos", d); c.validated(); if (!r.ok()) { c.fail("table-error", r.err); delete d; return; } if (cons) d->is_consistent();
  {ForEachVertex(d, v) { TIME_UNIT tot = 0; for (auto x : d->getVertexPhaseDuration(v)) tot += x; ll n = cons ? (ll)d->getNi(v) : 0; int in = 0, out = 0; ForEachEdge(d, e) { if (d->getEdgeTarget(e) == v) in++; if (d->getEdgeSource(e) == v) out++; } nt += n; ph += d->getPhasesQuantity(v); qt += n / d->getPhasesQuantity(v); std::ostringstream o; o << tot; wt.push_back({d->getVertexName(v), std::to_string(d->getVertexId(v)), std::to_string(in), std::to_string(out), o.str(), cons ? std::to_string(n) : "N/A", std::to_string(d->getPhasesQuantity(v)), std::to_string(d->getMapping(v))}); }}
  {ForEachEdge(d, e) { ll i = 0, o = 0; for (auto x : d->getEdgeInVector(e)) i += x; for (auto x : d->getEdgeOutVector(e)) o += x; wc.push_back({d->getEdgeName(e), std::to_string(d->getEdgeId(e)), std::to_string(d->getVertexId(d->getEdgeSource(e))), std::to_string(d->getVertexId(d->getEdgeTarget(e))), std::to_string(i), std::to_string(o), std::to_string(d->getPreload(e))}); for (auto q : d->getRoute(e)) wc.back().push_back(std::to_string(q)); }}
  std::map<std::string, std::string> head; std::vector<std::vector<std::string>> gt, gc; int part = 0; bool notcons = false; std::istringstream in(r.out); std::string l; while (std::getline(in, l)) { if (l.find("not consistent") != l.npos) notcons = true; size_t k = l.rfind('='); if (!part && k != l.npos) { std::string a = l.substr(0, k); while (a.size() && isspace((unsigned char)a.back())) a.pop_back(); auto f = fields(l.substr(k + 1)); head[a] = f.empty() ? "" : f[0]; continue; } auto f = fields(l); if (f.empty()) continue; if (f[0] == "TASKS") { part = 1; continue; } if (f[0] == "CHANNELS") { part = 3; continue; } if (f[0] == "NO") { part = 5; continue; } if (part == 1 || part == 3) { part++; continue; } if (part == 2) gt.push_back(f); if (part == 4) { std::string tail; while (f.size() > 7) { tail = f.back() + " " + tail; f.pop_back(); } for (char& ch : tail) if (!isdigit((unsigned char)ch)) ch = ' '; std::istringstream ti(tail); std::string w; while (ti >> w) f.push_back(w); gc.push_back(f); } }
  auto find = [&](const std::string& k) { for (auto& x : head) if (x.first.compare(0, k.size(), k) == 0) return x.second; return std::string("missing"); }; c.states(wt.size()); c.transitions(wc.size());
  auto want = [&](const std::string& k, const std::string& v) { std::string gv = find(k); if (gv != v) c.fail("table-head", k + " is '" + gv + "' instead of '" + v + "'"); }; want("App name", "app"); want("Graph name", "g"); want("Graph type", "csdf"); want("Task count", std::to_string(wt.size())); want("Channel count", std::to_string(wc.size())); if (cons) { want("Sum(qt)", std::to_string(qt)); want("Sum(phit)", std::to_string(ph)); want("Sum(Nt", std::to_string(nt)); } if (notcons == cons && !wt.empty()) c.fail("table-head", notcons ? "consistent graph called inconsistent" : "inconsistent graph not announced");
  if (gt != wt) { std::string s; for (auto& x : gt) s += T(x) + ";"; s += " instead of "; for (auto& x : wt) s += T(x) + ";"; c.fail("table-tasks", s); } if (gc != wc) { std::string s; for (auto& x : gc) s += T(x) + ";"; s += " instead of "; for (auto& x : wc) s += T(x) + ";"; c.fail("table-channels", s); } if (!(opt & 2) && cons) { auto rr = repetition(g); int nc; wcc(g, &nc); if (nc <= 1) { ll x = 0; for (size_t i = 0; i < rr.size(); i++) x += rr[i] * g.A[i].dur.size(); if (x != nt) c.fail("table-head", "repetition"); } } delete d; c.outcome("table"); }
// ---- drawings
std::string slurp(const std::string& f) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); return s.str(); }
std::string attr(const std::string& s, const std::string& name) { size_t k = 0; while ((k = s.find(name, k)) != s.npos) { if (k && (isalnum((unsigned char)s[k - 1]))) { k++; continue; } size_t e = k + name.size(); while (e < s.size() && s[e] == ' ') e++; if (e < s.size() && s[e] == '=') { e++; while (e < s.size() && s[e] == ' ') e++; if (s[e] == '"') { size_t q = s.find('"', e + 1); return s.substr(e + 1, q - e - 1); } size_t q = e; while (q < s.size() && s[q] != ',' && s[q] != ' ' && s[q] != ']') q++; return s.substr(e, q - e); } k++; } return ""; }
std::string clean(const std::string& s) { std::string r; for (char ch : s) if (ch != '{' && ch != '}' && ch != ' ') r += ch; return r; }
struct Item { std::string head, body; };
std::vector<Item> items(const std::string& t) { std::vector<Item> r; size_t i = t.find("digraph"); if (i == t.npos) return r; i = t.find('{', i) + 1; std::string cur; while (i < t.size()) { if (t[i] == '[') { bool q = false; size_t j = i + 1; for (; j < t.size(); j++) { if (t[j] == '"') q = !q; if (t[j] == ']' && !q) break; } std::string h; for (char ch : cur) if (!isspace((unsigned char)ch)) h += ch; size_t k = h.rfind(';'); if (k != h.npos) h = h.substr(k + 1); r.push_back({h, t.substr(i + 1, j - i - 1)}); cur = ""; i = j + 1; continue; } if (t[i] == ';') { cur = ""; i++; continue; } cur += t[i++]; } return r; }
std::string toFile(const char* cmd, models::Dataflow* d, parameters_list_t p, Run& r) { std::string f = "dot.txt"; p["filename"] = f; ::unlink(f.c_str()); r = algo(cmd, d, p); std::string s = slurp(f); ::unlink(f.c_str()); return s; }
void graphDot(Ctx& c, const G& g, int opt) { c.evals(); auto* d = build(g); if (opt & 2) d->removeVertex(d->getVertexByName(aname(0))); parameters_list_t p; Run r = algo("PrintGraph", d, p), r2; std::string f = toFile("PrintGraph", d, p, r2); c.validated(); if (!r.ok() || !r2.ok()) { c.fail("dot-error", r.err + r2.err); delete d; return; } if (f != r.out) c.fail("dot-file", "file and stream differ"); bool cons = d->is_consistent(); bool brief = !(opt & 1); std::string text = r.out; if (!brief) { Run r3 = guarded([&]() { text = printers::GenerateGraphDOT(d, false); }); if (!r3.ok()) { c.fail("dot-error", r3.err); delete d; return; } }
  std::multiset<std::string> want, got; {ForEachVertex(d, v) { std::ostringstream o; o << "t_" << d->getVertexId(v) << " " << d->getVertexName(v); if (brief) { want.insert(o.str()); continue; } o << " id:" << d->getVertexId(v) << " Phases:" << d->getPhasesQuantity(v) << " Ni:"; if (cons) o << d->getNi(v); else o << "N/A"; o << " duration:"; bool first = true; for (auto x : d->getVertexPhaseDuration(v)) { o << (first ? "" : ",") << x; first = false; } o << " reentrancy:" << d->getReentrancyFactor(v); want.insert(o.str()); }}
  {ForEachEdge(d, e) { auto L = [](const auto& l) { std::ostringstream o; bool first = true; for (auto x : l) { o << (first ? "" : ",") << x; first = false; } return o.str(); }; std::ostringstream o; Vertex s = d->getEdgeSource(e), t = d->getEdgeTarget(e); o << "t_" << d->getVertexId(s) << "->t_" << d->getVertexId(t); if (!brief) o << " id:" << d->getEdgeId(e) << " preload:"; else o << " "; o << d->getPreload(e) << " in "; if (d->getInitPhasesQuantity(s) > 0) o << "(" << L(d->getEdgeInitInVector(e)) << ");"; o << L(d->getEdgeInVector(e)) << " out "; if (d->getInitPhasesQuantity(t) > 0) o << "(" << L(d->getEdgeInitOutVector(e)) << ");"; o << L(d->getEdgeOutVector(e)); want.insert(o.str()); }}
  size_t n = 0; for (auto& it : items(text)) { if (it.head.compare(0, 2, "t_")) continue; n++; if (it.head.find("->") == std::string::npos) { std::istringstream in(attr(it.body, "label")); std::string l, o = it.head; while (std::getline(in, l)) o += " " + clean(l); got.insert(o); } else { std::istringstream in(attr(it.body, "label")); std::string l, o = it.head; if (!brief) std::getline(in, l); while (std::getline(in, l)) o += " " + clean(l); got.insert(o + " in " + clean(attr(it.body, "taillabel")) + " out " + clean(attr(it.body, "headlabel"))); } } c.states(n); if (want != got || n != want.size()) { std::string s; for (auto& x : want) if (!got.count(x)) s += " missing '" + x + "'"; for (auto& x : got) if (!want.count(x)) s += " unexpected '" + x + "'"; c.fail("dot", s); } delete d; c.outcome("dot"); }
void mapDot(Ctx& c, const G& g, int X, int Y, const std::vector<int>& pl, int opt) { c.evals(); int N = X * Y; auto* d = build(g); NoC noc(X, Y); d->setNoC(noc); for (size_t i = 0; i < g.A.size(); i++) d->setMapping(d->getVertexByName(aname(i)), N + pl[i] % N); if (opt & 4) { Run r = algo("xyRouting", d); if (!r.ok()) { c.fail("route-error", r.err); delete d; return; } } parameters_list_t p; if (opt & 1) p["color_routes"] = "1"; if (opt & 2) p["connect_tasks"] = "1"; Run r = algo("PrintMapping", d, p), r2; std::string f = toFile("PrintMapping", d, p, r2); c.validated(); if (!r.ok() || !r2.ok()) { c.fail("map-error", r.err + r2.err); delete d; return; } if (f != r.out) c.fail("dot-file", "file and stream differ");
  std::map<long, std::pair<double, double>> node, task; std::map<std::string, std::multiset<int>> links; std::multiset<std::string> conn; auto pos = [](const std::string& b) { std::string p = attr(b, "pos"); double x = 1e9, y = 1e9; sscanf(p.c_str(), "%lf,%lf", &x, &y); return std::make_pair(x, y); };
  for (auto& it : items(r.out)) { size_t k = it.head.find("->"); if (k != std::string::npos) { std::string a = it.head.substr(0, k); if (a.compare(0, 5, "task_") == 0) conn.insert(it.head); else { std::string col = attr(it.body, "color"); int n = 0; for (char ch : col) if (ch == '#') n++; links[it.head].insert(n); } } else if (it.head.compare(0, 5, "task_") == 0) { long id = atol(it.head.c_str() + 5); if (task.count(id)) c.fail("map", "task drawn twice"); task[id] = pos(it.body); if (attr(it.body, "label") != d->getVertexName(d->getVertexById(id))) c.fail("map", "label " + attr(it.body, "label") + " of task " + std::to_string(id)); } else if (!it.head.empty() && isdigit((unsigned char)it.head[0])) { long id = atol(it.head.c_str()); if (node.count(id)) c.fail("map", "node drawn twice"); node[id] = pos(it.body); } }
  std::map<std::string, std::multiset<int>> wl; for (auto& e : d->getNoC().getEdges()) { int use = 0; if (opt & 1) { ForEachEdge(d, x) { for (auto q : d->getRoute(x)) if (q == e.id) use++; } } wl[std::to_string(e.src) + "->" + std::to_string(e.dst)].insert(use); } c.transitions(wl.size()); if (wl != links) { std::string s; for (auto& x : wl) if (!links.count(x.first) || links[x.first] != x.second) s += " " + x.first; c.fail("map-links", "links or their use are wrong:" + s); }
  if (node.size() != d->getNoC().getNodes().size()) c.fail("map", "nodes"); for (auto& n : d->getNoC().getNodes()) { if (!node.count(n.id)) { c.fail("map", "node missing"); continue; } for (auto& m : d->getNoC().getNodes()) if (m.id < n.id && node.count(m.id)) { auto& a = node[n.id]; auto& b = node[m.id]; double dx = n.x - m.x, dy = n.y - m.y; if (std::fabs(std::fabs(a.first - b.first) - std::fabs(dx)) > 1e-4 || std::fabs(std::fabs(a.second - b.second) - std::fabs(dy)) > 1e-4) c.fail("map", "distances between nodes differ from the grid"); } }
  if (task.size() != g.A.size()) c.fail("map", "tasks"); for (size_t i = 0; i < g.A.size(); i++) { long id = d->getVertexId(d->getVertexByName(aname(i))); if (!task.count(id)) continue; long best = -1; double bd = 1e18; for (auto& n : node) { double q = hypot(n.second.first - task[id].first, n.second.second - task[id].second); if (q < bd) { bd = q; best = n.first; } } c.states(1); if (best != N + pl[i] % N) c.fail("map-task", "task " + std::to_string(id) + " drawn at node " + std::to_string(best)); for (size_t j = 0; j < i; j++) { long jd = d->getVertexId(d->getVertexByName(aname(j))); if (task.count(jd) && hypot(task[id].first - task[jd].first, task[id].second - task[jd].second) < 1e-3) c.fail("map-task", "two tasks drawn on top of each other"); } }
  std::multiset<std::string> wc; if (opt & 2) { ForEachEdge(d, e) { wc.insert("task_" + std::to_string(d->getVertexId(d->getEdgeSource(e))) + "->task_" + std::to_string(d->getVertexId(d->getEdgeTarget(e)))); } } if (wc != conn) c.fail("map", "channels between tasks"); delete d; c.outcome("map"); }
// ---- drawing of schedules: column t of the line of an actor shows what it does during [t, t+1)
void draw(Ctx& c, int line, const std::vector<int>& dur, int nInit, const std::vector<int>& gaps, int other) { c.evals(); int P = dur.size(); auto* d = new models::Dataflow(); d->setGraphName("g"); auto mk = [&](const std::string& n, const std::vector<int>& u) { Vertex v = d->addVertex(n); d->setPhasesQuantity(v, u.size()); d->setVertexDuration(v, std::vector<TIME_UNIT>(u.begin(), u.end())); d->setReentrancyFactor(v, 1); return v; }; Vertex v = mk("a0", dur), w = mk("a01", {1}); Edge self = d->addEdge(v, v, "c0"); d->setEdgeInPhases(self, std::vector<TOKEN_UNIT>(P, 1)); d->setEdgeOutPhases(self, std::vector<TOKEN_UNIT>(P, 1)); d->setPreload(self, 1);
  int M = gaps.size() - 1; std::vector<ll> st; ll t = 0; for (int i = 0; i < M; i++) { t += gaps[i]; st.push_back(t); t += dur[i % P]; } ll period; std::vector<TIME_UNIT> is, ps; for (int i = 0; i < M; i++) (i < nInit ? is : ps).push_back(st[i]); bool spread = M - nInit < P; // one start stands for every phase, equally spaced
  if (spread) { period = 0; for (int u : dur) period = std::max<ll>(period, u); period += gaps[M]; } else period = t + gaps[M] - st[nInit]; scheduling_t sch; sch.set(d->getVertexId(v), task_schedule_t(is, {(TIME_UNIT)period, ps})); sch.set(d->getVertexId(w), task_schedule_t({}, {(TIME_UNIT)2, {(TIME_UNIT)other}})); models::Scheduling S(d, (TIME_UNIT)period, sch); std::string out, text; Run r = guarded([&]() { out = S.asASCII(line); text = S.asText(); }); c.validated(); if (!r.ok()) { c.fail("draw-error", r.err); delete d; return; }
  std::string want(line, ' '), want2(line, ' '); auto put = [&](std::string& s, ll at, int len) { for (int k = 0; k < len; k++) if (at + k < line) s[at + k] = k ? '#' : '@'; }; for (int i = 0; i < nInit; i++) put(want, st[i], dur[i % P]); for (ll n = 0; n <= line; n++) for (int i = nInit; i < M; i++) put(want, st[i] + n * period, dur[spread ? n % P : i % P]); for (ll n = 0; n <= line; n++) put(want2, other + 2 * n, 1); std::map<long, std::string> rows; std::istringstream in(out); std::string l; while (std::getline(in, l)) { size_t k = l.find('|'); if (k == l.npos) continue; rows[atol(l.c_str())] = l.substr(k + 1); } c.states(line); auto& g1 = rows[d->getVertexId(v)]; auto& g2 = rows[d->getVertexId(w)]; if (g1 != want) c.fail("draw", "'" + g1 + "' instead of '" + want + "'"); if (g2 != want2) c.fail("draw", "'" + g2 + "' instead of '" + want2 + "'"); if (rows.size() != 2) c.fail("draw", "lines");
  // (a01: names that start alike must not be confused)
  // boxes: one per execution, at its start, as wide as the execution is long
  auto boxes = [&](const std::string& t, double xs, std::map<std::string, std::multiset<std::pair<double, double>>>& by) { std::map<double, std::string> label; std::set<std::string> ids; std::vector<std::array<double, 3>> bx; for (auto& it : items(t)) { if (it.head == "graph") continue; if (!ids.insert(it.head).second) { c.fail("draw-boxes", "two shapes share the identifier " + it.head); return; } double x = 1e9, y = 1e9; std::string p = attr(it.body, "pos"); sscanf(p.c_str(), "%lf,%lf", &x, &y); if (attr(it.body, "shape") == "plaintext") { std::string n = attr(it.body, "label"); size_t k = n.find('\\'); label[y] = n.substr(0, k); } else if (attr(it.body, "shape") == "box") { double w = atof(attr(it.body, "width").c_str()) * 72; bx.push_back({y, (x - w / 2) / xs, w / xs}); } else c.fail("draw-boxes", "unknown shape " + it.head); } for (auto& b : bx) { std::string n = "?"; for (auto& l : label) if (std::fabs(l.first - b[0]) < 1e-6) n = l.second; by[n].insert({std::round(b[1] * 1000) / 1000, std::round(b[2] * 1000) / 1000}); } for (auto& l : label) by[l.second]; };
  int end = line; auto want_boxes = [&](ll e, bool first) { std::multiset<std::pair<double, double>> r; if (first) { for (int i = 0; i < nInit; i++) r.insert({st[i], dur[i % P]}); for (ll n = 0; st[nInit] + n * period < e; n++) for (int i = nInit; i < M; i++) r.insert({st[i] + n * period, dur[spread ? n % P : i % P]}); } else for (ll n = 0; other + 2 * n < e; n++) r.insert({other + 2 * n, 1}); return r; };
  for (double xs : {1.0, 10.0}) { std::string t1; Run q = guarded([&]() { t1 = printers::PeriodicScheduling2DOT(d, S, end, true, xs, 1 + xs); }); c.validated(); if (!q.ok()) { c.fail("draw-error", q.err); break; } std::map<std::string, std::multiset<std::pair<double, double>>> by; boxes(t1, xs, by); if (by.size() != 2) c.fail("draw-boxes", "lines"); for (bool f : {true, false}) { auto wb = want_boxes(end, f); auto& gb = by[f ? "a0" : "a01"]; c.transitions(wb.size()); if (gb != wb) { std::ostringstream o; for (auto& x : gb) o << x.first << "+" << x.second << " "; o << "instead of "; for (auto& x : wb) o << x.first << "+" << x.second << " "; c.fail("draw-boxes", o.str()); break; } } }
  if (M - nInit <= P) { std::string t0; bool ok = true; Run q = guarded([&]() { computeRepetitionVector(d); t0 = printers::PeriodicScheduling2DOT(d, S, 0, true, 1, 1); }); if (!q.ok()) { c.fail("draw-error", q.err); ok = false; } if (ok) { std::map<std::string, std::multiset<std::pair<double, double>>> by; boxes(t0, 1, by); for (bool f : {true, false}) { auto& gb = by[f ? "a0" : "a01"]; size_t least = nInit && f ? nInit + 1 : 1; if (f) least = std::max<size_t>(least, nInit + P); auto wb = want_boxes(1000, f); bool sub = true; for (auto& x : gb) if (!wb.count(x)) sub = false; if (gb.size() < least || !sub) c.fail("draw-boxes", "without an end: " + std::to_string(gb.size()) + " boxes"); } } }
  if (!spread) { std::string tz; Run q = guarded([&]() { tz = printers::Scheduling2Tikz(S); }); c.validated(); if (!q.ok()) c.fail("draw-error", q.err); else { auto args = [&](const std::string& l) { std::vector<std::string> r; int dep = 0; bool opt = false; std::string cur; for (char ch : l) { if (!dep && ch == '[') opt = true; if (opt) { if (ch == ']') opt = false; continue; } if (ch == '{' && dep++ == 0) { cur = ""; continue; } if (ch == '}' && --dep == 0) { r.push_back(cur); continue; } if (dep) cur += ch; } return r; }; std::multiset<std::vector<std::string>> ge, wex; std::istringstream zi(tz); std::string zl; std::map<std::string, std::set<std::string>> rowsOf; int begins = 0, ends = 0; while (std::getline(zi, zl)) { bool per = zl.compare(0, 16, "\\addperiodictask") == 0, ex = zl.compare(0, 13, "\\addexecution") == 0; if (zl.compare(0, 7, "\\begin{") == 0) { begins++; auto a = args(zl); if (a.size() < 2 || a[1] != "2") c.fail("draw-tikz", "number of lines"); } if (zl.compare(0, 5, "\\end{") == 0) ends++; if (!per && !ex) continue; auto a = args(zl); std::string nm = a.size() > 1 ? a[1].substr(1, a[1].find('_') - 1) : "?"; if (!a.empty()) rowsOf[nm].insert(a[0]); std::vector<std::string> k{per ? "per" : "ex", clean(a.size() > 1 ? a[1] : "")}; for (size_t i = 2; i < a.size(); i++) k.push_back(a[i]); if (per && !k.empty()) k.pop_back(); ge.insert(k); } auto lab = [&](const std::string& n, int ph) { return "$" + n + "_" + std::to_string(ph) + "$"; }; auto S2 = [](ll x) { return std::to_string(x); }; for (int i = 0; i < M; i++) { wex.insert({"ex", lab("a0", i % P + 1), S2(dur[i % P]), S2(st[i])}); if (i >= nInit) wex.insert({"per", lab("a0", i % P + 1), S2(dur[i % P]), S2(st[i]), S2(period)}); } wex.insert({"ex", lab("a01", 1), "1", S2(other)}); wex.insert({"per", lab("a01", 1), "1", S2(other), "2"}); if (ge != wex) { std::string o; for (auto& x : ge) if (!wex.count(x)) o += " unexpected " + T(x); for (auto& x : wex) if (!ge.count(x)) o += " missing " + T(x); c.fail("draw-tikz", o); } if (begins != 1 || ends != 1 || rowsOf.size() != 2 || rowsOf["a0"].size() != 1 || rowsOf["a01"].size() != 1 || rowsOf["a0"] == rowsOf["a01"]) c.fail("draw-tikz", "lines of the actors"); } }
  std::istringstream in2(text); int seen = 0; while (std::getline(in2, l)) { if (atol(l.c_str()) != (long)d->getVertexId(v)) continue; seen++; auto list = [&](const std::string& lab) { std::string q; size_t k = l.find(lab); if (k == l.npos) return std::string("?"); k += lab.size(); while (k < l.size() && l[k] != '|' ) q += l[k++]; return clean(q); }; auto J = [](const auto& x) { std::ostringstream o; bool f = true; for (auto y : x) { o << (f ? "" : ",") << y; f = false; } return o.str(); }; if (list("| starts:") != J(is) || list("| periodic starts:") != J(ps) || list("| period:") != std::to_string(period)) c.fail("draw-text", l); } if (seen != 1) c.fail("draw-text", "actor listed " + std::to_string(seen) + " times"); delete d; c.outcome("draw"); }
void dispatch(Ctx& c, const std::string& key) { std::istringstream in(key); std::string op, k; int o; in >> op >> o; if (op == "draw") { int P, ni, n, ot; in >> P; std::vector<int> u(P); for (int& x : u) in >> x; in >> ni >> n; std::vector<int> gp(n); for (int& x : gp) in >> x; in >> ot; draw(c, o, u, ni, gp, ot); return; } if (op == "map") { int x, y, n; in >> x >> y >> n; std::vector<int> pl(n); for (int& q : pl) in >> q; in >> k; mapDot(c, G::parse(k), x, y, pl, o); return; } in >> k; G g = G::parse(k); if (op == "code") code(c, g, o); if (op == "table") table(c, g, o); if (op == "dot") graphDot(c, g, o); }
void go(Ctx& c, const std::string& key) { if (!c.take()) return; c.mark(key); dispatch(c, key); }
void run(Ctx& c) { bool th = c.thorough; Alpha r12{{1, vecs(1, 1, 2)}}, r13{{1, vecs(1, 1, 3)}}, d13{{1, V({{1}, {3}})}}, cs{{1, vecs(1, 1, 2)}, {2, V({{1, 0}, {0, 2}, {1, 2}})}, {3, V({{1, 0, 2}})}}, cd{{1, V({{2}, {12}})}, {2, V({{1, 2}})}, {3, V({{0, 5, 1}})}};
  auto all = [&](const G& g) { for (int o = 0; o < (g.A.size() > 1 ? 4 : 2); o++) { go(c, "code " + std::to_string(o) + " " + g.key()); go(c, "table " + std::to_string(o) + " " + g.key()); go(c, "dot " + std::to_string(o) + " " + g.key()); } };
  auto each = [&](Family f, bool cons, auto fn) { f.consistentOnly = cons; c.note(f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>&) { fn(g); }); };
  auto init = [&](const G& g0) { int n = g0.A.size(); for (int m = 1; m < (1 << n); m++) for (int len = 1; len <= 2; len++) { G g = g0; for (int a = 0; a < n; a++) if ((m >> a) & 1) { g.A[a].idur.assign(len, 1); g.A[a].idur[0] = 4; for (auto& x : g.C) { if (x.s == a) { x.ip.assign(len, 0); x.ip[len - 1] = 2; } if (x.t == a) { x.ic.assign(len, 1); if (len > 1) x.ic[1] = 0; } } } all(g); } };
  each(family("reports: SDF, 1 actor, 0..2 self-loops, three limits", 1, topologies(1, 0, 2, true, 2, true, true), all_phase(1, {1}), r13, d13, tokK(2), 12, {{0}, {1}, {2}}), true, all);
  each(family("reports: all SDF incl. inconsistent, 2 actors, 0..3 channels", 2, topologies(2, 0, 3, true, 2, true, false), all_phase(2, {1}), r12, d13, tokK(1), 12, {{1, 1}, {0, 3}}), false, all);
  each(family("reports: CSDF up to 3 phases, 2 actors, 1..2 channels", 2, topologies(2, 1, 2, true, 2, true, true), all_phase(2, {1, 2, 3}), cs, cd, tokK(1), 24), true, all);
  each(family("reports: with initial phases, 2 actors, 1..2 channels", 2, topologies(2, 1, 2, true, 2, true, true), all_phase(2, {1, 2}), Alpha{{1, V({{1}})}, {2, V({{1, 2}})}}, Alpha{{1, V({{2}})}, {2, V({{1, 2}})}}, tokK(1), 24), false, init);
  each(family("reports: SDF, 3 actors, 0..4 channels", 3, topologies(3, 0, 4, true, 1, true, false), all_phase(3, {1}), Alpha{{1, V({{1}})}}, Alpha{{1, V({{2}})}}, tokK(th ? 1 : 0), 12), true, all);
  { auto f = family("reports: fractional times (sevenths)", 2, {cycle(2)}, all_phase(2, {1, 2}), Alpha{{1, V({{1}})}, {2, V({{1, 1}})}}, Alpha{{1, V({{1}, {3}, {1000001}})}, {2, V({{1, 2}})}}, tokK(1), 12); f.tden = 7; each(f, true, [&](const G& g) { go(c, "code 0 " + g.key()); }); }
  { auto f = family("reports: fractional times (quarters)", 2, {Topo{{0, 1}}, cycle(2)}, all_phase(2, {1, 2}), Alpha{{1, V({{1}})}, {2, V({{1, 1}})}}, Alpha{{1, V({{1}, {3}, {4}, {9}})}, {2, V({{1, 2}, {3, 3}})}}, tokK(1), 12); f.tden = 4; each(f, true, [&](const G& g) { go(c, "table 0 " + g.key()); go(c, "code 0 " + g.key()); }); }
  large_families(th ? 1 : 0, [&](const Family& f) { each(f, true, all); });
  auto maps = [&](const G& g) { int n = g.A.size(); struct P { int x, y; std::vector<int> v; }; std::vector<P> ps{{2, 2, {0, 1, 2, 3}}}; if (n <= 3) ps.push_back({3, 2, {0, 2, 5}}); if (n <= 2) ps.push_back({1, 1, {0}}); for (auto& p : ps) for (auto& pl : tuples(n, p.v)) for (int o = 0; o < 8; o++) { std::string k = "map " + std::to_string(o) + " " + std::to_string(p.x) + " " + std::to_string(p.y) + " " + std::to_string(n); for (int x : pl) k += " " + std::to_string(x); go(c, k + " " + g.key()); } };
  c.note("drawn schedules: 1..3 phases, 0..2 initial starts, up to 6 starts, gaps 0..2"); for (int P = 1; P <= 3; P++) for (auto& u : tuples(P, {1, 2, 4})) for (int ni = 0; ni <= 2; ni++) for (int np : {1, P, 2 * P}) { if (np < P && (ni || np != 1)) continue; if (np == 1 && P == 1 && false) continue; int M = ni + np; if (M > (th ? 7 : 5)) continue; for (auto& gp : tuples(M + 1, {0, 1, th ? 3 : 2})) for (int line : {24, 5}) { std::string k = "draw " + std::to_string(line) + " " + std::to_string(P); for (int x : u) k += " " + std::to_string(x); k += " " + std::to_string(ni) + " " + std::to_string(M + 1); for (int x : gp) k += " " + std::to_string(x); go(c, k + " " + std::to_string((line + M) % 3)); } }
  Alpha one{{1, V({{1}})}}; each(family("mappings: 1..2 actors", 2, topologies(2, 0, 3, true, 2, true, true), all_phase(2, {1}), one, one, tokK(0), 12), true, maps); each(family("mappings: 3 actors", 3, topologies(3, 2, 3, false, 1, true, true), all_phase(3, {1}), one, one, tokK(0), 12), true, maps); each(family("mappings: 4..6 actors", 4, topologies(4, 3, 3, false, 1, true, true), all_phase(4, {1}), one, one, tokK(0), 12), true, maps);
  for (int n = 5; n <= 6; n++) { Family f = family("mappings: ring of " + std::to_string(n), n, {cycle(n)}, all_phase(n, {1}), one, one, tokK(0), 12); each(f, true, [&](const G& g) { for (auto& pl : tuples(n, {0, 3})) for (int o : {0, 7}) { std::string k = "map " + std::to_string(o) + " 2 2 " + std::to_string(n); for (int x : pl) k += " " + std::to_string(x); go(c, k + " " + g.key()); } }); }
}
void one(Ctx& c, const std::string& key) { c.mark(key); dispatch(c, key); }
}
kv::Module kv::module{"P24", run, one, "every graph of bounded families (consistent or not, multi-phase, initial phases, after removals): the information table, the drawings of graph and mapping and the generated construction code are read back and compared with the graph; the construction code is executed statement by statement", {"names without quotes or backslashes", "the construction code is claimed for actors, channels, rates, tokens, times and limits"}};
