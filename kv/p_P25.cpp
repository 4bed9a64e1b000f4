// The linear programming layer against exact vertex enumeration, for every program of a bounded family.
#include "kiter_api.hpp"
#include <lp/glpsol.h>
using namespace kv;
namespace {
typedef long long L; typedef __int128 I;
struct Q2 { I p, q; }; // q > 0
Q2 mk(I p, I q) { if (q < 0) { p = -p; q = -q; } return {p, q}; }
bool lt(Q2 a, Q2 b) { return a.p * b.q < b.p * a.q; } bool le(Q2 a, Q2 b) { return !lt(b, a); }
double D(Q2 a) { return (double)((long double)a.p / (long double)a.q); }
const L INF = 1000000;
enum { FREE, FIX, UP, LOW, DB };
struct Bd { int t; L a, b; L lo() const { return t == FIX || t == LOW || t == DB ? a : -INF; } L hi() const { return t == FIX || t == UP ? a : t == DB ? b : INF; } };
const std::vector<Bd> BD{{FREE, 0, 0}, {FIX, 1, 0}, {UP, 2, 0}, {LOW, 0, 0}, {DB, 0, 2}, {DB, -1, 1}, {LOW, -1, 0}, {UP, -1, 0}, {FIX, 0, 0}, {LOW, 3, 0}, {UP, 5, 0}, {DB, 1, 5}, {LOW, 2, 0}, {FIX, -2, 0}};
commons::bound_s bs(const Bd& b) { switch (b.t) { case FREE: return commons::bound_s(); case FIX: return commons::bound_s(commons::FIX_BOUND, b.a); case UP: return commons::bound_s(commons::UP_BOUND, b.a); case LOW: return commons::bound_s(commons::LOW_BOUND, b.a); default: return commons::bound_s(commons::DOUBLE_BOUND, b.a, b.b); } }
struct Col { Bd b; int kind; L c; }; struct Row { L x, y; Bd b; }; // kind 0 continuous, 1 integer, 2 boolean
struct P { bool max; std::vector<Col> C; std::vector<Row> R; int opt; };
struct Cut { L x, y, r; }; // x*X + y*Y <= r
struct Res { bool feas = false; bool unb = false; Q2 best{0, 1}; };
// optimum of a two-variable continuous program inside the box |X|,|Y| <= box, by its corners
bool corners(const std::vector<Cut>& k0, L box, L cx, L cy, bool max, Q2& best) { std::vector<Cut> k = k0; k.push_back({1, 0, box}); k.push_back({-1, 0, box}); k.push_back({0, 1, box}); k.push_back({0, -1, box}); bool f = false; for (size_t i = 0; i < k.size(); i++) for (size_t j = i + 1; j < k.size(); j++) { I d = (I)k[i].x * k[j].y - (I)k[j].x * k[i].y; if (!d) continue; I X = (I)k[i].r * k[j].y - (I)k[j].r * k[i].y, Y = (I)k[i].x * k[j].r - (I)k[j].x * k[i].r; if (d < 0) { d = -d; X = -X; Y = -Y; } bool ok = true; for (auto& c : k) if (c.x * X + c.y * Y > c.r * d) { ok = false; break; } if (!ok) continue; Q2 v = mk(cx * X + cy * Y, d); if (!f || (max ? lt(best, v) : lt(v, best))) best = v; f = true; } return f; }
Res cont(const std::vector<Cut>& k, L cx, L cy, bool max) { Res r; Q2 a, b; r.feas = corners(k, 1000, cx, cy, max, a); if (!r.feas) return r; corners(k, 3000, cx, cy, max, b); r.best = a; r.unb = lt(a, b) || lt(b, a); return r; }
void solve(const P& p, Res& r, bool& skip) { skip = false; std::vector<Cut> k; auto add = [&](L x, L y, L lo, L hi) { if (hi < INF) k.push_back({x, y, hi}); if (lo > -INF) k.push_back({-x, -y, -lo}); };
  L cx = p.C[0].c, cy = p.C.size() > 1 ? p.C[1].c : 0; bool integer = false; for (size_t i = 0; i < 2; i++) { if (i >= p.C.size()) { add(i == 0, i == 1, 0, 0); continue; } L lo = p.C[i].b.lo(), hi = p.C[i].b.hi(); if (p.C[i].kind == 2) { lo = 0; hi = 1; } if (p.C[i].kind) integer = true; add(i == 0, i == 1, lo, hi); } for (auto& w : p.R) add(w.x, w.y, w.b.lo(), w.b.hi());
  for (auto& c : k) if (!c.x && !c.y && c.r < 0) { r.feas = false; return; } r = cont(k, cx, cy, p.max); if (!integer || !r.feas) return; if (r.unb) { skip = true; return; }
  for (int v = 0; v < 2; v++) for (int s = 0; s < 2; s++) { Res q = cont(k, v == 0, v == 1, s); if (q.unb || lt({12, 1}, q.best) || lt(q.best, {-12, 1})) { skip = true; return; } }
  Res o; bool ix = p.C[0].kind, iy = p.C.size() > 1 ? p.C[1].kind : true; for (L x = ix ? -12 : 0; x <= (ix ? 12 : 0); x++) for (L y = iy ? -12 : 0; y <= (iy ? 12 : 0); y++) { auto kk = k; if (ix) { kk.push_back({1, 0, x}); kk.push_back({-1, 0, -x}); } if (iy) { kk.push_back({0, 1, y}); kk.push_back({0, -1, -y}); } Res q = cont(kk, cx, cy, p.max); if (q.feas && (!o.feas || (p.max ? lt(o.best, q.best) : lt(q.best, o.best)))) o = q; } r = o; }
void params(int opt, commons::GLPParameters& g) { if (opt == 1) g.linear_method = commons::DUAL_LINEAR_METHOD; if (opt == 2) g.linear_method = commons::DANDP_LINEAR_METHOD; if (opt == 3) g.general_doScale = true; if (opt == 4) g.linear_doPresolve = true; if (opt == 5) g.linear_algorithm = commons::EXACT; if (opt == 6) { g.linear_doAdvBasis = true; g.linear_doSteep = true; g.linear_doRelax = true; } if (opt == 7) g.linear_doStdBasis = true; if (opt == 8) { g.integer_doGMI = g.integer_doMIR = g.integer_doCOV = g.integer_doCLQ = true; } }
void lp(Ctx& c, const P& p) { c.evals(); Res w; bool skip; solve(p, w, skip); if (skip || w.unb) { c.outcome("unbounded"); return; }
  commons::GLPSol g("P", p.max ? commons::MAX_OBJ : commons::MIN_OBJ); const char* cn[] = {"xb", "xa"}; const char* rn[] = {"rz", "rm", "ra"}; bool late = p.opt >= 10; int opt = p.opt % 10; // names chosen so that alphabetical and insertion order differ
  std::vector<int> ci, ri; auto cols = [&]() { for (size_t i = 0; i < p.C.size(); i++) ci.push_back(g.addColumn(cn[i], p.C[i].kind == 0 ? commons::KIND_CONTINUE : p.C[i].kind == 1 ? commons::KIND_INTEGER : commons::KIND_BOOLEAN, bs(p.C[i].b), (double)p.C[i].c)); }; auto rows = [&]() { for (size_t i = 0; i < p.R.size(); i++) ri.push_back(g.addRow(rn[i], bs(p.R[i].b))); };
  if (late) { rows(); cols(); } else { cols(); rows(); } for (size_t i = 0; i < p.R.size(); i++) { if (late) { g.fastAddCoef(ri[i], ci[0], p.R[i].x); if (p.C.size() > 1) g.fastAddCoef(ri[i], ci[1], p.R[i].y); } else { if (p.C.size() > 1) g.addCoef(rn[i], cn[1], p.R[i].y); g.addCoef(rn[i], cn[0], p.R[i].x); } }
  if (g.getRowCount() != (int)p.R.size() || g.getColumnCount() != (int)p.C.size()) c.fail("size", "rows or columns lost"); for (size_t i = 0; i < p.C.size(); i++) if (!g.isColumnExists(cn[i]) || g.getColumn(cn[i]) != ci[i]) c.fail("lookup", cn[i]); for (size_t i = 0; i < p.R.size(); i++) if (!g.isRowExists(rn[i]) || g.getRow(rn[i]) != ri[i]) c.fail("lookup", rn[i]); if (g.isColumnExists("nope") || g.isRowExists("nope") || g.haveValue("nope")) c.fail("lookup", "unknown name found");
  bool thrown = false; try { g.getValue("nope"); } catch (std::out_of_range&) { thrown = true; } if (!thrown) c.fail("lookup", "value of an unknown column"); if (p.R.size()) { thrown = false; try { g.addRow(rn[0], commons::bound_s()); } catch (std::logic_error&) { thrown = true; } if (!thrown) c.fail("lookup", "row added twice"); }
  commons::GLPParameters gp; params(opt, gp); bool ok = opt == 9 ? g.solveWith() : opt ? g.solve(gp) : g.solve(); c.validated(); c.states(1); c.transitions(p.R.size() + p.C.size());
  if (!ok && w.feas && opt == 5) { c.outcome("exact gives up"); return; } if (ok != w.feas) { c.fail(ok ? "solved" : "unsolved", ok ? "a solution is announced for an infeasible program" : "no solution is announced, optimum is " + std::to_string(D(w.best))); return; } c.outcome(ok ? "optimal" : "infeasible"); if (!ok) return;
  bool integer = false; for (auto& k : p.C) if (k.kind) integer = true; if (g.isInteger() != integer) c.fail("integer", "kind of the program"); double v[2] = {0, 0}, obj = 0; for (size_t i = 0; i < p.C.size(); i++) { v[i] = integer ? g.getIntegerValue(cn[i]) : g.getValue(cn[i]); if (!integer && g.getRoundedValue(cn[i]) != std::round(v[i])) c.fail("rounded", "rounded value"); obj += p.C[i].c * v[i]; double lo = p.C[i].kind == 2 ? 0 : p.C[i].b.lo(), hi = p.C[i].kind == 2 ? 1 : p.C[i].b.hi(); if (v[i] < lo - 1e-6 || v[i] > hi + 1e-6) c.fail("bound", std::string(cn[i]) + " = " + std::to_string(v[i])); if (p.C[i].kind && std::fabs(v[i] - std::round(v[i])) > 1e-6) c.fail("integrality", std::string(cn[i]) + " = " + std::to_string(v[i])); }
  for (size_t i = 0; i < p.R.size(); i++) { double s = p.R[i].x * v[0] + p.R[i].y * v[1]; if (s < p.R[i].b.lo() - 1e-6 || s > p.R[i].b.hi() + 1e-6) c.fail("row", std::string(rn[i]) + " is " + std::to_string(s)); } if (std::fabs(obj - D(w.best)) > 1e-6) c.fail("optimum", "objective " + std::to_string(obj) + " instead of " + std::to_string(D(w.best))); }
std::string key(const P& p) { std::ostringstream o; o << "lp " << p.opt << " " << (p.max ? "max" : "min") << " " << p.C.size() << " " << p.R.size(); for (auto& c : p.C) o << " " << c.b.t << " " << c.b.a << " " << c.b.b << " " << c.kind << " " << c.c; for (auto& r : p.R) o << " " << r.x << " " << r.y << " " << r.b.t << " " << r.b.a << " " << r.b.b; return o.str(); }
void dispatch(Ctx& c, const std::string& k) { std::istringstream in(k); std::string w, m; P p; size_t nc, nr; in >> w >> p.opt >> m >> nc >> nr; p.max = m == "max"; for (size_t i = 0; i < nc; i++) { Col q; in >> q.b.t >> q.b.a >> q.b.b >> q.kind >> q.c; p.C.push_back(q); } for (size_t i = 0; i < nr; i++) { Row q; in >> q.x >> q.y >> q.b.t >> q.b.a >> q.b.b; p.R.push_back(q); } Run r = guarded([&]() { lp(c, p); }); if (!r.ok()) c.fail("error", r.err); }
void go(Ctx& c, const P& p) { if (!c.take()) return; std::string k = key(p); c.mark(k); dispatch(c, k); }
void run(Ctx& c) { bool th = c.thorough; auto sub = [](std::vector<int> i) { std::vector<Bd> r; for (int x : i) r.push_back(BD[x]); return r; };
  c.note("one variable: every bound, kind, objective coefficient -1..2, direction, up to two rows with coefficients -2..3 and every bound, every solver option"); for (auto& b : BD) for (int k = 0; k < 3; k++) for (L o : {-1, 0, 2}) for (bool m : {false, true}) { for (int opt = 0; opt < 20; opt++) { if (opt == 10) continue; if (opt % 10 != 5) go(c, {m, {{b, k, o}}, {}, opt}); for (auto& rb : BD) for (L x : {-2, 0, 1, 3}) if (x || opt % 10 != 5) go(c, {m, {{b, k, o}}, {{x, 0, rb}}, opt}); } for (auto& r1 : BD) for (auto& r2 : sub({2, 3, 4, 7, 9})) for (L x : {-1, 2}) for (L y : {1, 3}) for (int opt : {0, 19}) go(c, {m, {{b, k, o}}, {{x, 0, r1}, {y, 0, r2}}, opt}); }
  c.note("two variables: bounds free, fixed, upper, lower, both; kinds; two rows over coefficients -1..3 (thorough: three rows, more bounds)"); auto vb = th ? sub({0, 1, 2, 3, 4, 6}) : sub({0, 3, 4}); auto rb = th ? sub({1, 2, 3, 5, 7, 10, 11}) : sub({1, 10, 11, 7}); std::vector<std::pair<L, L>> co{{1, 1}, {1, -1}, {2, 3}, {-1, 2}, {0, 1}, {3, 1}}; if (th) { co.push_back({-2, 1}); co.push_back({5, 2}); } std::vector<std::pair<L, L>> ob{{1, 1}, {-1, 2}, {3, -1}};
  for (auto& b0 : vb) for (auto& b1 : vb) for (int k0 = 0; k0 < 3; k0++) for (int k1 = 0; k1 < 3; k1++) for (auto& o : ob) for (bool m : {false, true}) for (size_t i = 0; i < co.size(); i++) for (auto& r1 : rb) for (size_t j = 0; j < co.size(); j++) for (auto& r2 : rb) { if (!th && (i * 7 + j) % 2) continue; go(c, {m, {{b0, k0, o.first}, {b1, k1, o.second}}, {{co[i].first, co[i].second, r1}, {co[j].first, co[j].second, r2}}, (int)((i + j) % 2 ? 0 : 10)}); }
  c.note("two variables, three rows, every solver option"); for (auto& b0 : sub({3, 4})) for (auto& b1 : sub({3, 0})) for (int k0 = 0; k0 < 2; k0++) for (int k1 = 0; k1 < 2; k1++) for (auto& o : ob) for (bool m : {false, true}) for (auto& r1 : sub({2, 9})) for (auto& r2 : sub({3, 10})) for (auto& r3 : sub({10, 1, 11})) for (int i = 0; i < 4; i++) for (int opt = 0; opt < 20; opt++) { if (opt == 10) continue; go(c, {m, {{b0, k0, o.first}, {b1, k1, o.second}}, {{co[i].first, co[i].second, r1}, {co[i + 1].first, co[i + 1].second, r2}, {co[(i + 3) % 6].first, co[(i + 3) % 6].second, r3}}, opt}); }
}
void one(Ctx& c, const std::string& key) { c.mark(key); dispatch(c, key); }
}
kv::Module kv::module{"P25", run, one, "every linear and integer program of the listed family, built in two orders and solved with every solver option, against exact enumeration of all corners and all integer points", {"programs whose optimum is unbounded, and integer programs with an unbounded region, are not judged", "GLPK only (the other solvers are not part of this build); the interior point option is not judged, and GLPK's exact simplex may give up (free rows, empty programs)"}};
