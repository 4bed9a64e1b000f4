// Arithmetic and parsing helpers against 128-bit integer arithmetic, for every operand of a bounded range.
#include "kiter_api.hpp"
#include <commons/commons.h>
#include <commons/GroupList.h>
using namespace kv;
extern "C" int backtrace(void**, int) { return 0; }
namespace {
typedef Fraction<long> FR; typedef __int128 I;
std::string S(I v) { bool n = v < 0; if (n) v = -v; std::string s; do { s = char('0' + (int)(v % 10)) + s; v /= 10; } while (v); return (n ? "-" : "") + s; }
I absI(I a) { return a < 0 ? -a : a; } I gcdI(I a, I b) { a = absI(a); b = absI(b); while (b) { I t = a % b; a = b; b = t; } return a; }
I fl(I a, I b) { I q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q--; return q; } // b > 0
std::vector<long> grid(bool th) { std::vector<long> v; int R = th ? 40 : 20; for (int i = -R; i <= R; i++) v.push_back(i); for (long b : {97L, 360L, 46341L, 65536L, 1000003L}) { v.push_back(b); v.push_back(-b); } return v; }
std::vector<long> pgrid(bool th) { std::vector<long> v; for (long x : grid(th)) if (x > 0) v.push_back(x); return v; }
struct Ex { I n, d; }; Ex norm(I n, I d) { I g = gcdI(n, d); if (g == 0) g = 1; n /= g; d /= g; if (d < 0) { n = -n; d = -d; } return {n, d}; }
bool is(const FR& f, Ex e) { return f.numerator() == (long)e.n && f.denominator() == (long)e.d; }
std::string text(const FR& f) { return std::to_string(f.numerator()) + "/" + std::to_string(f.denominator()); }
bool parts(const std::string& key, std::string& op, std::vector<long>& v) { std::istringstream in(key); if (!(in >> op)) return false; long x; v.clear(); while (in >> x) v.push_back(x); return true; }
void fracPair(Ctx& c, long a, long b, long p, long q) { // a/b against p/q; b, q > 0
  FR x(a, b), y(p, q); Ex ex = norm(a, b), ey = norm(p, q); c.validated();
  if (!is(x, ex)) c.fail("fraction", "construction gives " + text(x)); I l = ex.n * ey.d, r = ey.n * ex.d;
  auto cmp = [&](const char* o, bool got, bool want) { if (got != want) c.fail("compare", text(x) + " " + o + " " + text(y) + " answers " + (got ? "true" : "false")); };
  cmp("<", x < y, l < r); cmp(">", x > y, l > r); cmp("==", x == y, l == r); cmp("!=", x != y, l != r); cmp("<=", x <= y, l <= r);
  if (!is(x * y, norm(ex.n * ey.n, ex.d * ey.d))) c.fail("multiply", text(x) + " * " + text(y) + " gives " + text(x * y)); { FR z = x; z *= y; if (!is(z, norm(ex.n * ey.n, ex.d * ey.d))) c.fail("multiply", text(x) + " *= " + text(y) + " gives " + text(z)); }
  if (p != 0) { Ex w = norm(ex.n * ey.d, ex.d * ey.n); FR z = x / y; if (ex.n == 0 ? z.numerator() != 0 : !is(z, w)) c.fail("divide", text(x) + " / " + text(y) + " gives " + text(z)); }
  if (q == 1) { FR z = x * p; if (!is(z, norm(ex.n * p, ex.d))) c.fail("multiply-int", text(x) + " * " + std::to_string(p) + " gives " + text(z));
    cmp("< int", x < p, ex.n < ex.d * p); cmp("== int", x == p, ex.n == ex.d * p); cmp("> int", x > p, ex.n > ex.d * p); cmp("!= int", x != p, ex.n != ex.d * p); cmp("<= int", x <= p, ex.n <= ex.d * p);
    if (p != 0) { FR w = x; w /= p; if (ex.n == 0 ? w.numerator() != 0 : !is(w, norm(ex.n, ex.d * p))) c.fail("divide-int", text(x) + " / " + std::to_string(p) + " gives " + text(w)); } } }
void round(Ctx& c, long v, long m) { // m > 0
  c.validated(); I f = fl(v, m) * m, u = -fl(-(I)v, m) * m; auto chk = [&](const char* n, long got, I want) { if (got != (long)want) c.fail("rounding", std::string(n) + "(" + std::to_string(v) + "," + std::to_string(m) + ") gives " + std::to_string(got) + " instead of " + S(want)); };
  chk("floor", commons::floor(v, m), f); chk("ceil", commons::ceil(v, m), u); chk("flooru", commons::flooru(v, m), f); chk("ceilu", commons::ceilu(v, m), u); chk("floord", commons::floord(v, m), f == v ? f - m : f); chk("ceild", commons::ceild(v, m), u == v ? u + m : u); { I q = (I)v - fl(v, m) * m; chk("modulo", commons::modulo(v, m), q); }
  chk("division", (long)std::floor(commons::division(v, m)), fl(v, m)); long double z = (long double)v / m; if (commons::isInteger(z) != (v % m == 0)) c.fail("rounding", "isInteger(" + std::to_string(v) + "/" + std::to_string(m) + ")"); }
void euclid(Ctx& c, long a, long b, long k) { I g = gcdI(a, b); if (g == 0) return; long t = (long)(g * k); c.validated(); auto r = commons::extended_euclide(a, b, t); if ((I)a * r.first + (I)b * r.second != (I)t) c.fail("euclid", "a=" + std::to_string(a) + " b=" + std::to_string(b) + ": " + std::to_string(r.first) + "*a + " + std::to_string(r.second) + "*b is not " + std::to_string(t)); }
// channel rate gcd over collections
void gcds(Ctx& c, const std::vector<long>& in, const std::vector<long>& out, long m) { models::Dataflow d; Vertex x = d.addVertex("x"), y = d.addVertex("y"); d.setPhasesQuantity(x, in.size()); d.setPhasesQuantity(y, out.size()); Edge e = d.addEdge(x, y, "e"); d.setEdgeInPhases(e, in); d.setEdgeOutPhases(e, out); I g = 0; for (long v : in) g = gcdI(g, v); for (long v : out) g = gcdI(g, v); c.validated(); const models::Dataflow& cd = d; if (d.computeFineGCD(e) != (long)g || cd.getFineGCD(e) != (long)g || d.getFineGCD(e) != (long)g) c.fail("gcd", "gcd of the rates is " + S(g) + ", computed " + std::to_string(d.computeFineGCD(e))); (void)m; }
// lists
void lists(Ctx& c, const std::vector<std::pair<int, int>>& items, bool spaces) { // (count, value); count -1: no multiplier
  std::string s; std::vector<std::string> want, plain; for (auto& i : items) { if (!s.empty()) s += spaces ? ", " : ","; std::string v = std::to_string(i.second), t = i.first < 0 ? v : std::to_string(i.first) + "*" + v; s += t; plain.push_back(t); for (int k = 0; k < (i.first < 0 ? 1 : i.first); k++) want.push_back(v); }
  c.validated(); if (commons::splitSDF3List(s) != want) c.fail("list", "'" + s + "' is read as " + commons::toString(commons::splitSDF3List(s))); if (commons::split<std::string>(s, ',') != plain) c.fail("split", "'" + s + "' is split into " + commons::toString(commons::split<std::string>(s, ',')));
  std::vector<long> nums, w; for (auto& i : items) w.push_back(i.second); std::string j = commons::join(w.begin(), w.end(), std::string(",")); if (commons::split<long>(j, ',') != w) c.fail("join", "split of join of the numbers " + j + " differs"); }
// grouping: keys linked by operations; every value belongs to the group of its keys
void groups(Ctx& c, const std::vector<int>& ops, int keys) { // op encodes (l, r); the value is its rank
  GroupList<long, long> g; std::vector<int> up(keys); std::iota(up.begin(), up.end(), 0); std::function<int(int)> fd = [&](int x) { return up[x] == x ? x : up[x] = fd(up[x]); }; std::vector<char> seen(keys, 0);
  for (size_t i = 0; i < ops.size(); i++) { int l = ops[i] / keys, r = ops[i] % keys; g.add(l + 1, r + 1, (long)i + 10); seen[l] = seen[r] = 1; up[fd(l)] = fd(r); }
  std::map<int, std::set<long>> M; for (size_t i = 0; i < ops.size(); i++) M[fd(ops[i] / keys)].insert((long)i + 10); std::multiset<std::set<long>> want, got; for (auto& m : M) want.insert(m.second); for (auto& s : g.getall()) got.insert(s); c.validated(); c.states(1); c.transitions(ops.size());
  if (want != got) { std::string t; for (auto& s : got) { t += "{"; for (long v : s) t += std::to_string(v - 10) + " "; t += "} "; } c.fail("groups", "linked operations are grouped as " + t); } }
void dispatch(Ctx& c, const std::string& key) { std::string op; std::vector<long> v; parts(key, op, v); c.evals(); c.outcome(op);
  Run r = guarded([&]() {
    if (op == "frac") fracPair(c, v[0], v[1], v[2], v[3]); else if (op == "round") round(c, v[0], v[1]); else if (op == "euclid") euclid(c, v[0], v[1], v[2]);
    else if (op == "gcd") { size_t n = v[0]; gcds(c, {v.begin() + 1, v.begin() + 1 + n}, {v.begin() + 1 + n, v.end()}, 0); }
    else if (op == "list") { std::vector<std::pair<int, int>> i; for (size_t k = 1; k + 1 < v.size(); k += 2) i.push_back({(int)v[k], (int)v[k + 1]}); lists(c, i, v[0]); }
    else if (op == "groups") groups(c, {v.begin() + 1, v.end()}, v[0]); });
  if (!r.ok()) c.fail("error", r.err); }
std::string K(const std::string& op, const std::vector<long>& v) { std::string s = op; for (long x : v) s += " " + std::to_string(x); return s; }
void go(Ctx& c, const std::string& op, const std::vector<long>& v) { if (!c.take()) return; std::string k = K(op, v); c.mark(k); dispatch(c, k); }
void run(Ctx& c) { bool th = c.thorough; auto gr = grid(th), pg = pgrid(th);
  c.note("fractions: every pair of numerators in [-20,20] (thorough 40) and corner values, denominators 1..20 (40) and corner values"); for (long a : gr) for (long b : pg) for (long p : gr) for (long q : pg) go(c, "frac", {a, b, p, q});
  c.note("rounding to multiples: values -2000..2000 (10000) and around powers of two, multiples 1..200 (500)"); { std::vector<long> vs; int R = th ? 10000 : 2000; for (int i = -R; i <= R; i++) vs.push_back(i); for (int e : {31, 32, 40, 52, 53, 60, 62}) for (long o = -3; o <= 3; o++) { vs.push_back((1L << e) + o); vs.push_back(-(1L << e) + o); } std::vector<long> ms; for (long m = 1; m <= (th ? 500 : 200); m++) ms.push_back(m); for (long m : {1000003L, (1L << 31) - 1, 1L << 31, (1L << 40) + 1}) ms.push_back(m); for (long v : vs) for (long m : ms) go(c, "round", {v, m}); }
  c.note("extended Euclid: operands -80..80 (200), right-hand sides -4..4 times the gcd"); int E = th ? 200 : 80; for (long a = -E; a <= E; a++) for (long b = -E; b <= E; b++) for (long k = -4; k <= 4; k++) go(c, "euclid", {a, b, k}); for (long a : {46341L, 1000003L, 65536L, 360360L}) for (long b : {46341L, 1000003L, 65536L, 510510L}) for (long k : {-3L, 1L, 7L}) go(c, "euclid", {a, b, k});
  c.note("rate gcd: every pair of rate vectors of length 1..3 over {0,1,2,3,4,6,9}"); { std::vector<std::vector<long>> vs; for (int n = 1; n <= 3; n++) for (auto& t : tuples(n, {0, 1, 2, 3, 4, 6, 9})) { if (sum(t) == 0) continue; if (n == 3 && !th && t[2] == 9) continue; vs.push_back({t.begin(), t.end()}); } for (auto& a : vs) for (auto& b : vs) { std::vector<long> v{(long)a.size()}; v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), b.begin(), b.end()); go(c, "gcd", v); } }
  c.note("lists: every list of up to 3 (4) items with multipliers none,0..3 and values -1,0,7,12"); { std::vector<std::pair<int, int>> it; for (int k : {-1, 0, 1, 2, 3}) for (int v : {-1, 0, 7, 12}) it.push_back({k, v}); std::vector<int> ix; for (size_t i = 0; i < it.size(); i++) ix.push_back(i); for (int n = 0; n <= (th ? 4 : 3); n++) for (auto& t : tuples(n, ix)) for (int sp : {0, 1}) { std::vector<long> v{sp}; for (int i : t) { v.push_back(it[i].first); v.push_back(it[i].second); } go(c, "list", v); } }
  c.note("grouping: every sequence of up to 4 (5) link operations over 4 keys, 5 (6) over 3 keys, up to 3 over 6 keys"); { for (auto kd : std::vector<std::pair<int, int>>{{4, th ? 5 : 4}, {3, th ? 6 : 5}, {6, 3}}) { std::vector<int> ix; for (int i = 0; i < kd.first * kd.first; i++) ix.push_back(i); for (int n = 1; n <= kd.second; n++) for (auto& t : tuples(n, ix)) { std::vector<long> v{kd.first}; v.insert(v.end(), t.begin(), t.end()); go(c, "groups", v); } } }
}
void one(Ctx& c, const std::string& key) { c.mark(key); dispatch(c, key); }
}
kv::Module kv::module{"P20", run, one, "every helper with every operand of the listed ranges against 128-bit integer arithmetic; the grouping helper against union-find for every operation sequence", {"denominators and multiples positive, operands such that results fit 64 bits", "the sign kept for a zero fraction and its denominator after division are not compared"}};
