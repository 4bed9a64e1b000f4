// Small, boring description of a CSDF graph used by generators and oracles.
#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <numeric>
#include <algorithm>
#include <map>
#include <set>
#include <cassert>
#include <cstdint>
#include <functional>

namespace kv {
typedef long long ll;
typedef __int128 i128;

struct Q { // exact rational
  i128 n, d;
  Q(ll a = 0) : n(a), d(1) {}
  Q(i128 a, i128 b) : n(a), d(b) { norm(); }
  static i128 g(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
  void norm() { if (d < 0) { n = -n; d = -d; } i128 k = g(n, d); if (k > 1) { n /= k; d /= k; } }
  Q operator+(const Q& o) const { return Q(n * o.d + o.n * d, d * o.d); }
  Q operator-(const Q& o) const { return Q(n * o.d - o.n * d, d * o.d); }
  Q operator*(const Q& o) const { return Q(n * o.n, d * o.d); }
  Q operator/(const Q& o) const { return Q(n * o.d, d * o.n); }
  bool operator==(const Q& o) const { return n == o.n && d == o.d; }
  bool operator!=(const Q& o) const { return !(*this == o); }
  bool operator<(const Q& o) const { return n * o.d < o.n * d; }
  bool operator<=(const Q& o) const { return n * o.d <= o.n * d; }
  bool operator>(const Q& o) const { return o < *this; }
  bool operator>=(const Q& o) const { return o <= *this; }
  long double ld() const { return (long double)n / (long double)d; }
  std::string str() const { std::ostringstream s; s << (ll)n; if (d != 1) s << "/" << (ll)d; return s.str(); }
};

struct Actor { std::vector<int> dur; int reent = 1; std::vector<int> idur; };
struct Chan { int s, t; std::vector<int> p, c; int m; std::vector<int> ip, ic; };
struct G {
  std::vector<Actor> A; std::vector<Chan> C;
  int tden = 1; // durations are dur/tden time units
  ll tok = 1;   // one token here stands for this many tokens of the real graph (all rates and markings are scaled alike)
  std::string key() const {
    std::ostringstream o; auto L = [&](const std::vector<int>& v) { for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; };
    o << "T" << tden; if (tok != 1) o << "*" << tok; o << "|";
    for (size_t i = 0; i < A.size(); i++) { if (i) o << ";"; if (A[i].idur.size()) { L(A[i].idur); o << ":"; } L(A[i].dur); o << "r" << A[i].reent; }
    o << "|";
    for (size_t i = 0; i < C.size(); i++) { if (i) o << ";"; o << C[i].s << ">" << C[i].t << "p";
      if (C[i].ip.size()) { L(C[i].ip); o << ":"; } L(C[i].p); o << "c"; if (C[i].ic.size()) { L(C[i].ic); o << ":"; } L(C[i].c); o << "m" << C[i].m; }
    return o.str();
  }
  static void list2(const std::string& s, std::vector<int>& init, std::vector<int>& per) {
    auto f = [](const std::string& x) { std::vector<int> r; std::stringstream st(x); std::string e; while (std::getline(st, e, ',')) r.push_back(std::stoi(e)); return r; };
    size_t k = s.find(':'); if (k == std::string::npos) per = f(s); else { init = f(s.substr(0, k)); per = f(s.substr(k + 1)); }
  }
  static G parse(const std::string& k) {
    G g; std::stringstream st(k); std::string t, a, c; std::getline(st, t, '|'); std::getline(st, a, '|'); std::getline(st, c, '|');
    g.tden = std::stoi(t.substr(1)); { size_t k = t.find('*'); if (k != std::string::npos) g.tok = std::stoll(t.substr(k + 1)); } std::string e; std::stringstream sa(a), sc(c);
    while (std::getline(sa, e, ';')) { Actor x; size_t r = e.find('r'); list2(e.substr(0, r), x.idur, x.dur); x.reent = std::stoi(e.substr(r + 1)); g.A.push_back(x); }
    while (std::getline(sc, e, ';')) { Chan x; size_t gt = e.find('>'), p = e.find('p'), cc = e.find('c'), m = e.find('m');
      x.s = std::stoi(e.substr(0, gt)); x.t = std::stoi(e.substr(gt + 1, p - gt - 1)); list2(e.substr(p + 1, cc - p - 1), x.ip, x.p); list2(e.substr(cc + 1, m - cc - 1), x.ic, x.c); x.m = std::stoi(e.substr(m + 1)); g.C.push_back(x); }
    return g;
  }
};
inline ll sum(const std::vector<int>& v) { ll s = 0; for (int x : v) s += x; return s; }
inline int phases(const G& g, int a) { return (int)g.A[a].dur.size(); }

// weakly connected components
inline std::vector<int> wcc(const G& g, int* count = nullptr) {
  std::vector<int> c(g.A.size(), -1); int k = 0;
  for (size_t i = 0; i < g.A.size(); i++) if (c[i] < 0) {
    std::vector<int> st{(int)i}; c[i] = k;
    while (st.size()) { int v = st.back(); st.pop_back(); for (auto& e : g.C) { int o = e.s == v ? e.t : e.t == v ? e.s : -1; if (o >= 0 && c[o] < 0) { c[o] = k; st.push_back(o); } } }
    k++; }
  if (count) *count = k; return c;
}
// strongly connected components by mutual reachability (Warshall), ids = smallest member
inline std::vector<int> scc(const G& g) {
  int n = g.A.size(); std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; i++) r[i][i] = 1;
  for (auto& e : g.C) r[e.s][e.t] = 1;
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (r[i][k]) for (int j = 0; j < n; j++) if (r[k][j]) r[i][j] = 1;
  std::vector<int> c(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r[i][j] && r[j][i]) { c[i] = j; break; }
  return c;
}
// Repetition vector (whole phase cycles per iteration), minimal per weakly connected component; empty if inconsistent.
inline std::vector<ll> repetition(const G& g) {
  int n = g.A.size(); std::vector<Q> f(n, Q(0)); auto comp = wcc(g);
  for (auto& e : g.C) if (sum(e.p) == 0 || sum(e.c) == 0) return {};
  std::vector<ll> r(n, 0);
  for (int i = 0; i < n; i++) if (f[i] == Q(0)) {
    f[i] = Q(1); bool ch = true;
    while (ch) { ch = false; for (auto& e : g.C) { Q ra = Q(sum(e.p)) / Q(sum(e.c));
        if (f[e.s] != Q(0) && f[e.t] == Q(0)) { f[e.t] = f[e.s] * ra; ch = true; }
        else if (f[e.t] != Q(0) && f[e.s] == Q(0)) { f[e.s] = f[e.t] / ra; ch = true; } } }
    i128 l = 1, gg = 0;
    for (int j = 0; j < n; j++) if (comp[j] == comp[i]) l = l / Q::g(l, f[j].d) * f[j].d;
    for (int j = 0; j < n; j++) if (comp[j] == comp[i]) { r[j] = (ll)(f[j].n * (l / f[j].d)); gg = Q::g(gg, r[j]); }
    for (int j = 0; j < n; j++) if (comp[j] == comp[i]) r[j] /= (ll)gg;
  }
  for (auto& e : g.C) if (r[e.s] * (ll)sum(e.p) != r[e.t] * (ll)sum(e.c)) return {};
  return r;
}
} // namespace kv
