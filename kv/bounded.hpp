// Capacities modelled as reverse channels: space taken when the producer starts, given back when the consumer ends.
#pragma once
#include "oracle.hpp"
namespace kv {
inline G bounded(const G& g, const std::vector<int>& cap) { G b = g; for (size_t i = 0; i < g.C.size(); i++) if (cap[i] >= 0) { Chan r; r.s = g.C[i].t; r.t = g.C[i].s; r.p = g.C[i].c; r.c = g.C[i].p; r.m = cap[i] - g.C[i].m; b.C.push_back(r); } return b; }
inline Q thrOf(const G& b, const std::vector<ll>& r) { Thr t = hsdf_throughput(b, r); return t.live ? t.unbounded ? Q(-1) : Q(1) / t.period : Q(0); } // iterations per tick, -1: unlimited
inline std::vector<int> smallest_caps(const G& g) { std::vector<int> lo; for (auto& c : g.C) { int mp = 0, mc = 0; for (int x : c.p) mp = std::max(mp, x); for (int x : c.c) mc = std::max(mc, x); lo.push_back(std::max(c.m, std::max(mp, mc))); } return lo; }
struct Point { int size; Q thr; std::vector<std::vector<int>> caps; };
// exact Pareto front: every distribution of every total size, smallest first, until the throughput of the unbounded graph (or `target`) is reached
inline std::vector<Point> pareto_front(const G& g, const std::vector<ll>& r, Q target, STStats& S, int maxSize = 60) {
  auto lo = smallest_caps(g); int base = 0; for (int x : lo) base += x; std::vector<Point> F; Q best(0);
  for (int size = base; size <= maxSize; size++) { Point p; p.size = size; p.thr = best; std::vector<int> cap(g.C.size());
    std::function<void(size_t, int)> rec = [&](size_t i, int left) { if (i + 1 == cap.size()) { cap[i] = lo[i] + left; S.states++; Q t = thrOf(bounded(g, cap), r); if (p.thr < t) { p.thr = t; p.caps.clear(); } if (t == p.thr && best < t) p.caps.push_back(cap); return; } for (int k = 0; k <= left; k++) { cap[i] = lo[i] + k; rec(i + 1, left - k); } };
    if (cap.empty()) return F; rec(0, size - base); if (best < p.thr) { F.push_back(p); best = p.thr; } if (best >= target) return F; }
  F.clear(); return F; // not reached within the bound
}
} // namespace kv
