// Forced into the generators' translation units: their random draws become choice points that a harness may script.
// Outside a scripted run they behave exactly like the standard ones.
#pragma once
#include <random>
#include <algorithm>
#include <vector>
#include <numeric>
namespace kv { struct Draws { bool on = false; std::vector<long> script, arity; const void* last = nullptr; int same = 0; long lastv = 0; size_t asked = 0;
  void start(const std::vector<long>& s) { on = true; script = s; arity.clear(); last = nullptr; same = 0; asked = 0; }
  long pick(const void* who, long n) { // value in 0..n-1; long runs on the same distribution (a draw repeated until accepted) and very long executions rotate instead of branching
    same = who == last ? same + 1 : 0; last = who; asked++; if (asked > 100000) throw std::runtime_error("draws without end"); if (same >= 4 || arity.size() >= 64) return lastv = (lastv + 1) % n;
    long v = arity.size() < script.size() ? script[arity.size()] % n : 0; arity.push_back(n); return lastv = v; } };
inline Draws draws; }
namespace std {
struct kv_engine : std::default_random_engine { using std::default_random_engine::default_random_engine; };
template <class T = int> struct kv_dist : std::uniform_int_distribution<T> { using B = std::uniform_int_distribution<T>; using B::B; template <class E> T operator()(E& e) { if (!kv::draws.on) return B::operator()(e); return this->a() + (T)kv::draws.pick(this, (long)(this->b() - this->a()) + 1); } };
}
#ifdef KV_SCRIPTED
#define default_random_engine kv_engine
#define uniform_int_distribution kv_dist
#endif
