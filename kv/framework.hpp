#pragma once
#include "graph.hpp"
#include <string>
#include <functional>
#include <map>
#include <set>
#include <vector>
#include <sstream>
#include <iostream>
#include <cstring>

namespace kv {
struct Shared; // in framework.cpp
struct Ctx {
  bool thorough = false; long seed = 1; bool replaying = false;
  // --- enumeration -------------------------------------------------------
  // take(): true when the next enumerated case belongs to this worker. Call mark(key) (or give key) before running it.
  bool take();
  void mark(const std::string& key);              // current case, shown on crash/time-out
  void fail(const std::string& kind, const std::string& msg); // current case violates the property
  void outcome(const std::string& o);             // distinct-outcome statistics
  void evals(long long k = 1); void validated(long long k = 1); void states(long long k); void transitions(long long k);
  void count(const std::string& name, long long k = 1);        // named counter (few names)
  void note(const std::string& name);                          // property-level remark (family sizes) printed in evidence
  long long failures = 0; std::string curKey;
};
struct Module {
  const char* id; void (*run)(Ctx&); void (*one)(Ctx&, const std::string& key);
  const char* rule; std::vector<std::string> assumptions; int case_timeout = 20; bool seq = false;
};
extern Module module; // defined by each property file
template <class F> inline void each(Ctx& c, const G& g, F f) { if (!c.take()) return; c.mark(g.key()); f(g); }
}
