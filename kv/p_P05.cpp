#include "kiter_api.hpp"
#include "stdfam.hpp"
#include <algorithms/schedulings.h>
#include <models/Scheduling.h>

using namespace kv;
namespace {
std::vector<long double> numbers(const std::string& s) { std::vector<long double> v; const char* p = s.c_str(); while (*p) { char* e; if ((*p >= '0' && *p <= '9') || *p == '-' || *p == '.') { v.push_back(strtold(p, &e)); if (e == p) p++; else p = e; } else if (!strncmp(p, "inf", 3)) { v.push_back(INFINITY); p += 3; } else p++; } return v; }
bool whole = false; // judge the schedule of a graph with several components as one schedule
int mode = 0; // 0: event-graph, LP and strictly periodic schedules; 1: as-soon-as-possible
void check(Ctx& c, const G& g) {
  auto r = repetition(g); if (r.empty()) return; c.evals();
  r = tool_r(g, r); if (r.empty()) return;
  std::vector<char> has(g.A.size(), 0); for (auto& ch : g.C) has[ch.s] = has[ch.t] = 1;
  bool unlim = false, init = false; for (size_t a = 0; a < g.A.size(); a++) { if (!has[a] && g.A[a].dur.size() > 1) return; if (g.A[a].reent <= 0) unlim = true; if (g.A[a].idur.size()) init = true; for (int x : g.A[a].dur) if (x == 0) return; }
  Thr t = hsdf_throughput(g, r); STStats S;
  auto judge = [&](const std::string& what, const models::Scheduling& res, bool announcedZeroOk) { // announcedZeroOk: the class may be empty although the graph is live (exactness is P04)
    long double om = res.getGraphPeriod(); bool zero = !std::isfinite((double)om) || res.getGraphThroughput() <= 1e-9; c.validated();
    if (zero) { c.count(what + ":none"); if (!announcedZeroOk && t.live && !t.unbounded) c.fail(what + "-none", "no schedule for a live graph"); return; }
    if (!t.live) { c.fail(what + "-deadlock", "schedule with period " + std::to_string((double)om) + " announced for a graph that deadlocks"); return; }
    if (t.unbounded || om <= 1e-12) { c.count("unbounded"); return; }
    std::vector<TaskSched> T(g.A.size()); std::vector<char> got(g.A.size(), 0);
    for (auto& it : res.getTaskSchedule()) { Vertex v = res.getDataflow()->getVertexById(it.first); int a = atoi(res.getDataflow()->getVertexName(v).c_str() + 1); got[a] = 1; T[a].period = it.second.periodic_starts.first; for (auto x : it.second.initial_starts) T[a].init.push_back(x); for (auto x : it.second.periodic_starts.second) T[a].starts.push_back(x); }
    for (size_t a = 0; a < g.A.size(); a++) if (!got[a]) { c.fail(what + "-missing", "actor " + std::to_string(a) + " has no schedule"); return; }
    std::string e = replay_schedule(g, r, T, om, S); c.count(what + ":replayed");
    if (e.size()) c.fail(what, e + " (graph period " + std::to_string((double)om) + ")"); };
  auto obj = [&](const std::string& what, bool zeroOk, std::function<models::Scheduling(models::Dataflow*)> f) {
    models::Dataflow* d = build(g); Run x = guarded([&]() { if (!computeRepetitionVector(d)) return; models::Scheduling s = f(d); judge(what, s, zeroOk); });
    if (!x.ok()) c.fail(what + "-error", x.err); delete d; };
  namespace as = algorithms::scheduling;
  if (mode == 0) {
    obj("KPeriodic", false, [](models::Dataflow* d) { return as::CSDF_KPeriodicScheduling(d); });
    obj("1Periodic", true, [](models::Dataflow* d) { return as::CSDF_1PeriodicScheduling(d); });
    if (!init) obj("LP1", true, [](models::Dataflow* d) { return as::CSDF_KPeriodicScheduling_LP(d, as::generate1PeriodicVector(d)); });
    auto wrap = [&](models::Dataflow* d, const scheduling_t& s) { long double om = INFINITY; for (auto& it : s) om = it.second.periodic_starts.first * d->getNi(d->getVertexById(it.first)) / (long double)it.second.periodic_starts.second.size(); return models::Scheduling(d, (TIME_UNIT)om, s); };
    if (!init && t.live && !t.unbounded) { obj("Bufferless", false, [&](models::Dataflow* d) { Capture hush; return wrap(d, as::bufferless_kperiodic_scheduling(d, false, false)); });
      obj("Bufferless-first", false, [&](models::Dataflow* d) { Capture hush; return wrap(d, as::bufferless_kperiodic_scheduling(d, true, false)); });
      obj("Bufferless-previous", false, [&](models::Dataflow* d) { Capture hush; return wrap(d, as::bufferless_kperiodic_scheduling(d, false, true)); });
    }
    if (!unlim) obj("SPeriodic", true, [](models::Dataflow* d) { return as::CSDF_SPeriodicScheduling(d); });
    if (!unlim && !init) { obj("LPN", false, [](models::Dataflow* d) { return as::CSDF_KPeriodicScheduling_LP(d, as::generateNPeriodicVector(d)); });
      obj("REALLP1", true, [](models::Dataflow* d) { return as::CSDF_RealPeriodicScheduling_LP(d); }); }
  } else if (!unlim && !init) { // ASAP: only reachable through its text output
    auto comp = scc(g); std::set<int> ids(comp.begin(), comp.end()); bool multi = ids.size() > 1; if (g.C.empty()) return; // a graph without channels: nothing to explore
    models::Dataflow* d = build(g); Run x = algo("ASAPScheduling", d); long double thr = 0;
    if (!x.ok()) c.fail("ASAP-error", x.err);
    else if (!number_after(x.out, "ASAP throughput is", thr)) c.fail("ASAP-output", x.out.substr(0, 200));
    else { c.validated(); long double want = t.live ? g.tden / t.period.ld() : 0; if (!close(thr, want, 2e-5L)) c.fail("ASAP-throughput", "announces " + std::to_string((double)thr) + " instead of " + std::to_string((double)want));
      if (t.live) { std::vector<TaskSched> T(g.A.size()); std::vector<char> got(g.A.size(), 0); std::stringstream ss(x.out); std::string l;
        while (std::getline(ss, l)) { size_t p1 = l.find(") "), p2 = l.find(" | starts:"), p3 = l.find(" | period:"), p4 = l.find(" | periodic starts:"), p5 = l.find(" | durations:"); if (p1 == std::string::npos || p5 == std::string::npos || p2 == std::string::npos || p3 == std::string::npos || p4 == std::string::npos) continue;
          int a = atoi(l.c_str() + p1 + 3); T[a].init = numbers(l.substr(p2 + 10, p3 - p2 - 10)); auto pe = numbers(l.substr(p3 + 10, p4 - p3 - 10)); T[a].period = pe.size() ? pe[0] : 0; T[a].starts = numbers(l.substr(p4 + 19, p5 - p4 - 19)); got[a] = 1; }
        if (multi) { c.count("ASAP:several components"); // the tool schedules each strongly connected component on its own
          bool lone = false; for (int id : ids) { std::vector<int> idx(g.A.size(), -1); G s; s.tden = g.tden; std::vector<ll> rs; std::vector<TaskSched> Ts; bool miss = false;
            for (size_t a = 0; a < g.A.size(); a++) if (comp[a] == id) { idx[a] = s.A.size(); s.A.push_back(g.A[a]); rs.push_back(r[a]); Ts.push_back(T[a]); if (!got[a]) miss = true; }
            for (auto ch : g.C) if (comp[ch.s] == id && comp[ch.t] == id) { ch.s = idx[ch.s]; ch.t = idx[ch.t]; s.C.push_back(ch); }
            if (s.C.empty()) { lone = true; continue; } // a component made of one actor without channel is not scheduled at all (see the known finding)
            if (miss) { c.fail("ASAP-missing", "actor without schedule: " + x.out.substr(0, 300)); continue; }
            bool big = false; for (auto& y : Ts) { auto snap = [&](long double& x) { long double z = x * g.tden; if (std::fabs((double)z) > 3e5) big = true; x = std::round((double)z) / (long double)g.tden; }; snap(y.period); for (auto& z : y.init) snap(z); for (auto& z : y.starts) snap(z); }
            if (big) continue; Thr ts = hsdf_throughput(s, rs); std::string e = replay_schedule(s, rs, Ts, ts.period.ld() / g.tden, S); c.count("ASAP:components replayed"); if (e.size()) c.fail("ASAP-component", e + " in: " + x.out.substr(0, 500)); }
          if (whole) { for (size_t a = 0; a < g.A.size(); a++) if (!got[a]) { c.fail("ASAP-whole", "actor " + std::to_string(a) + " has no schedule"); delete d; return; } std::string e = replay_schedule(g, r, T, t.period.ld() / g.tden, S); if (e.size()) c.fail("ASAP-whole", e); }
          (void)lone; delete d; c.states(S.states); c.transitions(S.transitions); return; }
        for (size_t a = 0; a < g.A.size(); a++) if (!got[a]) { c.fail("ASAP-missing", "actor without schedule: " + x.out.substr(0, 300)); delete d; return; }
        // the text has 6 significant digits; as-soon-as-possible dates are integer multiples of the time unit, so they are recovered exactly below 3e5 units
        bool big = false; auto snap = [&](long double& x) { long double y = x * g.tden; if (std::fabs((double)y) > 3e5) big = true; x = std::round((double)y) / (long double)g.tden; };
        for (auto& y : T) { snap(y.period); for (auto& x : y.init) snap(x); for (auto& x : y.starts) snap(x); }
        if (big) { c.count("ASAP:beyond printed precision"); delete d; return; }
        std::string e = replay_schedule(g, r, T, t.period.ld() / g.tden, S); c.count("ASAP:replayed"); if (e.size()) c.fail("ASAP", e + " in: " + x.out.substr(0, 500)); } }
    delete d;
  }
  c.states(S.states); c.transitions(S.transitions); c.outcome(t.live ? t.unbounded ? "unbounded" : t.period.str() : "deadlock");
}
void run(Ctx& c) {
  auto go = [&](const Family& f) { c.note((mode ? "ASAP: " : "") + f.name); Enumerator::run(f, [&](const G& g, const std::vector<ll>&) { each(c, g, [&](const G& x) { check(c, x); }); }); };
  mode = 1; whole = true; c.note("ASAP: schedules of graphs with several components, judged as a whole (2 fixed graphs)");
  for (const char* k : {"T1|1r1;2r1|0>1p1c1m0", "T1|1r1;1r1;1r1;1r1|0>1p1c1m1;1>0p1c1m0;2>3p1c1m0;3>2p1c1m1;1>2p1c1m0"}) each(c, G::parse(k), [&](const G& x) { check(c, x); });
  whole = false; int q = c.thorough ? 1 : 0; mode = 1; large_families(0, go); odd_families(q, go); throughput_families(q + 1, go);
  mode = 0; large_families(0, go); unlimited_families(q, go); odd_families(q, go); throughput_families(q, go);
}
void one(Ctx& c, const std::string& key) { c.mark(key); for (mode = 0; mode < 2; mode++) check(c, G::parse(key)); }
}
kv::Module kv::module{"P05", run, one, "every schedule produced for every graph of the listed families is replayed on an explicit token machine over all its transient and at least two further iterations", {"concurrency limit 1, or unlimited for single-phase actors", "all execution times positive", "as-soon-as-possible schedules: strongly connected graphs"}};
