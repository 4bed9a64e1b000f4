// Parallel exhaustive runner: N forked workers, every enumerated case is run exactly once; crashes and
// time-outs are attributed to the case, confirmed by a replay in a fresh process, and reported.
#include "framework.hpp"
#undef exit
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <time.h>
#include <fstream>
#include <algorithm>
#include <dirent.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#ifdef KV_COV
extern "C" void __gcov_dump(void);
static void kv_leave(int c) { __gcov_dump(); _exit(c); }
#define _exit kv_leave
#endif
namespace kv {
struct Slot { volatile long long idx, taken, states, transitions, evals, validated, fails; volatile double start; char key[8192]; volatile int active; int stop; struct { char n[40]; long long v; } cnt[48]; unsigned char out[8192]; char sample[4][1024]; int nsample; int nnotes; char notes[40][160]; volatile int done; };
static Slot* slots; static Slot* me; static int W = 8, w = 0; static long long resumeAt = 0, stopAfter = -1; static int failfd = -1; static double deadline = 0;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static long rss_mb() { FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0; long a, b; int k = fscanf(f, "%ld %ld", &a, &b); fclose(f); return k == 2 ? b / 256 : 0; }
static long long idx_local = 0; static long sinceRss = 0; static bool singleMode = false; static std::string singleOut;
struct StopRun {}; static long long fastStop = getenv("KV_FAST") ? atoll(getenv("KV_FAST")) : 0; // development aid: end a run after that many failures
bool Ctx::take() {
  if (singleMode) return true;
  long long i = idx_local++;
  if (i % W != w) return false; if (i < resumeAt) return false;
  if (stopAfter >= 0 && i > stopAfter) throw StopRun();
  me->active = 0;
  if (++sinceRss >= 256) { sinceRss = 0; if (rss_mb() > 1500) { me->idx = i; _exit(77); } if (now() > deadline) { me->stop = 1; throw StopRun(); } }
  if (fastStop) { long long n = 0; for (int k = 0; k < W; k++) n += slots[k].fails; if (n >= fastStop) { me->stop = 2; throw StopRun(); } }
  if (failures >= 200) { me->stop = 2; throw StopRun(); }
  me->idx = i; me->taken++; return true;
}
void Ctx::mark(const std::string& k) { curKey = k; if (me) { strncpy(me->key, k.c_str(), sizeof me->key - 1); me->start = now(); me->active = 1; if (me->nsample < 4 && (me->nsample == 0 || (me->taken % (1 << (6 * me->nsample))) == 7)) { strncpy(me->sample[me->nsample++], k.c_str(), 1023); } } }
static std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += ' '; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
void Ctx::fail(const std::string& kind, const std::string& msg) {
  failures++; if (me) me->fails++; std::string m = msg; for (char& c : m) if (c == '\n' || c == '\t') c = ' ';
  std::string l = std::to_string(singleMode ? -1 : idx_local - 1) + "\t" + kind + "\t" + curKey + "\t" + m + "\n";
  if (singleMode) singleOut += l; if (failfd >= 0) { ssize_t r = write(failfd, l.data(), l.size()); (void)r; }
}
void Ctx::outcome(const std::string& o) { if (!me) return; unsigned h = std::hash<std::string>()(o) % (8192 * 8); me->out[h / 8] |= 1 << (h % 8); }
void Ctx::evals(long long k) { if (me) me->evals += k; }
void Ctx::validated(long long k) { if (me) me->validated += k; }
void Ctx::states(long long k) { if (me) me->states += k; }
void Ctx::transitions(long long k) { if (me) me->transitions += k; }
void Ctx::count(const std::string& n, long long k) { if (!me) return; for (auto& c : me->cnt) { if (!c.n[0]) strncpy(c.n, n.c_str(), 39); if (n == c.n) { c.v += k; return; } } }
void Ctx::note(const std::string& n) { if (!me || w) return; for (int i = 0; i < me->nnotes; i++) if (n == me->notes[i]) return; if (me->nnotes < 40) strncpy(me->notes[me->nnotes++], n.c_str(), 159); }
} // namespace kv
using namespace kv;
static std::string V() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n] = 0; std::string p = b; const char* e = getenv("KV_ROOT"); if (e) return e; for (int i = 0; i < 3; i++) p = p.substr(0, p.find_last_of('/')); return p; } // <root>/build/rel/kv_X
static std::string scratch;
static void child_setup() { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() == 1) _exit(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); if(!getenv("KV_DBG")) dup2(n, 2); std::cerr.setstate(std::ios::failbit); struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); }
// runs one case alone; returns list of "kind\tkey\tmsg"; crash / timeout are reported as kinds
struct F1 { std::string kind, key, msg; long long idx; };
static std::vector<F1> run_child(std::function<void(Ctx&)> body, bool thorough, double limit, const std::string& key) {
  std::string f = scratch + "/single." + std::to_string(getpid()); unlink(f.c_str());
  pid_t p = fork();
  if (p == 0) { child_setup(); std::string d = scratch + "/cwd.s"; mkdir(d.c_str(), 0777); if (chdir(d.c_str())) {} failfd = open(f.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0666); Ctx c; c.thorough = thorough; c.replaying = true; c.curKey = key; c.seed = 1; try { body(c); } catch (StopRun&) {} catch (kv_exit_exc& e) { c.fail("uncaught", "library called exit(" + std::to_string(e.code) + ")"); } catch (std::exception& e) { c.fail("uncaught", std::string("exception ") + e.what()); } _exit(0); }
  double t0 = now(); int st = 0; bool to = false; for (;;) { pid_t r = waitpid(p, &st, WNOHANG); if (r == p) break; if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); to = true; break; } usleep(2000); }
  std::vector<F1> R; std::ifstream in(f); std::string l; while (std::getline(in, l)) { std::stringstream s(l); std::string i, k, y, m; std::getline(s, i, '\t'); std::getline(s, k, '\t'); std::getline(s, y, '\t'); std::getline(s, m); R.push_back({k, y, m, atoll(i.c_str())}); } unlink(f.c_str());
  if (to) R.push_back({"timeout", key, "no answer within " + std::to_string((int)limit) + " s", -1});
  else if (WIFSIGNALED(st)) R.push_back({"crash", key, std::string("killed by signal ") + std::to_string(WTERMSIG(st)), -1});
  else if (WEXITSTATUS(st) != 0) R.push_back({"crash", key, std::string("exit status ") + std::to_string(WEXITSTATUS(st)), -1});
  return R;
}
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0); double T0 = now(); std::string root = V(); bool thorough = false; std::string replay, evid; double cap = 0; bool quiet = false;
  const char* te = getenv("VERIF_TIER"); if (te && !strcmp(te, "thorough")) thorough = true;
  if (const char* e = getenv("KV_WORKERS")) W = atoi(e); else { long n = sysconf(_SC_NPROCESSORS_ONLN); W = n < 1 ? 1 : n > 16 ? 16 : n; }
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--tier") thorough = !strcmp(argv[++i], "thorough"); else if (a == "--replay") replay = argv[++i]; else if (a == "--cap") cap = atof(argv[++i]); else if (a == "--key") { replay = "key:"; replay += argv[++i]; } else if (a == "--noevidence") quiet = true; }
  long seed = getenv("VERIF_SEED") ? atol(getenv("VERIF_SEED")) : 1; std::string id = module.id;
  char tmpl[] = "/tmp/kvrun.XXXXXX"; scratch = mkdtemp(tmpl); auto cleanup = [&]() { std::string c = "rm -rf " + scratch; if (scratch.compare(0, 11, "/tmp/kvrun.") == 0) { int r = system(c.c_str()); (void)r; } };
  if (replay.size()) { // replay one case (file written by a violation, or a literal key)
    std::string key; int rw = -1, rW = 1; long long from = 0, to = 0; bool th = thorough;
    if (replay.compare(0, 4, "key:") == 0) key = replay.substr(4); else { std::ifstream in(replay); std::string l; while (std::getline(in, l)) { if (l.compare(0, 5, "case ") == 0) key = l.substr(5); if (l.compare(0, 8, "segment ") == 0) { int t; sscanf(l.c_str() + 8, "%d %d %lld %lld %d", &rw, &rW, &from, &to, &t); th = t; } } }
    std::vector<F1> r;
    if (rw >= 0) { w = rw; W = rW; resumeAt = from; stopAfter = to; me = (Slot*)calloc(1, sizeof(Slot)); deadline = now() + 1e9; r = run_child([&](Ctx& c) { module.run(c); }, th, 600, key); }
    else { singleMode = true; r = run_child([&](Ctx& c) { module.one(c, key); }, th, 300, key); }
    for (auto& f : r) printf("%s\t%s\t%s\n", f.kind.c_str(), f.key.c_str(), f.msg.c_str()); printf(r.size() ? "REPLAY: property violated\n" : "REPLAY: property holds on this case\n"); cleanup(); return r.size() ? 1 : 0; }
  if (cap == 0) cap = thorough ? 6 * 3600 : 450; // with the build and the re-runs below a quick check stays under 900 s
  if (const char* e = getenv("KV_CAP")) cap = atof(e);
  slots = (Slot*)mmap(0, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(slots, 0, sizeof(Slot) * W);
  std::vector<pid_t> pid(W, 0); std::vector<long long> res(W, 0); std::vector<std::vector<long long>> segs(W, {0}); deadline = T0 + cap;
  std::vector<F1> pendingBad; std::vector<int> badw; int abnormal = 0;
  auto spawn = [&](int k) { pid_t p = fork(); if (p == 0) { w = k; me = &slots[k]; resumeAt = res[k]; child_setup(); std::string d = scratch + "/cwd." + std::to_string(k); mkdir(d.c_str(), 0777); if (chdir(d.c_str())) {} failfd = open((scratch + "/fail." + std::to_string(k)).c_str(), O_CREAT | O_WRONLY | O_APPEND, 0666); Ctx c; c.thorough = thorough; c.seed = seed; c.failures = slots[k].fails; try { module.run(c); } catch (StopRun&) {} catch (kv_exit_exc& e) { c.fail("uncaught", "library called exit(" + std::to_string(e.code) + ")"); me->active = 0; _exit(78); } catch (std::exception& e) { c.fail("uncaught", std::string("exception ") + e.what()); me->active = 0; _exit(78); } me->active = 0; me->done = 1; _exit(0); } pid[k] = p; };
  for (int k = 0; k < W; k++) spawn(k);
  int alive = W;
  while (alive) { usleep(20000);
    for (int k = 0; k < W; k++) if (pid[k]) { int st; pid_t r = waitpid(pid[k], &st, WNOHANG); bool to = false;
      if (r == 0) { if (slots[k].active && now() - slots[k].start > module.case_timeout && slots[k].start > 0) { kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0); to = true; } else continue; }
      pid[k] = 0; alive--;
      if (!to && WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[k].done) continue;
      if (!to && WIFEXITED(st) && WEXITSTATUS(st) == 77) { res[k] = slots[k].idx; segs[k].push_back(res[k]); }
      else { abnormal++; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 78)) { pendingBad.push_back({to ? "timeout" : "crash", slots[k].key, to ? "time-out" : "crash", slots[k].idx}); badw.push_back(k); } res[k] = slots[k].idx + 1; segs[k].push_back(res[k]); slots[k].active = 0; if (pendingBad.size() > (thorough ? 60u : 16u)) { slots[k].stop = 2; continue; } }
      spawn(k); alive++; } }
  // ---- collect failures ----------------------------------------------------
  struct FF { F1 f; int w; }; std::vector<FF> all;
  for (int k = 0; k < W; k++) { std::ifstream in(scratch + "/fail." + std::to_string(k)); std::string l; while (std::getline(in, l)) { std::stringstream s(l); std::string i, kd, y, m; std::getline(s, i, '\t'); std::getline(s, kd, '\t'); std::getline(s, y, '\t'); std::getline(s, m); all.push_back({{kd, y, m, atoll(i.c_str())}, k}); } }
  for (size_t i = 0; i < pendingBad.size(); i++) all.push_back({pendingBad[i], badw[i]});
  std::stable_sort(all.begin(), all.end(), [](const FF& a, const FF& b) { return a.f.key.size() != b.f.key.size() ? a.f.key.size() < b.f.key.size() : a.f.key < b.f.key; });
  // known findings
  struct KF { std::string kind, key, what; bool seen; }; std::vector<KF> kfs; { std::ifstream in(root + "/known_findings.txt"); std::string l; while (std::getline(in, l)) { std::string pre = "finding: property=" + id + " "; if (l.compare(0, pre.size(), pre)) continue; size_t a = l.find("kind="), b = l.find(" case="), c = l.find(" :: "); if (a == std::string::npos || b == std::string::npos || c == std::string::npos) continue; kfs.push_back({l.substr(a + 5, b - a - 5), l.substr(b + 6, c - b - 6), l.substr(c + 4), false}); } }
  bool sm = singleMode; singleMode = true; Slot* sme = me; me = nullptr;
  for (auto& k : kfs) { auto r = run_child([&](Ctx& c) { module.one(c, k.key); }, thorough, 120, k.key); for (auto& f : r) if (f.kind == k.kind) { k.seen = true; } if (k.seen) printf("KNOWN-FINDING: property=%s %s [case %s]\n", id.c_str(), k.what.c_str(), k.key.c_str()); }
  double R0 = now(), budget = thorough ? 1e9 : 240; // time for re-running failing cases
  auto left = [&](double want) { return std::max(2.0 * module.case_timeout, std::min(want, R0 + budget - now())); };
  std::map<std::string, int> shown; int viol = 0, unrepro = 0, suppressed = 0, tried = 0; mkdir((root + "/replays").c_str(), 0777); std::set<std::string> doneKeys;
  std::vector<std::string> msgs;
  for (auto& x : all) { bool kn = false; for (auto& k : kfs) if (k.kind == x.f.kind && k.key == x.f.key) kn = true; if (kn) { suppressed++; continue; }
    if (now() - R0 > budget) break;
    if (shown[x.f.kind] >= 2 || tried > 24 || !doneKeys.insert(x.f.kind + x.f.key).second) continue; tried++;
    auto r = run_child([&](Ctx& c) { module.one(c, x.f.key); }, thorough, left(x.f.kind == "timeout" ? (thorough ? 150 : 60) : thorough ? 300 : 120), x.f.key); std::string seg; const F1* hit = nullptr;
    for (auto& f : r) { bool kk = false; for (auto& k : kfs) if (k.kind == f.kind && k.key == f.key) kk = true; if (!kk) { hit = &f; if (f.kind == x.f.kind) break; } }
    std::vector<F1> r2;
    if (!hit && x.f.kind != "timeout" && x.f.idx >= 0) { // history dependent? re-run the worker's segment up to this case
      long long from = 0; for (long long s : segs[x.w]) if (s <= x.f.idx) from = std::max(from, s); from = std::max(from, x.f.idx - 20000LL * W);
      int ow = w; long long ra = resumeAt, sa = stopAfter; w = x.w; resumeAt = from; stopAfter = x.f.idx; singleMode = false; idx_local = 0; Slot* tmp = (Slot*)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); me = tmp; double od = deadline; deadline = now() + 1e9;
      r2 = run_child([&](Ctx& c) { module.run(c); }, thorough, left(120), x.f.key); deadline = od; me = nullptr; munmap(tmp, sizeof(Slot)); singleMode = true; w = ow; resumeAt = ra; stopAfter = sa;
      for (auto& f : r2) if (f.key == x.f.key && f.kind == x.f.kind) hit = &f;
      if (hit) { seg = "segment " + std::to_string(x.w) + " " + std::to_string(W) + " " + std::to_string(from) + " " + std::to_string(x.f.idx) + " " + std::to_string(thorough ? 1 : 0); } }
    if (!hit) { unrepro++; msgs.push_back("note: not reproduced alone, not reported: " + x.f.kind + " " + x.f.key + " " + x.f.msg); continue; }
    shown[x.f.kind]++; viol++; std::string path = root + "/replays/" + id + "-" + std::to_string(std::hash<std::string>()(hit->kind + hit->key) % 1000000007) + ".txt";
    { std::ofstream o(path); o << "property " << id << "\nkind " << hit->kind << "\ncase " << hit->key << "\nmessage " << hit->msg << "\n" << seg << (seg.size() ? "\n" : "") << "# replay: /verif/check " << id << " --replay " << path << "\n"; }
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str()); printf("  kind=%s case=%s\n  %s\n", hit->kind.c_str(), hit->key.c_str(), hit->msg.c_str());
  }
  singleMode = sm; me = sme;
  for (auto& m : msgs) printf("%s\n", m.c_str());
  // ---- evidence --------------------------------------------------------------
  long long st = 0, tr = 0, ev = 0, va = 0, tk = 0; std::map<std::string, long long> cnt; unsigned char out[8192] = {0}; bool capped = false; std::set<std::string> samples;
  for (int k = 0; k < W; k++) { st += slots[k].states; tr += slots[k].transitions; ev += slots[k].evals; va += slots[k].validated; tk += slots[k].taken; if (slots[k].stop) capped = true; for (auto& c : slots[k].cnt) if (c.n[0]) cnt[c.n] += c.v; for (int i = 0; i < 8192; i++) out[i] |= slots[k].out[i]; for (int i = 0; i < slots[k].nsample; i++) if (samples.size() < 12) samples.insert(slots[k].sample[i]); }
  long distinct = 0; for (unsigned char c : out) distinct += __builtin_popcount(c); double wall = now() - T0;
  std::ostringstream e; e << "{\"property\":\"" << id << "\",\"tier\":\"" << (thorough ? "thorough" : "quick") << "\",\"seed\":" << seed << ",\"level\":\"model_checking\",\"coverage\":{\"states\":" << st << ",\"transitions\":" << tr << ",\"traces_validated_against_impl\":" << va << ",\"evaluations\":" << ev << ",\"cases_enumerated\":" << tk << ",\"distinct_outcomes\":" << distinct << ",\"exhaustive\":" << (capped || abnormal ? "false" : "true") << ",\"rule\":\"" << esc(module.rule) << "\"";
  for (auto& c : cnt) e << ",\"n_" << esc(c.first) << "\":" << c.second;
  e << ",\"families\":["; for (int i = 0; i < slots[0].nnotes; i++) e << (i ? "," : "") << "\"" << esc(slots[0].notes[i]) << "\""; e << "],\"samples\":["; bool f = true; for (auto& s : samples) { e << (f ? "" : ",") << "\"" << esc(s) << "\""; f = false; }
  e << "],\"workers\":" << W << ",\"worker_respawns_abnormal\":" << abnormal << ",\"failing_cases_suppressed_as_known\":" << suppressed << ",\"failing_cases_not_reproduced\":" << unrepro << "},\"assumptions\":["; for (size_t i = 0; i < module.assumptions.size(); i++) e << (i ? "," : "") << "\"" << esc(module.assumptions[i]) << "\"";
  e << "],\"wall_s\":" << wall << ",\"violations\":" << viol << "}\n";
  if (!quiet) { mkdir((root + "/evidence").c_str(), 0777); std::ofstream o(root + "/evidence/" + id + ".json"); o << e.str(); }
  printf("%s: %lld cases, %lld states, %lld transitions, %lld traces validated, %ld distinct outcomes, %s, %.1f s, %d violation(s)%s\n", id.c_str(), tk, st, tr, va, distinct, capped ? "CAPPED" : "complete", wall, viol, suppressed ? " (known findings suppressed)" : "");
  for (auto& c : cnt) printf("   %s = %lld\n", c.first.c_str(), c.second);
  for (int i = 0; i < slots[0].nnotes; i++) printf("   %s\n", slots[0].notes[i]);
  cleanup(); return viol ? 1 : 0;
}
