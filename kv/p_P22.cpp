// The command line runs exactly the requested commands, in order, with their own parameters (kiter_main is the real main function).
#include "kiter_api.hpp"
#include "stdfam.hpp"
#include <printers/SDF3Wrapper.h>
#include <unistd.h>
#include <getopt.h>
#include <fstream>
using namespace kv;
extern int kiter_main(int argc, char** argv);
namespace {
typedef std::map<std::string, std::string> Par;
struct Call { std::string name; Par p; std::string graph; bool operator==(const Call& o) const { return name == o.name && p == o.p && graph == o.graph; } };
std::vector<Call> calls; models::Dataflow* made = nullptr;
std::string describe(models::Dataflow* d) { std::string s = d->getGraphName() + ":"; {ForEachVertex(d, v) { s += d->getVertexName(v) + ","; }} return s; }
void rec(const char* n, models::Dataflow* d, parameters_list_t p) { calls.push_back({n, p, describe(d)}); }
void recA(models::Dataflow* d, parameters_list_t p) { rec("A", d, p); }
void recB(models::Dataflow* d, parameters_list_t p) { rec("B", d, p); d->addVertex("n" + std::to_string(d->getVerticesCount())); }
models::Dataflow* gen(parameters_list_t p) { auto* d = new models::Dataflow(); d->setGraphName("gen"); d->addVertex("g"); calls.push_back({"G", p, ""}); return made = d; }
bool registered = KiterRegistry<transformation_t>::add({"KvA", "records its call", recA}) && KiterRegistry<transformation_t>::add({"KvB", "records its call and adds an actor", recB}) && KiterRegistry<generator_t>::add({"KvG", "records its call", gen});
struct Files { std::string dir, f[2]; Files() { char b[] = "/tmp/kv22_XXXXXX"; dir = mkdtemp(b); for (int i = 0; i < 2; i++) { G g; g.A.resize(i + 1); for (auto& a : g.A) { a.dur = {1}; a.reent = 1; } Chan c; c.s = i; c.t = 0; c.p = c.c = {1}; c.m = 1; g.C.push_back(c); auto* d = build(g); d->setGraphName("f" + std::to_string(i)); f[i] = dir + "/f" + std::to_string(i) + ".xml"; Run r = guarded([&]() { printers::writeSDF3File(f[i], d); }); delete d; } } ~Files() { for (auto& x : f) ::unlink(x.c_str()); ::rmdir(dir.c_str()); } };
// tokens of the command line
const char* TOK[] = {"-f 0", "-f 1", "-f missing", "-g KvG", "-g Unknown", "-a KvA", "-a KvB", "-a Unknown", "-p k=1", "-p k=2", "-p m=a=b", "-p junk", "-p n=", "-v 0", "-h", "stray"};
const int NT = 16;
void line(Ctx& c, const std::vector<int>& t, bool glued) {
  static Files files; c.evals(); std::vector<std::string> av{"kiter"}; for (int x : t) { std::string s = TOK[x]; if (s == "-h" || s == "stray") { av.push_back(s); continue; } std::string o = s.substr(0, 2), v = s.substr(3); if (o == "-f") v = v == "missing" ? files.dir + "/missing.xml" : files.f[atoi(v.c_str())]; if (glued) av.push_back(o + v); else { av.push_back(o); av.push_back(v); } }
  // what has to happen
  std::vector<Call> want; int code = 0; bool help = false, unclaimed = false; { int file = -1; bool missing = false; Par par; std::vector<std::pair<std::string, Par>> alg, gn; for (int x : t) { std::string s = TOK[x]; if (s == "-h") { help = true; break; } if (s == "stray") continue; std::string v = s.substr(3); if (s[1] == 'f') { missing = v == "missing"; file = missing ? -1 : atoi(v.c_str()); } if (s[1] == 'a') { alg.push_back({v, par}); par.clear(); } if (s[1] == 'g') { gn.push_back({v, par}); par.clear(); } if (s[1] == 'p') { size_t k = v.find('='); if (k != v.npos) par[v.substr(0, k)] = v.substr(k + 1); } }
    if (!help) { if (gn.size() > 1 || (gn.size() && (file >= 0 || missing))) unclaimed = true; std::string graph; std::vector<std::string> act; if (missing) code = 1; else if (file >= 0) { graph = "f" + std::to_string(file); act = file ? std::vector<std::string>{"a0", "a1"} : std::vector<std::string>{"a0"}; } else if (gn.size() == 1 && gn[0].first == "KvG") { want.push_back({"G", gn[0].second, ""}); graph = "gen"; act = {"g"}; } else code = 1;
      if (!code) for (auto& a : alg) { if (a.first == "Unknown") { code = 1; break; } Par p = a.second; p.insert(par.begin(), par.end()); std::string ds = graph + ":"; for (auto& x : act) ds += x + ","; want.push_back({a.first == "KvA" ? "A" : "B", p, ds}); if (a.first == "KvB") act.push_back("n" + std::to_string(act.size())); } } }
  if (unclaimed) { c.outcome("unclaimed mix"); return; }
  calls.clear(); made = nullptr; std::vector<char*> ptr; for (auto& s : av) ptr.push_back(&s[0]); ptr.push_back(nullptr); int got = -1; optind = 0; { Capture cap; try { got = kiter_main(av.size(), ptr.data()); } catch (kv_exit_exc& e) { got = e.code; } catch (std::exception&) { got = 1; } catch (std::runtime_error* e) { delete e; got = 1; } } commons::set_verbose_mode(commons::WARNING_LEVEL); c.validated(); c.states(1); c.transitions(t.size()); if (made) { delete made; made = nullptr; }
  if ((got == 0) != (code == 0)) { c.fail("status", "exit status " + std::to_string(got) + " instead of " + std::to_string(code)); return; } if (!(calls == want)) { std::string s; for (auto& x : calls) { s += " " + x.name + "["; for (auto& y : x.p) s += y.first + "=" + y.second + ";"; s += "]@" + x.graph; } c.fail("calls", "ran" + s); } c.outcome(help ? "help" : code ? "refused" : "ran " + std::to_string(want.size())); }
void dispatch(Ctx& c, const std::string& key) { std::istringstream in(key); int gl, x; in >> gl; std::vector<int> t; while (in >> x) t.push_back(x); line(c, t, gl); }
void go(Ctx& c, const std::vector<int>& t, int gl) { if (!c.take()) return; std::string k = std::to_string(gl); for (int x : t) k += " " + std::to_string(x); c.mark(k); dispatch(c, k); }
void run(Ctx& c) { bool th = c.thorough; std::vector<int> all; for (int i = 0; i < NT; i++) all.push_back(i); c.note("every command line of up to 4 arguments over 16 kinds of arguments, values separate and attached"); for (int n = 0; n <= 4; n++) for (auto& t : tuples(n, all)) for (int gl = 0; gl < 2; gl++) go(c, t, gl);
  c.note("every command line of 5..7 (8) arguments over: a file, two commands, three parameters"); std::vector<int> core{0, 5, 6, 8, 9, 10}; for (int n = 5; n <= (th ? 8 : 7); n++) for (auto& t : tuples(n, core)) { bool f = false; for (int x : t) if (x == 0) f = true; if (f) go(c, t, n & 1); }
  c.note("every command line of 5..6 (7) arguments over: the generator, a file, known and unknown commands, two parameters"); std::vector<int> g{3, 5, 6, 7, 8, 9}; for (int n = 5; n <= (th ? 7 : 6); n++) for (auto& t : tuples(n, g)) go(c, t, 0);
  c.note("every command line of 5 arguments over 16 kinds"); for (auto& t : tuples(5, all)) go(c, t, 0); }
void one(Ctx& c, const std::string& key) { c.mark(key); dispatch(c, key); }
}
kv::Module kv::module{"P22", run, one, "the real main function on every argument sequence within the bounds, with recording commands and a recording generator registered; order, parameters, graph and exit status against a reference reading of the command line", {"several generators, or a generator together with a file, are announced as unsupported and not judged"}};
