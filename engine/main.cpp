// Driver: loads a linked module, explores it, writes a JSON result.
#include "interp.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <regex>
#include <fstream>
#include <iostream>
#include <sstream>
#include <atomic>
#include <signal.h>
#include <algorithm>
using std::string; using std::vector;
static string esc(const string& s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
extern bool yieldOnFork;
// Workers are forked processes. One that has states to spare hands half of them to a new process whenever a slot is free.
struct Shared { std::atomic<int> next, idle, outs, died; };
static Shared* sh = nullptr; static string outBase; static vector<pid_t> kids; static int myOut = -1; static double lastSplit = 0, startSec = 0;
static void save(std::ostream& o);
[[noreturn]] static void finish() {
	{ std::ofstream o(outBase + std::to_string(myOut)); save(o); o << "end\n"; o.flush(); }
	sh->idle++; for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) sh->died++; } _exit(0);
}
static void explore(vector<State*>* shared, size_t stopAt);
static void split() {
	if (sh->idle.fetch_sub(1) <= 0) { sh->idle++; return; }
	int id = sh->outs++; pid_t p = fork(); if (p < 0) { sh->idle++; sh->outs--; return; } size_t h = pending.size() / 2; lastSplit = nowSec();
	if (p) { kids.push_back(p); pending.erase(pending.begin(), pending.begin() + h); return; }
	kids.clear(); myOut = id; res = Result(); sstats = SolverStats(); pending.resize(h); explore(nullptr, 0); finish();
}
static void explore(vector<State*>* shared, size_t stopAt) {
	while (true) {
		State* s = nullptr;
		if (sh && pending.size() > 1 && sh->idle > 0 && (!shared || sh->next >= (int)shared->size()) && nowSec() > lastSplit + 0.1) split();
		if (!pending.empty()) { if (stopAt) { s = pending.front(); pending.erase(pending.begin()); } else { s = pending.back(); pending.pop_back(); } }
		else if (shared) { int i = sh->next++; if (i >= (int)shared->size()) return; s = (*shared)[i]; (*shared)[i] = nullptr; }
		else return;
		if (nowSec() > deadline) { res.timedout = true; res.left++; delete s; continue; }
		runState(s, 0); if (s->failing) delete s; else pending.push_back(s);
		if (stopAt && (pending.size() >= stopAt || (pending.size() > 1 && nowSec() > startSec + 1))) return;
	}
}
static void save(std::ostream& o) { // line-oriented, merged by the parent
	o << "n " << res.paths << ' ' << res.normal << ' ' << res.dropped << ' ' << res.viol << ' ' << res.inconcl << ' ' << res.steps << ' ' << res.asserts << ' ' << res.forks << ' ' << res.left << ' ' << res.merges << ' ' << res.maxdepth << ' ' << res.maxvars << ' ' << res.timedout << '\n';
	o << "s " << sstats.queries << ' ' << sstats.z3queries << ' ' << sstats.fast << ' ' << sstats.cached << ' ' << sstats.sat << ' ' << sstats.unsat << ' ' << sstats.unknown << ' ' << sstats.assertQueries << ' ' << sstats.assertUnsat << ' ' << sstats.z3time << '\n';
	for (auto& p : res.inconclusive) o << "i " << p.second << ' ' << p.first << '\n';
	for (auto& p : res.reached) o << "r " << p.second << ' ' << p.first << '\n' << "w " << res.reachWitness[p.first] << '\n';
	for (auto& p : res.forkSites) o << "k " << p.second << ' ' << p.first << '\n';
	for (auto k : E.funcs) if (k->executed) o << "f " << k->name << '\n';
	for (auto& v : res.violations) { o << "v " << v.kind << '\n' << "vm " << v.msg << '\n' << "vw " << v.where << '\n'; for (auto& s : v.reached) o << "vr " << s << '\n'; for (auto& s : v.inputs) o << "vi " << s << '\n'; }
	for (auto& s : res.samples) { o << "p\n"; for (auto& x : s.first) o << "pi " << x << '\n'; for (auto& x : s.second) o << "po " << x << '\n'; }
}
struct Tot { Result r; SolverStats s; } tot;
static void load(std::istream& in) {
	string l; string lastReach; 
	while (std::getline(in, l)) {
		size_t sp = l.find(' '); string k = l.substr(0, sp), v = sp == string::npos ? "" : l.substr(sp + 1); std::istringstream is(v);
		if (k == "n") { uint64_t x[12]; bool t; for (auto& y : x) is >> y; is >> t; auto& r = tot.r; r.paths += x[0]; r.normal += x[1]; r.dropped += x[2]; r.viol += x[3]; r.inconcl += x[4]; r.steps += x[5]; r.asserts += x[6]; r.forks += x[7]; r.left += x[8]; r.merges += x[9]; r.maxdepth = std::max(r.maxdepth, x[10]); r.maxvars = std::max(r.maxvars, x[11]); r.timedout |= t; }
		else if (k == "s") { uint64_t x[9]; for (auto& y : x) is >> y; double t; is >> t; auto& s = tot.s; s.queries += x[0]; s.z3queries += x[1]; s.fast += x[2]; s.cached += x[3]; s.sat += x[4]; s.unsat += x[5]; s.unknown += x[6]; s.assertQueries += x[7]; s.assertUnsat += x[8]; s.z3time += t; }
		else if (k == "i") { int n; is >> n; is.get(); string w; std::getline(is, w); tot.r.inconclusive[w] += n; }
		else if (k == "r") { int n; is >> n; is.get(); std::getline(is, lastReach); tot.r.reached[lastReach] += n; } else if (k == "w") { if (tot.r.reachWitness[lastReach].empty()) tot.r.reachWitness[lastReach] = v; }
		else if (k == "k") { int n; is >> n; is.get(); string w; std::getline(is, w); tot.r.forkSites[w] += n; }
		else if (k == "f") tot.r.funcs.insert(v);
		else if (k == "v") { tot.r.violations.push_back(Violation()); tot.r.violations.back().kind = v; } else if (k == "vm") tot.r.violations.back().msg = v; else if (k == "vw") tot.r.violations.back().where = v; else if (k == "vr") tot.r.violations.back().reached.push_back(v); else if (k == "vi") tot.r.violations.back().inputs.push_back(v);
		else if (k == "p") tot.r.samples.push_back({}); else if (k == "pi") tot.r.samples.back().first.push_back(v); else if (k == "po") tot.r.samples.back().second.push_back(v);
	}
}
static void jsonList(std::ostream& o, const vector<string>& v) { o << '['; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << esc(v[i]); o << ']'; }
int main(int argc, char** argv) {
	string file; double t0 = nowSec(); vector<string> filt;
	for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
		if (a == "--max-time") opt.maxTime = stod(nx()); else if (a == "--max-steps") opt.maxSteps = stoull(nx()); else if (a == "--jobs") opt.jobs = stoi(nx()); else if (a == "--expand") opt.expand = stoi(nx()); else if (a == "--out") opt.out = nx(); else if (a == "--entry") opt.entry = nx(); else if (a == "-v") opt.verbose = true; else if (a == "--races") opt.races = true; else if (a == "--merge") opt.merge.push_back(nx()); else if (a == "--join") opt.join.push_back(nx()); else if (a == "--no-auto-join") opt.autoJoin = false; else if (a == "--samples") opt.samples = stoi(nx()); else if (a == "--malloc-limit") opt.mallocLimit = stoull(nx()); else if (a == "--max-alloc") opt.maxAlloc = stoull(nx()); else if (a == "--rlimit") z3Rlimit = stoul(nx()); else file = a; }
	deadline = t0 + opt.maxTime; if (!loadModule(file)) return 3;
	for (auto& rx : opt.merge) { std::regex re(rx); for (auto k : E.funcs) if (k->hasBody && (std::regex_search(k->name, re) || std::regex_search(demangle(k->name), re))) k->merge = true; }
	for (auto& rx : opt.join) { std::regex re(rx); for (auto k : E.funcs) if (k->hasBody && (std::regex_search(k->name, re) || std::regex_search(demangle(k->name), re))) k->join = true; }
	for (auto k : E.funcs) if (k->hasBody && k->name.find("sxm_") != string::npos) k->merge = true;
	State* S = new State(); S->th.push_back(Thread()); S->th[0].vc = {1}; initGlobals(*S);
	auto it = E.fname.find("sx_start"); if (it == E.fname.end() || !it->second->hasBody) { fprintf(stderr, "no sx_start in module\n"); return 3; }
	// sx_start(ctors...) is run after the constructors: constructors are pushed in reverse so that the first runs first
	pushCall(*S, it->second, {}, {});
	// run each constructor to completion first, as a separate call on top of sx_start's frame is not possible before it starts; use a table global instead
	{ auto* g = E.M; (void)g; for (auto& kv : E.gByAddr) { Obj* o = S->mem.get(kv.first >> OBJ_SHIFT); if (o && o->nm && !strcmp(o->nm, "sx_ctor_table")) { o = S->mem.writable(kv.first >> OBJ_SHIFT); o->ro = false; size_t n = std::min<size_t>(E.ctors.size(), o->size / 8 - 1); memcpy(o->d, E.ctors.data(), n * 8); memset(o->d + n * 8, 0, 8); } } }
	pending.push_back(S);
	startSec = nowSec(); if (opt.jobs > 1) { yieldOnFork = true; explore(nullptr, opt.expand); yieldOnFork = false; } else explore(nullptr, 0);
	if (opt.jobs > 1 && !pending.empty()) {
		vector<State*> shared; shared.swap(pending); sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->outs = opt.jobs;
		outBase = "/tmp/sxw." + std::to_string(getpid()) + "."; vector<pid_t> pids; fflush(stdout); lastSplit = nowSec();
		for (int w = 0; w < opt.jobs; w++) { pid_t p = fork(); if (!p) { myOut = w; res = Result(); sstats = SolverStats(); explore(&shared, 0); finish(); } pids.push_back(p); }
		for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) sh->died++; }
		for (int w = 0; w < sh->outs; w++) { string f = outBase + std::to_string(w); std::ifstream in(f); if (in) load(in); else sh->died++; unlink(f.c_str()); }
		if (sh->died) { tot.r.inconclusive["worker died"]++; tot.r.inconcl++; }
	}
	{ std::stringstream ss; save(ss); load(ss); }
	if (opt.verbose) { vector<std::pair<int, string>> fs; for (auto& p : tot.r.forkSites) fs.push_back({p.second, p.first}); std::sort(fs.rbegin(), fs.rend()); for (size_t i = 0; i < fs.size() && i < 25; i++) fprintf(stderr, "[forks] %d %s\n", fs[i].first, fs[i].second.substr(0, 260).c_str()); }
	auto& r = tot.r; auto& s = tot.s; std::ofstream fo; std::ostream* o = &std::cout; if (!opt.out.empty()) { fo.open(opt.out); o = &fo; }
	*o << "{\"paths\":" << r.paths << ",\"normal\":" << r.normal << ",\"dropped\":" << r.dropped << ",\"violating\":" << r.viol << ",\"inconclusive\":" << r.inconcl << ",\"left\":" << r.left << ",\"timedout\":" << (r.timedout ? "true" : "false") << ",\"steps\":" << r.steps << ",\"forks\":" << r.forks << ",\"asserts\":" << r.asserts << ",\"merges\":" << r.merges << ",\"maxdepth\":" << r.maxdepth << ",\"symbolic_bytes\":" << r.maxvars
		<< ",\"solver\":{\"queries\":" << s.queries << ",\"z3\":" << s.z3queries << ",\"finite_domain\":" << s.fast << ",\"cached\":" << s.cached << ",\"sat\":" << s.sat << ",\"unsat\":" << s.unsat << ",\"unknown\":" << s.unknown << ",\"assert_queries\":" << s.assertQueries << ",\"assert_unsat\":" << s.assertUnsat << ",\"z3_seconds\":" << s.z3time << "},\"seconds\":" << nowSec() - t0 << ",\n\"inconclusive_reasons\":{";
	bool first = true; for (auto& p : r.inconclusive) { *o << (first ? "" : ",") << esc(p.first) << ":" << p.second; first = false; } *o << "},\n\"reached\":{"; first = true; for (auto& p : r.reached) { *o << (first ? "" : ",") << esc(p.first) << ":{\"count\":" << p.second << ",\"witness\":" << esc(r.reachWitness[p.first]) << "}"; first = false; }
	*o << "},\n\"functions\":["; first = true; for (auto& f : r.funcs) { *o << (first ? "" : ",") << esc(f); first = false; } *o << "],\n\"violations\":["; first = true;
	for (auto& v : r.violations) { *o << (first ? "" : ",\n") << "{\"kind\":" << esc(v.kind) << ",\"msg\":" << esc(v.msg) << ",\"where\":" << esc(v.where) << ",\"reached\":"; jsonList(*o, v.reached); *o << ",\"inputs\":"; jsonList(*o, v.inputs); *o << "}"; first = false; }
	*o << "],\n\"samples\":["; first = true; for (auto& p : r.samples) { *o << (first ? "" : ",\n") << "{\"inputs\":"; jsonList(*o, p.first); *o << ",\"observed\":"; jsonList(*o, p.second); *o << "}"; first = false; } *o << "]}\n";
	return 0;
}
