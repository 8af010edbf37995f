#pragma once
#include "eng.h"
#include <deque>
#include <functional>
struct Violation { std::string kind, msg, where; Model m; std::vector<std::string> inputs; std::vector<std::string> reached; };
struct Options { double maxTime = 100; uint64_t maxSteps = 20000000; int jobs = 8; int expand = 240; int samples = 24; uint64_t mallocLimit = 1 << 20; std::string out; std::string entry = "sx_main"; bool verbose = false; bool races = false; uint64_t maxPaths = ~0ull; std::vector<std::string> merge, join; bool autoJoin = true; uint64_t maxAlloc = 1 << 26; };
struct Result {
	uint64_t paths = 0, normal = 0, dropped = 0, viol = 0, inconcl = 0, steps = 0, asserts = 0, forks = 0, left = 0, merges = 0, maxdepth = 0, maxvars = 0; bool timedout = false;
	std::vector<Violation> violations; std::map<std::string, int> forkSites, violKeys, inconclusive, reached; std::map<std::string, std::string> reachWitness; std::set<std::string> funcs; std::vector<std::pair<std::vector<std::string>, std::vector<std::string>>> samples;
};
extern Options opt; extern Result res; extern std::vector<State*> pending; extern double deadline;
double nowSec();
bool decide(State& S, Expr* c);
uint64_t concretize(State& S, Val v, unsigned w);
[[noreturn]] void violation(State& S, const std::string& kind, const std::string& msg, const Model* m = nullptr);
[[noreturn]] void inconclusive(const std::string& why);
void recordViolation(State& S, const std::string& kind, const std::string& msg, const Model& m);
Val loadMem(State& S, Val ptr, unsigned w); void storeMem(State& S, Val ptr, Val v, unsigned w);
Val loadConc(State& S, uint64_t addr, unsigned w);
void copyMem(State& S, uint64_t dst, uint64_t src, uint64_t n);
Obj* checkRange(State& S, uint64_t addr, uint64_t n, bool write);
inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
inline Val fromE(Expr* e) { if (e->isConst() && e->w <= 64) return cv((uint64_t)e->c); return Val{0, e}; }
Expr* byteAt(Obj* o, uint64_t i);
bool unwindTo(State& S, uint64_t obj, uint64_t ti);
void pushCall(State& S, KFunc* k, const std::vector<Val>& args, const std::vector<uint32_t>& argn);
void runState(State* S, size_t stopDepth, uint32_t joinPc = ~0u);
std::string stackStr(State& S);
void lookupBuiltin(KFunc* k);
inline Val opv(Frame& f, int32_t r) { return r < 0 ? E.cpool[~r] : f.r[r]; }
inline Val opvn(Frame& f, int32_t r, unsigned i) { return r < 0 ? E.cpool[~r + i] : f.r[r + i]; }
inline Val argv_(Frame& f, KInst& I, unsigned i) { return opv(f, f.f->opnds[I.ops + 2 * i]); }
inline unsigned argw(Frame& f, KInst& I, unsigned i) { return f.f->opnds[I.ops + 2 * i + 1] & 0xffff; }
void finishPath(State* S, const PathEnd& pe);
State* forkState(State& S);
void noteAccess(State& S, uint64_t id, uint32_t off, uint32_t n, bool write);
void hbAcquire(State& S, uint64_t a); void hbRelease(State& S, uint64_t a);
struct Quiet { State& S; int t; Quiet(State& s) : S(s), t(s.cur) { S.th[t].quiet++; } ~Quiet() { S.th[t].quiet--; } };
