// Symbolic executor for LLVM bitcode: data structures.
#pragma once
#include "expr.h"
#include "solver.h"
#include <vector>
#include <string>
#include <map>
#include <set>
#include <unordered_map>
#include <cstring>
#include <cstdlib>
#include <cstdio>
namespace llvm { class Function; class Instruction; class Module; class DataLayout; class Type; class Constant; class GlobalVariable; class Value; }

struct Val { uint64_t c; Expr* e; };
inline Val cv(uint64_t c) { return Val{c, nullptr}; }

static const unsigned OBJ_SHIFT = 28; static const uint64_t OBJ_OFF = 0x1000, OFF_MASK = (1ull << OBJ_SHIFT) - 1;
static const uint64_t FUNC_BASE = 1ull << 62;
inline uint64_t objAddr(uint64_t id) { return (id << OBJ_SHIFT) + OBJ_OFF; }

enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR, OK_TLS, OK_VARARG };
struct Obj {
	int rc; uint32_t size; ObjKind kind; bool ro; int hostFn; uint8_t* d; Expr** s; const char* nm;
	std::vector<struct Acc>* acc;
};
struct Chunk { int rc; Obj* o[64]; };
struct Node { int rc; Chunk* c[64]; };

struct Memory {
	std::vector<Node*> root; uint64_t nextId = 1;
	Memory() {} Memory(const Memory& m); ~Memory(); Memory& operator=(const Memory&) = delete;
	void swap(Memory& m) { root.swap(m.root); std::swap(nextId, m.nextId); }
	Obj* get(uint64_t id) const { uint64_t r = id >> 12; if (r >= root.size() || !root[r]) return nullptr; Chunk* c = root[r]->c[(id >> 6) & 63]; return c ? c->o[id & 63] : nullptr; }
	Obj** slot(uint64_t id);      // writable slot (unshares the path)
	Obj* writable(uint64_t id);   // writable object
	uint64_t alloc(uint32_t size, ObjKind k, const char* nm);
	void free(uint64_t id);
};
Obj* objClone(Obj* o); void objUnref(Obj* o);

enum KOp : uint16_t { K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
	K_ICMP, K_FBIN, K_FCMP, K_FNEG, K_SELECT, K_TRUNC, K_ZEXT, K_SEXT, K_COPY, K_FPCONV, K_ALLOCA, K_LOAD, K_STORE, K_GEP, K_BR, K_CONDBR, K_SWITCH,
	K_CALL, K_RET, K_UNREACH, K_LPAD, K_RESUME, K_EXTRACTV, K_INSERTV, K_RMW, K_CMPXCHG, K_NOP, K_UNSUP, K_EXTELT, K_INSELT, K_SHUF };

struct KFunc;
struct Leaf { uint32_t off; uint16_t w; };   // flattened scalar of a type
struct KInst {
	KOp op; uint16_t w = 0; int32_t dst = -1; int32_t a = 0, b = 0, c = 0; uint32_t x = 0, y = 0, n = 1; uint16_t pred = 0, w2 = 0;
	int32_t ops = -1; uint32_t nops = 0; uint32_t line = 0; int32_t join = -1; bool joinSmall = false;
	int32_t next = -1, unw = -1;       // branch edges (indices in edges) / call continuation
	KFunc* callee = nullptr; const std::vector<Leaf>* leaves = nullptr; const llvm::Instruction* src = nullptr;
};
struct Edge { uint32_t pc; uint32_t mv = 0, nmv = 0; };          // moves[mv..mv+nmv): (dst,src)
struct SwCase { u128 v; int32_t edge; };
struct GepStep { int32_t op; uint64_t scale; uint16_t w; };
struct LClause { bool isCatch; uint64_t ti; bool any; };
struct LPad { bool cleanup; std::vector<LClause> cl; };
struct State;
struct KFunc {
	const llvm::Function* f; std::string name; bool decoded = false, hasBody = false, executed = false, merge = false, join = false, varargs = false; uint32_t idx = 0;
	uint32_t nslots = 0, nargs = 0; std::vector<KInst> code; std::vector<int32_t> opnds; std::vector<Edge> edges; std::vector<std::pair<int32_t, int32_t>> moves;
	std::vector<std::vector<SwCase>> switches; std::vector<GepStep> geps; std::vector<LPad> lpads; std::vector<uint16_t> slotw; std::vector<uint32_t> argSlots; std::vector<uint64_t> argByval;
	bool (*builtin)(State&, KInst&, struct Frame&) = nullptr; bool builtinLooked = false; uint64_t ncalls = 0;
};
struct Frame {
	int rc; KFunc* f; uint32_t pc; std::vector<Val> r; std::vector<uint32_t> allocas; uint64_t va = 0;
	Frame() : rc(1), f(nullptr), pc(0) {}
};
typedef std::vector<uint32_t> VClock;
struct Acc { uint32_t lo, hi; uint32_t tid, clk; bool write; uint32_t line; KFunc* f; };
struct Thread { std::vector<Frame*> st; std::map<uint64_t, uint64_t> tls; bool finished = false; VClock vc; int quiet = 0; };
struct ObsEnt { std::string label; std::vector<Val> bytes; };
struct State {
	Memory mem; std::vector<Thread> th; int cur = 0; std::vector<Expr*> pc; Model model; uint64_t steps = 0; uint64_t stepBase = 0, stepMax = 0;
	std::vector<ObsEnt> obs; std::map<std::string, int> symcount; std::vector<uint32_t> vars; std::vector<std::pair<uint64_t, uint64_t>> exc; std::map<uint64_t, VClock> hb; int forks = 0; bool failing = false;
	std::vector<std::string> reached;
	State() {} State(const State& o); ~State();
	Frame& top() { return *th[cur].st.back(); }
	void own() { auto& s = th[cur].st; if (!s.empty() && s.back()->rc > 1) { Frame* n = new Frame(*s.back()); n->rc = 1; s.back()->rc--; s.back() = n; } }
};
struct PathEnd { int kind; std::string why; };   // 0 normal, 1 dropped (assume), 2 violation, 3 inconclusive
