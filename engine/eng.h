#pragma once
#include "engine.h"
struct Eng {
	llvm::Module* M; const llvm::DataLayout* DL;
	std::vector<KFunc*> funcs; std::map<const llvm::Function*, KFunc*> fmap; std::map<std::string, KFunc*> fname;
	std::vector<Val> cpool; std::map<std::pair<uint64_t, uint32_t>, int> cpoolIdx; std::map<const llvm::GlobalVariable*, uint64_t> gaddr; std::map<uint64_t, const llvm::GlobalVariable*> gByAddr;
	std::map<const llvm::Type*, std::vector<Leaf>*> leafCache; std::vector<uint64_t> ctors; std::vector<const llvm::GlobalVariable*> tlsVars;
	std::map<uint64_t, int> typeIds;
};
extern Eng E;
KFunc* funcFor(const llvm::Function* f);
inline KFunc* funcAt(uint64_t a) { if (a < FUNC_BASE) return nullptr; uint64_t i = (a - FUNC_BASE); if (i & 15) return nullptr; i >>= 4; return i < E.funcs.size() ? E.funcs[i] : nullptr; }
inline uint64_t funcAddr(KFunc* f) { return FUNC_BASE + (uint64_t)f->idx * 16; }
void decode(KFunc* k);
bool loadModule(const std::string& path);
void initGlobals(State& S);
const std::vector<Leaf>& leavesOf(llvm::Type* t);
std::string demangle(const std::string& s);
int typeIdFor(uint64_t ti);
