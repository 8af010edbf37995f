#include "eng.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <cxxabi.h>
using namespace llvm;
Eng E;
static LLVMContext LC; static std::unique_ptr<Module> modHolder;
std::string demangle(const std::string& s) { int st; char* d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st); if (!d) return s; std::string r = d; free(d); return r; }
const std::vector<Leaf>& leavesOf(Type* t) {
	auto& p = E.leafCache[t]; if (p) return *p; p = new std::vector<Leaf>();
	auto* out = p; std::vector<Leaf> tmp;
	if (auto* s = dyn_cast<StructType>(t)) { auto* sl = E.DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) for (auto l : leavesOf(s->getElementType(i))) tmp.push_back({(uint32_t)(l.off + sl->getElementOffset(i)), l.w}); }
	else if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t sz = E.DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) for (auto l : leavesOf(a->getElementType())) tmp.push_back({(uint32_t)(l.off + i * sz), l.w}); }
	else if (auto* v = dyn_cast<FixedVectorType>(t)) { uint64_t sz = E.DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) for (auto l : leavesOf(v->getElementType())) tmp.push_back({(uint32_t)(l.off + i * sz), l.w}); }
	else if (t->isPointerTy()) tmp.push_back({0, 64}); else if (t->isIntegerTy()) tmp.push_back({0, (uint16_t)t->getIntegerBitWidth()}); else if (t->isFloatTy()) tmp.push_back({0, 32}); else if (t->isDoubleTy()) tmp.push_back({0, 64}); else if (t->isX86_FP80Ty()) tmp.push_back({0, 80});
	else if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) {} else { tmp.push_back({0, 64}); }
	*out = tmp; return *E.leafCache[t];
}
static uint16_t W(Type* t) { auto& l = leavesOf(t); return l.empty() ? 0 : l[0].w; }
KFunc* funcFor(const Function* f) {
	auto& k = E.fmap[f]; if (!k) { k = new KFunc(); k->f = f; k->name = f->getName().str(); k->hasBody = !f->isDeclaration(); k->idx = E.funcs.size(); k->varargs = f->isVarArg(); E.funcs.push_back(k); E.fname[k->name] = k; }
	return k;
}
int typeIdFor(uint64_t ti) { auto& i = E.typeIds[ti]; if (!i) i = E.typeIds.size(); return i; }
static bool constVals(const Constant* c, std::vector<Val>& out);
static Val constScalar(const Constant* c) {
	if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return cv(ci->getZExtValue()); const APInt& a = ci->getValue(); u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return Val{0, mkConst(v, ci->getBitWidth())}; }
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned w = W(c->getType()); if (w > 64 && !c->getType()->isX86_FP80Ty()) return Val{0, mkConst(0, w)}; return cv(0); }
	if (auto* f = dyn_cast<ConstantFP>(c)) { if (c->getType()->isX86_FP80Ty()) { APFloat v = f->getValueAPF(); bool li; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return cv(v.bitcastToAPInt().getZExtValue()); } return cv(f->getValueAPF().bitcastToAPInt().getZExtValue()); }
	if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = E.gaddr.find(g); return cv(it == E.gaddr.end() ? 0 : it->second); }
	if (auto* f = dyn_cast<Function>(c)) return cv(funcAddr(funcFor(f)));
	if (auto* a = dyn_cast<GlobalAlias>(c)) return constScalar(a->getAliasee());
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		auto op = [&](int i) { return constScalar(cast<Constant>(ce->getOperand(i))).c; };
		switch (ce->getOpcode()) {
			case Instruction::GetElementPtr: { APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(*E.DL, off)) return cv(op(0) + off.getZExtValue()); break; }
			case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: return cv(op(0));
			case Instruction::Trunc: return cv(op(0) & (uint64_t)maskOf(W(ce->getType())));
			case Instruction::Add: return cv((op(0) + op(1)) & (uint64_t)maskOf(W(ce->getType()))); case Instruction::Sub: return cv((op(0) - op(1)) & (uint64_t)maskOf(W(ce->getType())));
			default: break;
		}
	}
	std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant: %s\n", os.str().c_str()); return cv(0);
}
static bool constVals(const Constant* c, std::vector<Val>& out) {
	Type* t = c->getType();
	if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
		if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (auto& l : leavesOf(t)) out.push_back(l.w > 64 && l.w != 80 ? Val{0, mkConst(0, l.w)} : cv(0)); return true; }
		if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return true; }
		for (unsigned i = 0; i < c->getNumOperands(); i++) constVals(cast<Constant>(c->getOperand(i)), out); return true;
	}
	out.push_back(constScalar(c)); return true;
}
static int32_t constRef(const Constant* c) {
	static std::map<const Constant*, int32_t> memo; auto it = memo.find(c); if (it != memo.end()) return it->second;
	std::vector<Val> v; constVals(c, v); int base = E.cpool.size(); for (auto x : v) E.cpool.push_back(x); if (v.empty()) E.cpool.push_back(cv(0));
	return memo[c] = ~base;
}
// immediate post-dominators (ignoring traps and exception edges): where the two sides of a branch meet again
static void computeJoins(KFunc* k, std::map<const BasicBlock*, uint32_t>& bpc) {
	std::vector<const BasicBlock*> bs; std::map<const BasicBlock*, int> ix; for (auto& B : *k->f) { ix[&B] = bs.size(); bs.push_back(&B); }
	int n = bs.size(), X = n; if (n > 3000 || n < 3) return; std::vector<std::vector<int>> succ(n + 1), pred(n + 1);
	for (int i = 0; i < n; i++) { auto* t = bs[i]->getTerminator(); std::set<int> s; if (auto* inv = dyn_cast<InvokeInst>(t)) s.insert(ix[inv->getNormalDest()]); else for (unsigned j = 0; j < t->getNumSuccessors(); j++) s.insert(ix[t->getSuccessor(j)]); if (isa<ReturnInst>(t)) s.insert(X); for (int x : s) { succ[i].push_back(x); pred[x].push_back(i); } }
	std::vector<int> order, num(n + 1, -1), ip(n + 1, -1); std::vector<std::pair<int, size_t>> st{{X, 0}}; std::vector<char> seen(n + 1); seen[X] = 1;
	while (!st.empty()) { auto& [b, i] = st.back(); if (i < pred[b].size()) { int p = pred[b][i++]; if (!seen[p]) { seen[p] = 1; st.push_back({p, 0}); } } else { num[b] = order.size(); order.push_back(b); st.pop_back(); } }
	ip[X] = X; bool ch = true; while (ch) { ch = false; for (int oi = (int)order.size() - 2; oi >= 0; oi--) { int b = order[oi], nw = -1; for (int s : succ[b]) if (seen[s] && ip[s] >= 0) { if (nw < 0) nw = s; else { int a = s, c = nw; while (a != c) { while (num[a] < num[c]) a = ip[a]; while (num[c] < num[a]) c = ip[c]; } nw = a; } } if (nw >= 0 && ip[b] != nw) { ip[b] = nw; ch = true; } } }
	for (int i = 0; i < n; i++) {
		auto* t = bs[i]->getTerminator(); if (t->getNumSuccessors() < 2 || isa<InvokeInst>(t) || ip[i] < 0 || ip[i] == X) continue; int j = ip[i];
		// region between the branch and the join: must not contain the branch itself (loop exits are not joined)
		std::vector<int> wl(succ[i].begin(), succ[i].end()); std::set<int> reg; bool loop = false, small = true; unsigned cnt = 0;
		while (!wl.empty() && !loop) { int b = wl.back(); wl.pop_back(); if (b == j || b == X || !seen[b] || !reg.insert(b).second) continue; if (b == i) { loop = true; break; } for (auto& I : *bs[b]) { if (isa<DbgInfoIntrinsic>(I)) continue; cnt++; if (auto* cb = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(cb)) small = false; } for (int s : succ[b]) wl.push_back(s); }
		if (loop) continue; auto& ki = k->code[(i + 1 < n ? bpc[bs[i + 1]] : k->code.size()) - 1]; if (ki.op != K_CONDBR && ki.op != K_SWITCH) continue; ki.join = bpc[bs[j]]; ki.joinSmall = small && cnt <= 24 && !isa<SwitchInst>(t);
	}
}
void decode(KFunc* k) {
	k->decoded = true; const Function& F = *k->f; std::map<const Value*, int32_t> slot;
	auto newSlot = [&](Type* t) { auto& l = leavesOf(t); int32_t s = k->nslots; for (auto& x : l) k->slotw.push_back(x.w); k->nslots += l.size(); return s; };
	for (auto& a : F.args()) { slot[&a] = newSlot(a.getType()); k->argSlots.push_back(slot[&a]); k->argByval.push_back(a.hasByValAttr() ? (uint64_t)E.DL->getTypeAllocSize(a.getParamByValType()) : 0); }
	k->nargs = F.arg_size();
	std::map<const BasicBlock*, uint32_t> bpc; uint32_t pc = 0;
	for (auto& B : F) { bpc[&B] = pc; for (auto& I : B) { if (isa<PHINode>(I)) { slot[&I] = newSlot(I.getType()); continue; } if (!I.getType()->isVoidTy()) slot[&I] = newSlot(I.getType()); pc++; } }
	auto ref = [&](const Value* v) -> int32_t { if (auto* c = dyn_cast<Constant>(v)) return constRef(c); auto it = slot.find(v); if (it != slot.end()) return it->second; return 0; };
	auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> int32_t {
		Edge e; e.pc = bpc[to]; e.mv = k->moves.size();
		for (auto& P : to->phis()) { int idx = P.getBasicBlockIndex(from); const Value* v = P.getIncomingValue(idx); unsigned n = leavesOf(P.getType()).size(); int32_t s = ref(v), d = slot[&P]; for (unsigned i = 0; i < n; i++) k->moves.push_back({d + (int)i, s < 0 ? ~(~s + (int)i) : s + (int)i}); }
		e.nmv = k->moves.size() - e.mv; k->edges.push_back(e); return k->edges.size() - 1; };
	for (auto& B : F) for (auto& I : B) {
		if (isa<PHINode>(I)) continue;
		KInst ki; ki.op = K_UNSUP; ki.src = &I; if (I.getDebugLoc()) ki.line = I.getDebugLoc().getLine();
		Type* T = I.getType(); if (!T->isVoidTy()) { ki.dst = slot[&I]; ki.w = W(T); ki.n = T->isVectorTy() ? leavesOf(T).size() : 1; }
		auto R = [&](unsigned i) { return ref(I.getOperand(i)); };
		if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
			static const std::map<unsigned, KOp> m = {{Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}};
			auto it = m.find(bo->getOpcode()); ki.a = R(0); ki.b = R(1);
			if (it != m.end()) ki.op = it->second; else { ki.op = K_FBIN; ki.pred = bo->getOpcode() == Instruction::FAdd ? 0 : bo->getOpcode() == Instruction::FSub ? 1 : bo->getOpcode() == Instruction::FMul ? 2 : bo->getOpcode() == Instruction::FDiv ? 3 : 4; }
		} else if (auto* c = dyn_cast<ICmpInst>(&I)) { ki.op = K_ICMP; ki.a = R(0); ki.b = R(1); ki.pred = c->getPredicate(); ki.w2 = W(c->getOperand(0)->getType());
		} else if (auto* c = dyn_cast<FCmpInst>(&I)) { ki.op = K_FCMP; ki.a = R(0); ki.b = R(1); ki.pred = c->getPredicate(); ki.w2 = W(c->getOperand(0)->getType());
		} else if (isa<UnaryOperator>(&I)) { ki.op = K_FNEG; ki.a = R(0);
		} else if (isa<SelectInst>(&I)) { ki.op = K_SELECT; ki.a = R(0); ki.b = R(1); ki.c = R(2); ki.n = leavesOf(T).size(); ki.x = I.getOperand(0)->getType()->isVectorTy();
		} else if (auto* c = dyn_cast<CastInst>(&I)) {
			ki.a = R(0); ki.w2 = W(c->getSrcTy());
			switch (c->getOpcode()) {
				case Instruction::Trunc: ki.op = K_TRUNC; break; case Instruction::ZExt: ki.op = K_ZEXT; break; case Instruction::SExt: ki.op = K_SEXT; break;
				case Instruction::BitCast: ki.op = (leavesOf(c->getSrcTy()).size() == leavesOf(c->getDestTy()).size()) ? K_COPY : K_UNSUP; break; case Instruction::PtrToInt: case Instruction::IntToPtr: ki.op = ki.w == ki.w2 ? K_COPY : ki.w < ki.w2 ? K_TRUNC : K_ZEXT; break;
				case Instruction::FPToSI: ki.op = K_FPCONV; ki.pred = 0; break; case Instruction::FPToUI: ki.op = K_FPCONV; ki.pred = 1; break; case Instruction::SIToFP: ki.op = K_FPCONV; ki.pred = 2; break; case Instruction::UIToFP: ki.op = K_FPCONV; ki.pred = 3; break;
				case Instruction::FPExt: case Instruction::FPTrunc: ki.op = K_FPCONV; ki.pred = 4; break; default: break;
			}
		} else if (isa<FreezeInst>(&I)) { ki.op = K_COPY; ki.a = R(0); ki.n = leavesOf(T).size();
		} else if (auto* al = dyn_cast<AllocaInst>(&I)) { ki.op = K_ALLOCA; ki.a = R(0); ki.x = E.DL->getTypeAllocSize(al->getAllocatedType());
		} else if (auto* li = dyn_cast<LoadInst>(&I)) { ki.op = K_LOAD; ki.pred = li->isAtomic() ? 1 + isAcquireOrStronger(li->getOrdering()) : 0; ki.a = R(0); ki.leaves = &leavesOf(T);
		} else if (auto* si = dyn_cast<StoreInst>(&I)) { ki.op = K_STORE; ki.pred = si->isAtomic() ? 1 + isReleaseOrStronger(si->getOrdering()) : 0; ki.a = R(1); ki.b = R(0); ki.leaves = &leavesOf(I.getOperand(0)->getType());
		} else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
			ki.op = T->isVectorTy() ? K_UNSUP : K_GEP; ki.a = R(0); uint64_t off = 0; ki.x = k->geps.size();
			for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
				const Value* iv = gi.getOperand();
				if (auto* st = gi.getStructTypeOrNull()) { off += E.DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue()); continue; }
				uint64_t sz = E.DL->getTypeAllocSize(gi.getIndexedType());
				if (auto* ci = dyn_cast<ConstantInt>(iv)) off += sz * (uint64_t)ci->getSExtValue(); else k->geps.push_back({ref(iv), sz, W(iv->getType())});
			}
			ki.y = k->geps.size() - ki.x; ki.b = constRef(ConstantInt::get(Type::getInt64Ty(LC), off));
		} else if (auto* b = dyn_cast<BranchInst>(&I)) {
			if (b->isConditional()) { ki.op = K_CONDBR; ki.a = ref(b->getCondition()); ki.next = edge(&B, b->getSuccessor(0)); ki.unw = edge(&B, b->getSuccessor(1)); } else { ki.op = K_BR; ki.next = edge(&B, b->getSuccessor(0)); }
		} else if (auto* s = dyn_cast<SwitchInst>(&I)) {
			ki.op = K_SWITCH; ki.a = R(0); ki.w = W(s->getCondition()->getType()); ki.next = edge(&B, s->getDefaultDest()); ki.x = k->switches.size(); std::vector<SwCase> cs; std::map<const BasicBlock*, int32_t> em; em[s->getDefaultDest()] = ki.next;
			for (auto& c : s->cases()) { const BasicBlock* d = c.getCaseSuccessor(); if (!em.count(d)) em[d] = edge(&B, d); cs.push_back({(u128)c.getCaseValue()->getZExtValue(), em[d]}); }
			k->switches.push_back(cs);
		} else if (isa<UnreachableInst>(&I)) ki.op = K_UNREACH;
		else if (isa<ReturnInst>(&I)) { ki.op = K_RET; if (I.getNumOperands()) { ki.a = R(0); ki.n = leavesOf(I.getOperand(0)->getType()).size(); } else ki.n = 0; }
		else if (isa<ResumeInst>(&I)) { ki.op = K_RESUME; ki.a = R(0); }
		else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
			ki.op = K_LPAD; ki.x = k->lpads.size(); LPad p; p.cleanup = lp->isCleanup();
			for (unsigned i = 0; i < lp->getNumClauses(); i++) { LClause c; c.isCatch = lp->isCatch(i); c.any = false; c.ti = 0; if (c.isCatch) { c.ti = constScalar(cast<Constant>(lp->getClause(i))).c; if (!c.ti) c.any = true; } else c.any = true; p.cl.push_back(c); }
			k->lpads.push_back(p);
		} else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
			ki.op = K_EXTRACTV; ki.n = leavesOf(T).size(); int32_t base = R(0); uint32_t o = 0; Type* t = ev->getAggregateOperand()->getType();
			for (unsigned ix : ev->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) o += leavesOf(st->getElementType(j)).size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); o += ix * leavesOf(t).size(); } }
			ki.a = base < 0 ? ~(~base + (int)o) : base + (int)o;
		} else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
			ki.op = K_INSERTV; ki.n = leavesOf(T).size(); ki.a = R(0); ki.b = R(1); uint32_t o = 0; Type* t = T;
			for (unsigned ix : iv->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) o += leavesOf(st->getElementType(j)).size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); o += ix * leavesOf(t).size(); } }
			ki.x = o; ki.y = leavesOf(t).size();
		} else if (auto* rm = dyn_cast<AtomicRMWInst>(&I)) { ki.op = K_RMW; ki.a = R(0); ki.b = R(1); ki.pred = rm->getOperation(); ki.leaves = &leavesOf(T);
		} else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) { ki.op = K_CMPXCHG; ki.a = R(0); ki.b = R(1); ki.c = R(2); ki.leaves = &leavesOf(cx->getCompareOperand()->getType()); ki.w = (*ki.leaves)[0].w;
		} else if (isa<FenceInst>(&I)) ki.op = K_NOP;
		else if (isa<ExtractElementInst>(&I)) { ki.op = K_EXTELT; ki.a = R(0); ki.b = R(1); ki.x = leavesOf(I.getOperand(0)->getType()).size(); }
		else if (isa<InsertElementInst>(&I)) { ki.op = K_INSELT; ki.a = R(0); ki.b = R(1); ki.c = R(2); ki.n = leavesOf(T).size(); }
		else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) { ki.op = K_SHUF; ki.a = R(0); ki.b = R(1); ki.x = leavesOf(I.getOperand(0)->getType()).size(); ki.n = leavesOf(T).size(); ki.ops = k->opnds.size(); ki.nops = ki.n; for (int m : sv->getShuffleMask()) k->opnds.push_back(m); }
		else if (auto* cb = dyn_cast<CallBase>(&I)) {
			ki.op = K_CALL; ki.n = T->isVoidTy() ? 0 : leavesOf(T).size(); const Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
			if (cb->isInlineAsm()) ki.op = K_NOP;
			if (cf) { if (isa<DbgInfoIntrinsic>(cb)) ki.op = K_NOP; else { switch (cf->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::prefetch: ki.op = K_NOP; break; default: break; } } if (ki.op == K_CALL) ki.callee = funcFor(cf); } else ki.a = ref(cb->getCalledOperand());
			ki.ops = k->opnds.size(); ki.nops = cb->arg_size();
			for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) { k->opnds.push_back(~0); k->opnds.push_back(0); continue; } k->opnds.push_back(ref(a)); k->opnds.push_back(W(a->getType()) | (leavesOf(a->getType()).size() << 16)); }
			if (auto* inv = dyn_cast<InvokeInst>(&I)) { ki.next = edge(&B, inv->getNormalDest()); ki.unw = edge(&B, inv->getUnwindDest()); ki.x = 1; }
		}
		k->code.push_back(ki);
	}
	computeJoins(k, bpc);
}
bool loadModule(const std::string& path) {
	SMDiagnostic err; modHolder = parseIRFile(path, err, LC); if (!modHolder) { err.print("engine", errs()); return false; }
	E.M = modHolder.get(); E.DL = new DataLayout(E.M); for (auto& f : *E.M) funcFor(&f); return true;
}
static void writeConst(Obj* o, uint64_t off, const Constant* c) {
	Type* t = c->getType();
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(o->d + off, r.data(), r.size()); return; }
	if (auto* st = dyn_cast<StructType>(t)) { auto* sl = E.DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) writeConst(o, off + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
	if (t->isArrayTy() || t->isVectorTy()) { uint64_t sz = E.DL->getTypeAllocSize(t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) writeConst(o, off + i * sz, cast<Constant>(c->getOperand(i))); return; }
	Val v = constScalar(c); unsigned n = std::min<uint64_t>(E.DL->getTypeStoreSize(t), 16); 
	if (v.e) { u128 x = v.e->c; memcpy(o->d + off, &x, std::min(n, 16u)); } else memcpy(o->d + off, &v.c, std::min(n, 8u));
}
void initGlobals(State& S) {
	std::vector<const GlobalVariable*> gs;
	for (auto& g : E.M->globals()) {
		if (g.getName().startswith("llvm.")) continue;
		uint64_t sz = E.DL->getTypeAllocSize(g.getValueType()); std::string* nm = new std::string(g.getName().str());
		if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
		uint64_t id = S.mem.alloc(sz, g.isThreadLocal() ? OK_TLS : OK_GLOBAL, nm->c_str()); E.gaddr[&g] = objAddr(id); E.gByAddr[objAddr(id)] = &g; gs.push_back(&g); if (g.isThreadLocal()) E.tlsVars.push_back(&g);
	}
	for (auto g : gs) { Obj* o = S.mem.writable(E.gaddr[g] >> OBJ_SHIFT); memset(o->d, 0, o->size); if (!g->isDeclaration()) writeConst(o, 0, g->getInitializer()); o->ro = g->isConstant(); }
	if (auto* ct = E.M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(ct->getInitializer())) {
		std::vector<std::pair<uint64_t, uint64_t>> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* s = cast<ConstantStruct>(ca->getOperand(i)); v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), constScalar(s->getOperand(1)).c}); }
		std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) E.ctors.push_back(p.second);
	}
}
