// Hash-consed bit-vector expressions (widths 1..128), simplifying constructors, concrete evaluation.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
	O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT };

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
	Op op; uint8_t lz; uint16_t w; uint16_t lo; uint32_t id;
	u128 c; Expr* k[3];
	const VarSet* vs;
	uint64_t umin, umax;   // unsigned range, valid for w<=64
	uint32_t epoch; u128 val;
	void* zbv; void* zbool;
	bool isConst() const { return op == O_CONST; }
};

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u128 sextTo128(u128 v, unsigned w) { if (w >= 128) return v; u128 m = (u128)1 << (w - 1); return (v ^ m) - m; }

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(unsigned w, const std::string& name);
const std::string& varName(uint32_t v); unsigned varWidth(uint32_t v); uint32_t numVars(); Expr* varExpr(uint32_t v);
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkExtract(Expr* e, unsigned lo, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkZext(Expr* e, unsigned w);
Expr* mkSext(Expr* e, unsigned w);
Expr* mkNot(Expr* e);                       // bitwise
inline Expr* mkAnd1(Expr* a, Expr* b) { return mkBin(O_AND, a, b); }
inline Expr* mkOr1(Expr* a, Expr* b) { return mkBin(O_OR, a, b); }
inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(O_EQ, a, b); }
Expr* mkTrue(); Expr* mkFalse();
unsigned lowZeros(Expr* e); unsigned highZeros(Expr* e);

u128 foldBin(Op op, u128 a, u128 b, unsigned w);

// a model gives each variable a value; missing = 0
struct Model { std::vector<uint64_t> v; uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; } void set(uint32_t i, uint64_t x) { if (i >= v.size()) v.resize(i + 16, 0); v[i] = x; } };
u128 evalExpr(Expr* e, const Model& m);
size_t exprCount();
std::string exprStr(Expr* e, int depth = 4);
