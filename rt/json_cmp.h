// Builds library values from the reference ones and compares them.
#pragma once
#include "core/json/json.hpp"
#include "json_ref.h"
using namespace Lambda;
static V mk(char t) { V v; v.t = t; return v; }
static JSON::Property prop(const V& v) {
	switch (v.t) { case 'n': return JSON::Property(nullptr); case 'b': return JSON::Property((bool)v.i); case 'i': return JSON::Property(v.i); case 's': return JSON::Property(v.s);
	case 'a': { JSON::Array a; for (auto& x : v.a) a.push_back(prop(x)); return JSON::Property(a); } default: { JSON::Map m; for (auto& x : v.m) m.insert_or_assign(x.first, prop(x.second)); return JSON::Property(m); } }
}
static void same(const JSON::Property& p, const V& v, const char* w) {
	switch (v.t) {
	case 'n': sx_assert(p.isNull(), w); break; case 'b': sx_assert(p.type() == JSON::JSTypes::Boolean && p.asBool() == (bool)v.i, w); break; case 'i': sx_assert(p.type() == JSON::JSTypes::Integer && p.asInt() == v.i, w); break;
	case 's': sx_assert(p.type() == JSON::JSTypes::String && sx_eq(p.asString(), v.s), w); if (p.type() == JSON::JSTypes::String) sx_obs(p.asString(), "string"); break;
	case 'a': { if (p.type() != JSON::JSTypes::Array) { sx_assert(false, w); return; } auto& a = p.asArray(); sx_assert(a.size() == v.a.size(), w); for (size_t i = 0; i < v.a.size(); i++) same(a.at(i), v.a[i], w); break; }
	default: { if (p.type() != JSON::JSTypes::Map) { sx_assert(false, w); return; } auto& m = p.asMap(); sx_assert(m.size() == v.m.size(), w); for (auto& x : v.m) { const JSON::Property* f = nullptr; for (auto& y : m) if (sx_fork(sx_eq(y.first, x.first))) { f = &y.second; break; } sx_assert(f, w); if (f) same(*f, x.second, w); } } }
}
static void eqv(const V& a, const V& b, const char* w) { sx_assert(a.t == b.t, w); if (a.t != b.t) return; if (a.t == 'i' || a.t == 'b') sx_assert(a.i == b.i, w); if (a.t == 's') sx_assert(sx_eq(a.s, b.s), w); sx_assert(a.a.size() == b.a.size() && a.m.size() == b.m.size(), w); for (size_t i = 0; i < a.a.size() && i < b.a.size(); i++) eqv(a.a[i], b.a[i], w); for (auto& x : b.m) { const V* f = nullptr; for (auto& y : a.m) if (sx_fork(sx_eq(y.first, x.first))) { f = &y.second; break; } sx_assert(f, w); if (f) eqv(*f, x.second, w); } }
