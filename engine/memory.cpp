#include "engine.h"
void objUnref(Obj* o) { if (--o->rc == 0) { ::free(o->d); ::free(o->s); delete o->acc; delete o; } }
Obj* objClone(Obj* o) { Obj* n = new Obj(*o); n->rc = 1; n->d = (uint8_t*)malloc(o->size + 1); memcpy(n->d, o->d, o->size); if (o->s) { n->s = (Expr**)malloc((o->size + 1) * sizeof(Expr*)); memcpy(n->s, o->s, o->size * sizeof(Expr*)); } if (o->acc) n->acc = new std::vector<Acc>(*o->acc); return n; }
static void chunkUnref(Chunk* c) { if (--c->rc == 0) { for (auto o : c->o) if (o) objUnref(o); delete c; } }
static void nodeUnref(Node* n) { if (--n->rc == 0) { for (auto c : n->c) if (c) chunkUnref(c); delete n; } }
Memory::Memory(const Memory& m) : root(m.root), nextId(m.nextId) { for (auto n : root) if (n) n->rc++; }
Memory::~Memory() { for (auto n : root) if (n) nodeUnref(n); }
Obj** Memory::slot(uint64_t id) {
	uint64_t r = id >> 12; if (r >= root.size()) root.resize(r + 1, nullptr);
	if (!root[r]) { root[r] = new Node(); memset(root[r], 0, sizeof(Node)); root[r]->rc = 1; }
	else if (root[r]->rc > 1) { Node* n = new Node(*root[r]); n->rc = 1; for (auto c : n->c) if (c) c->rc++; root[r]->rc--; root[r] = n; }
	Chunk*& c = root[r]->c[(id >> 6) & 63];
	if (!c) { c = new Chunk(); memset(c, 0, sizeof(Chunk)); c->rc = 1; }
	else if (c->rc > 1) { Chunk* n = new Chunk(*c); n->rc = 1; for (auto o : n->o) if (o) o->rc++; c->rc--; c = n; }
	return &c->o[id & 63];
}
Obj* Memory::writable(uint64_t id) { Obj** s = slot(id); if ((*s)->rc > 1) { Obj* n = objClone(*s); (*s)->rc--; *s = n; } return *s; }
uint64_t Memory::alloc(uint32_t size, ObjKind k, const char* nm) {
	uint64_t id = nextId++; Obj* o = new Obj(); o->rc = 1; o->size = size; o->kind = k; o->ro = false; o->hostFn = 0; o->d = (uint8_t*)malloc(size + 1); memset(o->d, 0xAA, size); o->s = nullptr; o->nm = nm; o->acc = nullptr;
	*slot(id) = o; return id;
}
void Memory::free(uint64_t id) {
	Obj** s = slot(id); if (*s) objUnref(*s); *s = nullptr;
	Chunk*& c = root[id >> 12]->c[(id >> 6) & 63]; bool any = false; for (auto o : c->o) if (o) { any = true; break; }
	if (!any && (id >> 6) != (nextId >> 6)) { chunkUnref(c); c = nullptr; }
}
State::State(const State& o) : mem(o.mem), th(o.th), cur(o.cur), pc(o.pc), model(o.model), steps(o.steps), stepBase(o.stepBase), stepMax(o.stepMax), obs(o.obs), symcount(o.symcount), vars(o.vars), exc(o.exc), hb(o.hb), forks(o.forks), failing(o.failing), reached(o.reached) { for (auto& t : th) for (auto f : t.st) f->rc++; }
State::~State() { for (auto& t : th) for (auto f : t.st) if (--f->rc == 0) delete f; }
