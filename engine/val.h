// Symbolic values: constants, guarded lists of constants (optionally with a symbolic offset, for
// pointers), bit vectors over the AIG, aggregates.
#pragma once
#include "aig.h"
#include <algorithm>
#include <cassert>
#include <cstring>
#include <memory>

typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8;
extern Aig A;
[[noreturn]] void die(const std::string& m);

enum Kind : u8 { UNSET, CONST, LIST, BITS, AGG };
struct Val;
typedef std::vector<Lit> Bits;
struct Ent { Lit g; u64 c; const Bits* off; };
struct VNode;
struct Val
{
	Kind k = UNSET;
	u32 w = 0;
	union { u64 c; VNode* n; };
	Val() : c(0) {}
	bool same(const Val& o) const { return k == o.k && w == o.w && c == o.c; }
};
struct VNode { Bits bits; std::vector<Ent> ents; std::vector<Val> agg; };

static const u64 PTR_MIN = 1ull << 28; // smaller constants are never addresses

static inline u64 maskw(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val mkC(u32 w, u64 c) { Val v; v.k = CONST; v.w = w; v.c = c & maskw(w); return v; }
static inline Val mkBits(Bits&& b)
{
	u32 w = b.size();
	if (w <= 64) {
		bool all = true; u64 c = 0;
		for (u32 i = 0; i < w; ++i) { if (b[i] > 1) { all = false; break; } if (b[i] == T1) c |= 1ull << i; }
		if (all) return mkC(w, c);
	}
	Val v; v.k = BITS; v.w = w; v.n = new VNode; v.n->bits = std::move(b); return v;
}
static inline Val mkLit(Lit l) { return l <= 1 ? mkC(1, l) : mkBits(Bits{l}); }
static inline Val mkAgg(std::vector<Val>&& a) { Val v; v.k = AGG; v.n = new VNode; v.n->agg = std::move(a); return v; }

static Bits bitsOf(const Val& v);
static inline Lit litOf(const Val& v)
{
	if (v.k == CONST) return v.c & 1 ? T1 : F0;
	if (v.k == BITS) return v.n->bits[0];
	if (v.k == UNSET) die("use of an unset value");
	return bitsOf(v)[0];
}
static inline Bits constBits(u32 w, u64 c)
{
	Bits b(w, F0);
	for (u32 i = 0; i < w && i < 64; ++i) if (c >> i & 1) b[i] = T1;
	return b;
}
// ---- bit vector arithmetic
static inline Bits bAdd(const Bits& x, const Bits& y, Lit cin = F0)
{
	Bits r(x.size()); Lit c = cin;
	for (size_t i = 0; i < x.size(); ++i) {
		Lit t = A.Xor(x[i], y[i]);
		r[i] = A.Xor(t, c);
		if (i + 1 < x.size()) c = A.Or(A.And(x[i], y[i]), A.And(t, c));
	}
	return r;
}
static inline Bits bNot(const Bits& x) { Bits r(x); for (Lit& l : r) l ^= 1; return r; }
static inline Bits bSub(const Bits& x, const Bits& y) { return bAdd(x, bNot(y), T1); }
static inline Bits bNeg(const Bits& x) { return bAdd(constBits(x.size(), 0), bNot(x), T1); }
static inline Lit bEq(const Bits& x, const Bits& y)
{
	Lit r = T1;
	for (size_t i = 0; i < x.size() && r != F0; ++i) r = A.And(r, A.Eq(x[i], y[i]));
	return r;
}
static inline Lit bUlt(const Bits& x, const Bits& y)
{
	Lit r = F0; // from the lowest bit
	for (size_t i = 0; i < x.size(); ++i)
		r = A.Ite(A.Xor(x[i], y[i]), y[i], r);
	return r;
}
static inline Lit bSlt(const Bits& x, const Bits& y)
{
	Bits a = x, b = y;
	a.back() ^= 1; b.back() ^= 1;
	return bUlt(a, b);
}
static inline Bits bIte(Lit c, const Bits& x, const Bits& y)
{
	Bits r(x.size());
	for (size_t i = 0; i < x.size(); ++i) r[i] = A.Ite(c, x[i], y[i]);
	return r;
}
static inline u32 sigBits(const Bits& x) { u32 n = x.size(); while (n > 0 && x[n - 1] == F0) --n; return n; }
static inline Bits bMul(const Bits& x, const Bits& y)
{
	u32 w = x.size();
	const Bits* p = &x; const Bits* q = &y; // q: with more constants
	auto consts = [](const Bits& b) { u32 n = 0; for (Lit l : b) n += l <= 1; return n; };
	if (consts(x) > consts(y)) std::swap(p, q);
	Bits r(w, F0);
	for (u32 i = 0; i < w; ++i) {
		if ((*q)[i] == F0) continue;
		Bits t(w, F0);
		for (u32 j = 0; i + j < w; ++j) t[i + j] = A.And((*p)[j], (*q)[i]);
		r = bAdd(r, t);
	}
	return r;
}
static inline void bDivRem(const Bits& x, const Bits& y, Bits& q, Bits& r)
{
	u32 w = x.size();
	u32 n = std::max(sigBits(x), sigBits(y));
	if (n == 0) n = 1;
	q.assign(w, F0); 
	Bits rem(n + 1, F0), d(n + 1, F0);
	for (u32 i = 0; i < n; ++i) d[i] = y[i];
	for (u32 k = n; k-- > 0;) {
		for (u32 i = n; i > 0; --i) rem[i] = rem[i - 1];
		rem[0] = x[k];
		Lit ge = bUlt(rem, d) ^ 1;
		q[k] = ge;
		rem = bIte(ge, bSub(rem, d), rem);
	}
	r.assign(w, F0);
	for (u32 i = 0; i < n; ++i) r[i] = rem[i];
}
static inline Bits bShift(int op, const Bits& x, const Bits& s) // 0 shl 1 lshr 2 ashr
{
	u32 w = x.size();
	Bits r = x;
	Lit fill = op == 2 ? x.back() : F0;
	for (u32 k = 0; (1u << k) < w; ++k) {
		if (k >= s.size() || s[k] == F0) continue;
		Bits t(w);
		u32 n = 1u << k;
		for (u32 i = 0; i < w; ++i) {
			if (op == 0) t[i] = i >= n ? r[i - n] : F0;
			else t[i] = i + n < w ? r[i + n] : fill;
		}
		r = bIte(s[k], t, r);
	}
	return r;
}
// ---- values
static inline Bits bitsOf(const Val& v)
{
	switch (v.k) {
	case CONST: return constBits(v.w, v.c);
	case BITS: return v.n->bits;
	case LIST: {
		Bits r(v.w, F0);
		for (const Ent& e : v.n->ents) {
			if (e.off) {
				Bits t = bAdd(constBits(v.w, e.c), *e.off);
				for (u32 i = 0; i < v.w; ++i) r[i] = A.Or(r[i], A.And(e.g, t[i]));
			} else
				for (u32 i = 0; i < v.w; ++i) if (e.c >> i & 1) r[i] = A.Or(r[i], e.g);
		}
		return r;
	}
	default: die("bits of an unset or aggregate value");
	}
}
static const size_t CAP_INT = 24, CAP_PTR = 256;
static inline Val mkList(u32 w, std::vector<Ent>&& in)
{
	std::vector<Ent> es;
	std::sort(in.begin(), in.end(), [](const Ent& x, const Ent& y) { return x.c != y.c ? x.c < y.c : x.off < y.off; });
	bool ptr = false, offs = false;
	for (Ent& e : in) {
		if (e.g == F0) continue;
		if (!es.empty() && es.back().c == e.c && es.back().off == e.off) {
			es.back().g = A.Or(es.back().g, e.g);
			continue;
		}
		es.push_back(e);
		if (e.c >= PTR_MIN) ptr = true;
		if (e.off) offs = true;
	}
	if (es.empty()) return mkC(w, 0); // unreachable value
	if (es.size() == 1 && !es[0].off) return mkC(w, es[0].c);
	for (const Ent& e : es) if (e.g == T1 && !e.off && es.size() > 1) return mkC(w, e.c);
	Val v; v.k = LIST; v.w = w; v.n = new VNode; v.n->ents = std::move(es);
	if (w == 1 || (!ptr && v.n->ents.size() > CAP_INT) || (offs && !ptr) || v.n->ents.size() > CAP_PTR)
		return mkBits(bitsOf(v));
	return v;
}
static inline void entsOf(const Val& v, std::vector<Ent>& out)
{
	if (v.k == CONST) out.push_back({T1, v.c, nullptr});
	else out = v.n->ents;
}
static inline bool listy(const Val& v) { return v.k == CONST || v.k == LIST; }
static Val vIte(Lit c, const Val& x, const Val& y)
{
	if (c == T1 || x.same(y)) return x;
	if (c == F0) return y;
	if (x.k == UNSET) return y;
	if (y.k == UNSET) return x;
	if (x.k == AGG) {
		std::vector<Val> r;
		for (size_t i = 0; i < x.n->agg.size(); ++i) r.push_back(vIte(c, x.n->agg[i], y.n->agg[i]));
		return mkAgg(std::move(r));
	}
	if (x.w != y.w) die("width mismatch in ite");
	auto hasPtr = [](const Val& v) {
		if (v.k == CONST) return v.c >= PTR_MIN;
		if (v.k != LIST) return false;
		for (const Ent& e : v.n->ents) if (e.c >= PTR_MIN) return true;
		return false;
	};
	if (x.w > 1 && ((listy(x) && listy(y)) || (x.w == 64 && (hasPtr(x) || hasPtr(y))))) {
		std::vector<Ent> a, b, r;
		if (listy(x)) entsOf(x, a); else a.push_back({T1, 0, &x.n->bits});
		if (listy(y)) entsOf(y, b); else b.push_back({T1, 0, &y.n->bits});
		for (Ent& e : a) { e.g = A.And(c, e.g); r.push_back(e); }
		for (Ent& e : b) { e.g = A.And(c ^ 1, e.g); r.push_back(e); }
		return mkList(x.w, std::move(r));
	}
	return mkBits(bIte(c, bitsOf(x), bitsOf(y)));
}
