// And-inverter graph with structural hashing and an incremental SAT interface.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>
#include <minisat/core/Solver.h>

typedef uint32_t Lit; // 2*node + negated; node 0 is the constant FALSE
static const Lit F0 = 0, T1 = 1;

struct Aig
{
	std::vector<Lit> a, b; // b == UINT32_MAX for inputs
	std::vector<uint32_t> table;
	uint32_t mask, used = 0;
	static constexpr Lit NONE = UINT32_MAX;
	Aig()
	{
		a.push_back(0); b.push_back(NONE);
		table.assign(1 << 20, 0); mask = (1 << 20) - 1;
	}
	size_t size() const { return a.size(); }
	static Lit Not(Lit x) { return x ^ 1; }
	Lit input() { a.push_back(0); b.push_back(NONE); return (Lit)(a.size() - 1) * 2; }
	bool isAnd(Lit x) const { return b[x >> 1] != NONE; }
	void rehash()
	{
		std::vector<uint32_t> t((size_t)table.size() * 2, 0);
		uint32_t m = t.size() - 1;
		for (uint32_t n : table) if (n) {
			uint64_t h = hash(a[n], b[n]);
			uint32_t i = h & m;
			while (t[i]) i = (i + 1) & m;
			t[i] = n;
		}
		table.swap(t); mask = m;
	}
	static uint64_t hash(Lit x, Lit y)
	{
		uint64_t h = ((uint64_t)x << 32 | y) * 0x9E3779B97F4A7C15ull;
		return h ^ (h >> 29);
	}
	Lit And(Lit x, Lit y, int depth = 0)
	{
		if (x > y) std::swap(x, y);
		if (x == F0) return F0;
		if (x == T1) return y;
		if (x == y) return x;
		if (x == (y ^ 1)) return F0;
		// one level rules
		if (depth < 4) {
			for (int k = 0; k < 2; ++k) {
				Lit p = k ? y : x, q = k ? x : y; // p may be an And
				if (!isAnd(p)) continue;
				Lit c = a[p >> 1], d = b[p >> 1];
				if (!(p & 1)) {
					if (c == q || d == q) return p;
					if (c == (q ^ 1) || d == (q ^ 1)) return F0;
					if (isAnd(q)) {
						Lit e = a[q >> 1], f = b[q >> 1];
						if (!(q & 1)) {
							if (c == (e ^ 1) || c == (f ^ 1) || d == (e ^ 1) || d == (f ^ 1)) return F0;
							if (c == e) return And(p, f, depth + 1);
							if (c == f) return And(p, e, depth + 1);
							if (d == e) return And(p, f, depth + 1);
							if (d == f) return And(p, e, depth + 1);
						} else {
							if (c == (e ^ 1) || c == (f ^ 1) || d == (e ^ 1) || d == (f ^ 1)) return p;
							if (c == e || d == e) return And(p, f ^ 1, depth + 1);
							if (c == f || d == f) return And(p, e ^ 1, depth + 1);
						}
					}
				} else {
					if (c == q) return And(q, d ^ 1, depth + 1);
					if (d == q) return And(q, c ^ 1, depth + 1);
					if (c == (q ^ 1) || d == (q ^ 1)) return q;
					if (isAnd(q) && (q & 1)) {
						Lit e = a[q >> 1], f = b[q >> 1];
						// !(c&d) & !(c&!d) = !c
						if (c == e && d == (f ^ 1)) return c ^ 1;
						if (c == f && d == (e ^ 1)) return c ^ 1;
						if (d == e && c == (f ^ 1)) return d ^ 1;
						if (d == f && c == (e ^ 1)) return d ^ 1;
					}
				}
			}
		}
		if (x > y) std::swap(x, y);
		uint32_t i = hash(x, y) & mask;
		while (table[i]) {
			uint32_t n = table[i];
			if (a[n] == x && b[n] == y) return n * 2;
			i = (i + 1) & mask;
		}
		uint32_t n = a.size();
		a.push_back(x); b.push_back(y);
		table[i] = n;
		if (++used * 2 > table.size()) rehash();
		if (n > 900000000u) { fprintf(stderr, "AIG too big\n"); exit(4); }
		return n * 2;
	}
	Lit Or(Lit x, Lit y) { return Not(And(Not(x), Not(y))); }
	Lit Ite(Lit c, Lit x, Lit y)
	{
		if (c == T1 || x == y) return x;
		if (c == F0) return y;
		if (c & 1) { c ^= 1; std::swap(x, y); }
		if (x == T1) return Or(c, y);
		if (x == F0) return And(Not(c), y);
		if (y == T1) return Or(Not(c), x);
		if (y == F0) return And(c, x);
		if (x == c) return Or(c, y);
		if (x == (c ^ 1)) return And(Not(c), y);
		if (y == c) return And(c, x);
		if (y == (c ^ 1)) return Or(Not(c), x);
		if (x == (y ^ 1)) return Xor(c, y);
		return Not(And(Not(And(c, x)), Not(And(Not(c), y))));
	}
	Lit Xor(Lit x, Lit y)
	{
		if (x == F0) return y;
		if (y == F0) return x;
		if (x == T1) return y ^ 1;
		if (y == T1) return x ^ 1;
		if (x == y) return F0;
		if (x == (y ^ 1)) return T1;
		Lit neg = (x & 1) ^ (y & 1);
		x &= ~1u; y &= ~1u;
		// !( !(x&!y) & !(!x&y) )
		Lit r = Or(And(x, y ^ 1), And(x ^ 1, y));
		return r ^ neg;
	}
	Lit Eq(Lit x, Lit y) { return Xor(x, y) ^ 1; }
};

// Incremental SAT over the AIG (minisat): used for pruning of infeasible branches.
struct AigSat
{
	Aig& A;
	Minisat::Solver S;
	std::vector<int> var; // node -> minisat var or -1
	AigSat(Aig& a) : A(a) {}
	Minisat::Lit lit(Lit l)
	{
		encode(l >> 1);
		return Minisat::mkLit(var[l >> 1], l & 1);
	}
	void encode(uint32_t root)
	{
		if (var.size() < A.size()) var.resize(A.size() + A.size() / 2, -1);
		if (var[root] >= 0) return;
		std::vector<uint32_t> st{root};
		while (!st.empty()) {
			uint32_t n = st.back();
			if (var[n] >= 0) { st.pop_back(); continue; }
			if (n == 0) {
				var[n] = S.newVar();
				S.addClause(Minisat::mkLit(var[n], true));
				st.pop_back(); continue;
			}
			if (A.b[n] == Aig::NONE) { var[n] = S.newVar(); st.pop_back(); continue; }
			uint32_t x = A.a[n] >> 1, y = A.b[n] >> 1;
			bool ready = true;
			if (var[x] < 0) { st.push_back(x); ready = false; }
			if (var[y] < 0) { st.push_back(y); ready = false; }
			if (!ready) continue;
			int v = S.newVar();
			var[n] = v;
			Minisat::Lit lx = Minisat::mkLit(var[x], A.a[n] & 1), ly = Minisat::mkLit(var[y], A.b[n] & 1);
			S.addClause(Minisat::mkLit(v, true), lx);
			S.addClause(Minisat::mkLit(v, true), ly);
			S.addClause(Minisat::mkLit(v, false), ~lx, ~ly);
			st.pop_back();
		}
	}
	// 1 sat, 0 unsat, -1 unknown
	int query(const std::vector<Lit>& assum, int64_t conflicts)
	{
		Minisat::vec<Minisat::Lit> as;
		for (Lit l : assum) {
			if (l == F0) return 0;
			if (l == T1) continue;
			as.push(lit(l));
		}
		if (conflicts >= 0) S.setConfBudget(conflicts); else S.budgetOff();
		Minisat::lbool r = S.solveLimited(as);
		if (r == Minisat::lbool((uint8_t)0)) return 1;
		if (r == Minisat::lbool((uint8_t)1)) return 0;
		return -1;
	}
	bool value(Lit l)
	{
		uint32_t n = l >> 1;
		if (n >= var.size() || var[n] < 0) return l & 1;
		bool v = S.modelValue(Minisat::mkLit(var[n])) == Minisat::lbool((uint8_t)0);
		return v ^ (l & 1);
	}
};
