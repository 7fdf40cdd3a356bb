// vxsym: symbolic execution of LLVM bitcode with state merging.
//
// The program (clang-compiled, unmodified sources of the repository plus a harness) is executed
// over symbolic values. States which reach the same program position are merged, so each program
// point (call stack x block x loop iterations) is executed once per run for all inputs; what
// remains is a set of verification conditions over the symbolic inputs, which are bit-blasted and
// decided by a SAT solver. See DESIGN.md.
#include "val.h"
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
using std::map; using std::pair; using std::set; using std::string; using std::vector;
using std::shared_ptr; using std::make_shared; using std::unique_ptr;

Aig A;
static string gWhere;
[[noreturn]] void die(const string& m)
{
	fprintf(stderr, "vxsym: %s at %s\n", m.c_str(), gWhere.c_str());
	exit(3);
}
static double now()
{
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------------------ options
static struct {
	unsigned unwind = 8;
	map<string, unsigned> uw;          // substring of the demangled name -> bound
	vector<string> spin;               // loops whose overrun is pruned silently
	vector<string> atomicFns;          // no switches inside
	string stopAt;
	double timeout = 250;
	bool prune = true;
	int pruneConf = 1000;
	bool freeLast = false;
	bool verbose = false;
	bool dump = false;
	string solver = "kissat";
	string cnf = "/tmp/vxsym.cnf";
	u64 maxSteps = 200000000;
	unsigned concLimit = 5000;
	bool leakAlloca = false;
	bool mayFailAlloc = false;
	unsigned maxDepth = 200;
} Opt;

// ------------------------------------------------------------------------------ per function data
struct FInfo
{
	const Function* F;
	u32 id;
	DenseMap<const Value*, u32> num;
	u32 nregs = 0;
	struct BI {
		vector<u32> ords;              // one per nesting level
		vector<u32> loops;             // ids of the loops, outer to inner
		vector<bool> live;             // live-in registers
		vector<const Instruction*> insts;
		u32 firstNonPhi = 0;
		bool seen = false;
	};
	DenseMap<const BasicBlock*, BI*> bi;
	DenseMap<const Instruction*, u32> instIdx;
	vector<const BasicBlock*> loopHeader;
	unsigned bound;
	bool spin, atomic;
	string name;
};

// ------------------------------------------------------------------------------ memory
struct Cell { u32 off, size; Val v; Lit def = T1; }; // the value is v if def, unknown otherwise
struct Obj
{
	u32 id;
	u32 size;
	Lit alive = T1;
	u8 kind = 0; // 0 global 1 stack 2 heap
	bool ro = false, zero = false;
	Val symSize;
	vector<Cell> cells;
	vector<Cell> shadow; // release knowledge, see hb*
};
typedef shared_ptr<Obj> ObjP;
struct Chunk { ObjP o[32]; };
struct Mem
{
	vector<shared_ptr<Chunk>> ch;
	Obj* get(u32 id) const
	{
		u32 c = id >> 5;
		if (c >= ch.size() || !ch[c]) return nullptr;
		return ch[c]->o[id & 31].get();
	}
	ObjP& slot(u32 id)
	{
		u32 c = id >> 5;
		if (c >= ch.size()) ch.resize(c + 1);
		if (!ch[c]) ch[c] = make_shared<Chunk>();
		else if (ch[c].use_count() > 1) ch[c] = make_shared<Chunk>(*ch[c]);
		return ch[c]->o[id & 31];
	}
	Obj* mut(u32 id)
	{
		ObjP& p = slot(id);
		if (p.use_count() > 1) p = make_shared<Obj>(*p);
		return p.get();
	}
};
static const u64 OBJ_SHIFT = 24, OBJ_MID = 1ull << 23, OBJ_FIRST = 256;
static u64 objBase(u32 id) { return ((u64)(id + OBJ_FIRST) << OBJ_SHIFT) + OBJ_MID; }
static i64 addrObj(u64 a, i64& off)
{
	u64 k = a >> OBJ_SHIFT;
	if (k < OBJ_FIRST || k > 0x7fffffff) return -1;
	off = (i64)(a - ((k << OBJ_SHIFT) + OBJ_MID));
	return (i64)(k - OBJ_FIRST);
}

struct Fact { Lit l; Lit guard; const Fact* parent; u32 depth; };

struct Frame
{
	FInfo* fi = nullptr;
	const BasicBlock* bb = nullptr;
	u32 inst = 0;
	vector<u32> iter, sym, lg;         // per loop nesting level
	shared_ptr<vector<Val>> regs;
	const CallBase* call = nullptr;    // in the caller
	vector<u32> allocas;
	u32 va = 0;                        // arguments of "..."
};

struct State
{
	const Fact* facts = nullptr;
	Mem mem;
	vector<Frame> fr;
	int tid = 0;
	int atomicDepth = 0;
	Val live = mkC(64, 0);
	map<pair<const void*, u32>, u32> counters;
	vector<Val> know;                  // happens-before knowledge per thread
	Val vcount = mkC(32, 0);           // visible operations of this turn
	Lit guard() const { return facts->guard; }
};
typedef shared_ptr<State> StateP;
typedef vector<u32> Key;

struct Viol { Lit cond; string msg, fn; unsigned line; Val dbg; int round, tid; };
struct Input { Lit g; Val v; };
struct Event { Lit g; int round, tid; string what; };

struct Eng
{
	Module& M;
	const DataLayout& DL;
	AigSat sat{A};
	DenseMap<const Function*, FInfo*> finfo;
	DenseMap<const GlobalVariable*, u32> gvObj;
	map<pair<const GlobalVariable*, int>, u32> tlsObj;
	map<pair<pair<const void*, u32>, u32>, u32> heapIds;
	map<std::tuple<int, u32, const void*, u32>, u32> stackIds;
	vector<const Function*> fnByIdx;
	DenseMap<const Function*, u32> fnIdx;
	u32 nextObj = 0;
	vector<string> objName;
	vector<Viol> viols;
	vector<Input> inputs;
	vector<Event> events;
	map<string, Lit> reach;
	vector<Lit> killed;
	set<string> executed;
	u64 steps = 0, merges = 0, forks = 0, pruned = 0, sats = 0, visibles = 0;
	double t0 = now(), satTime = 0;
	map<Key, StateP> work;
	DenseMap<const Constant*, Val> constCache;
	// facts stamping
	vector<u32> stamp; vector<u8> stampVal; u32 curStamp = 0;
	const Fact* active = nullptr;
	// threads
	struct Ctx { Lit g; StateP st; bool blocked; };
	bool inRun = false;
	int curRound = 0, nThreads = 0; bool lastRound = false;
	vector<StateP> parked, finished;
	vector<Lit> parkLit;
	struct Thr { const Function* fn; Val arg; };
	vector<Thr> thr;
	vector<Lit> finLit; Lit deadLit = F0;
	Fact rootFact{T1, T1, nullptr, 0};
	unsigned hbTokens = 0;
	int nHbThreads = 0;
	const Instruction* curInst = nullptr;
	Val dbgVal;

	Eng(Module& m) : M(m), DL(m.getDataLayout()) {}

	// -------------------------------------------------------------------- facts
	void put(Lit l)
	{
		u32 n = l >> 1;
		if (n >= stamp.size()) { stamp.resize(A.size() * 2 + 1024, 0); stampVal.resize(A.size() * 2 + 1024, 0); }
		if (stamp[n] == curStamp) return;
		stamp[n] = curStamp; stampVal[n] = !(l & 1);
		if (!A.isAnd(l)) return;
		if (!(l & 1)) { put(A.a[n]); put(A.b[n]); }
		else {
			int x = known(A.a[n]), y = known(A.b[n]);
			if (x == 1) put(A.b[n] ^ 1);
			else if (y == 1) put(A.a[n] ^ 1);
		}
	}
	int known(Lit l) // 1 true 0 false -1 unknown
	{
		u32 n = l >> 1;
		if (n == 0) return l & 1;
		if (n < stamp.size() && stamp[n] == curStamp) return stampVal[n] ^ (l & 1);
		return -1;
	}
	void activate(const Fact* f)
	{
		if (f == active) return;
		++curStamp;
		active = f;
		vector<Lit> ls;
		for (; f; f = f->parent) ls.push_back(f->l);
		for (size_t i = ls.size(); i-- > 0;) put(ls[i]);
	}
	Lit simp(Lit l, int depth = 0)
	{
		int k = known(l);
		if (k >= 0) return k ? T1 : F0;
		if (!A.isAnd(l) || depth > 5) return l;
		u32 n = l >> 1;
		Lit x = simp(A.a[n], depth + 1), y = simp(A.b[n], depth + 1);
		if (x == A.a[n] && y == A.b[n]) return l;
		Lit r = A.And(x, y);
		if (r > 1) { k = known(r); if (k >= 0) r = k ? T1 : F0; }
		return r ^ (l & 1);
	}
	void addFact(State& s, Lit l)
	{
		if (l == T1) return;
		s.facts = new Fact{l, A.And(s.facts->guard, l), s.facts, s.facts->depth + 1};
	}
	Val simpV(const Val& v)
	{
		if (v.k != LIST) return v;
		bool ch = false;
		vector<Ent> es;
		for (const Ent& e : v.n->ents) {
			Lit g = simp(e.g);
			if (g != e.g) ch = true;
			if (g == F0) continue;
			if (g == T1) { es.clear(); es.push_back({T1, e.c, e.off}); ch = true; break; }
			es.push_back({g, e.c, e.off});
		}
		if (!ch) return v;
		return mkList(v.w, std::move(es));
	}
	map<pair<int, int>, pair<int, double>> prof;
	int querySat(const vector<Lit>& as, int64_t conf, int line = __builtin_LINE())
	{
		double t = now();
		++sats;
		int r = sat.query(as, conf);
		satTime += now() - t;
		if (getenv("VX_PROF")) { auto& q = prof[{line, r}]; ++q.first; q.second += now() - t; }
		return r;
	}

	// -------------------------------------------------------------------- violations
	string fnName(const Function* f)
	{
		if (auto* sp = f->getSubprogram())
			if (!sp->getName().empty()) return demangle(f->getName().str());
		return demangle(f->getName().str());
	}
	void where(string& fn, unsigned& line)
	{
		fn = ""; line = 0;
		if (!curInst) return;
		fn = fnName(curInst->getFunction());
		if (auto& dl = curInst->getDebugLoc()) line = dl.getLine();
	}
	// bad: the violation condition; the state goes on with !bad. Returns false if nothing remains.
	bool violate(State& s, Lit bad, const string& msg)
	{
		bad = simp(bad);
		if (bad == F0) return true;
		Lit c = A.And(s.guard(), bad);
		if (c != F0) {
			Viol v{c, msg, "", 0, dbgVal, inRun ? curRound : -1, s.tid - 1};
			if (dbgVal.k == LIST || dbgVal.k == BITS) (void)bitsOf(dbgVal);
			where(v.fn, v.line);
			viols.push_back(v);
			if (Opt.verbose) fprintf(stderr, "VC %s in %s:%u\n", msg.c_str(), v.fn.c_str(), v.line);
			killed.push_back(c);
		}
		if (bad == T1) return false;
		addFact(s, bad ^ 1);
		activate(s.facts);
		return s.guard() != F0;
	}
	bool assume(State& s, Lit c)
	{
		c = simp(c);
		if (c == T1) return true;
		killed.push_back(A.And(s.guard(), c ^ 1));
		if (c == F0) return false;
		addFact(s, c);
		activate(s.facts);
		return s.guard() != F0;
	}

	// -------------------------------------------------------------------- function info
	FInfo* info(const Function* f)
	{
		auto it = finfo.find(f);
		if (it != finfo.end()) return it->second;
		FInfo* r = new FInfo;
		finfo[f] = r;
		r->F = f;
		r->id = finfo.size();
		r->name = demangle(f->getName().str());
		for (const Argument& a : f->args()) r->num[&a] = r->nregs++;
		for (const BasicBlock& b : *f)
			for (const Instruction& i : b)
				if (!i.getType()->isVoidTy()) r->num[&i] = r->nregs++;
		Function& nf = const_cast<Function&>(*f);
		DominatorTree DT(nf);
		LoopInfo LI(DT);
		vector<BasicBlock*> rpo;
		for (BasicBlock* b : ReversePostOrderTraversal<Function*>(&nf)) rpo.push_back(b);
		for (BasicBlock* b : rpo) {
			auto* x = new FInfo::BI;
			r->bi[b] = x;
			u32 k = 0;
			for (const Instruction& i : *b) {
				r->instIdx[&i] = k++;
				x->insts.push_back(&i);
				if (isa<PHINode>(i)) x->firstNonPhi = k;
			}
		}
		map<Loop*, u32> loopId;
		std::function<void(Loop*)> level = [&](Loop* L) {
			auto node = [&](BasicBlock* b) -> BasicBlock* {
				Loop* x = LI.getLoopFor(b);
				if (x == L) return b;
				while (x && x->getParentLoop() != L) x = x->getParentLoop();
				return x ? x->getHeader() : nullptr;
			};
			vector<BasicBlock*> nodes; set<BasicBlock*> seen;
			map<BasicBlock*, set<BasicBlock*>> succ; map<BasicBlock*, int> indeg;
			for (BasicBlock* b : rpo) {
				if (L && !L->contains(b)) continue;
				BasicBlock* n = node(b);
				if (n && seen.insert(n).second) nodes.push_back(n);
				for (BasicBlock* s : successors(b)) {
					if (L && (!L->contains(s) || s == L->getHeader())) continue;
					BasicBlock* m = node(s);
					if (m && m != n && succ[n].insert(m).second) ++indeg[m];
				}
			}
			set<BasicBlock*> done; size_t left = nodes.size(); u32 ord = 0;
			while (left > 0) {
				BasicBlock* pick = nullptr;
				for (BasicBlock* n : nodes) if (!done.count(n) && indeg[n] == 0) { pick = n; break; }
				if (!pick) for (BasicBlock* n : nodes) if (!done.count(n)) { pick = n; break; }
				done.insert(pick); --left;
				for (BasicBlock* m : succ[pick]) --indeg[m];
				Loop* x = LI.getLoopFor(pick);
				if (x != L && x != nullptr) {
					while (x->getParentLoop() != L) x = x->getParentLoop();
					if (!loopId.count(x)) { u32 k = loopId.size(); loopId[x] = k; r->loopHeader.push_back(x->getHeader()); }
					for (BasicBlock* b : x->blocks()) {
						r->bi[b]->ords.push_back(ord);
						r->bi[b]->loops.push_back(loopId[x]);
					}
					level(x);
				} else
					r->bi[pick]->ords.push_back(ord);
				++ord;
			}
		};
		level(nullptr);
		// liveness
		map<const BasicBlock*, vector<bool>> out;
		for (BasicBlock* b : rpo) r->bi[b]->live.assign(r->nregs, false);
		bool ch = true;
		while (ch) {
			ch = false;
			for (size_t q = rpo.size(); q-- > 0;) {
				BasicBlock* b = rpo[q];
				vector<bool> lv(r->nregs, false);
				for (BasicBlock* s : successors(b)) {
					if (!r->bi.count(s)) continue;
					auto& sl = r->bi[s]->live;
					for (u32 i = 0; i < r->nregs; ++i) if (sl[i]) lv[i] = true;
					for (const PHINode& p : s->phis()) {
						lv[r->num[&p]] = false;
					}
					for (const PHINode& p : s->phis()) {
						const Value* v = p.getIncomingValueForBlock(b);
						auto it2 = r->num.find(v);
						if (it2 != r->num.end()) lv[it2->second] = true;
					}
				}
				for (auto i = b->rbegin(); i != b->rend(); ++i) {
					auto it2 = r->num.find(&*i);
					if (it2 != r->num.end() && !isa<PHINode>(*i)) lv[it2->second] = false;
					if (isa<PHINode>(*i)) continue;
					for (const Use& u : i->operands()) {
						auto it3 = r->num.find(u.get());
						if (it3 != r->num.end()) lv[it3->second] = true;
					}
				}
				for (const PHINode& p : b->phis()) lv[r->num[&p]] = true; // set on the edge
				if (lv != r->bi[b]->live) { r->bi[b]->live = lv; ch = true; }
			}
		}
		r->bound = Opt.unwind;
		for (auto& x : Opt.uw) if (r->name.find(x.first) != string::npos) r->bound = x.second;
		r->spin = r->atomic = false;
		for (auto& x : Opt.spin) if (r->name.find(x) != string::npos) r->spin = true;
		for (auto& x : Opt.atomicFns) if (r->name.find(x) != string::npos) r->atomic = true;
		return r;
	}

	// -------------------------------------------------------------------- keys, merging
	void keyOf(const State& s, Key& k)
	{
		k.clear();
		for (const Frame& f : s.fr) {
			k.push_back(f.fi->id);
			auto* b = f.fi->bi[f.bb];
			for (size_t i = 0; i < b->ords.size(); ++i) {
				k.push_back(b->ords[i]);
				if (i < b->loops.size()) k.push_back(f.iter[i]);
			}
			k.push_back(f.inst);
		}
	}
	Val freshBits(u32 w, int line = __builtin_LINE())
	{
		if (Opt.verbose) { string fn; unsigned l; where(fn, l); fprintf(stderr, "FRESH %u at %d in %s:%u\n", w, line, fn.c_str(), l); }
		Bits b(w);
		for (Lit& l : b) l = A.input();
		return mkBits(std::move(b));
	}
	Val readCells(const vector<Cell>& cs, bool zero, u32 off, u32 n, bool& missing)
	{
		// cells are sorted by offset and disjoint
		missing = false;
		size_t lo = lower(cs, off);
		if (lo < cs.size() && cs[lo].off == off && cs[lo].size == n) return cs[lo].v;
		bool any = false;
		for (size_t i = lo; i < cs.size() && cs[i].off < off + n; ++i) any = true;
		if (!any) { missing = true; return Val(); }
		Bits r;
		u32 p = off;
		size_t i = lo;
		while (p < off + n) {
			if (i < cs.size() && cs[i].off <= p && p < cs[i].off + cs[i].size) {
				Bits b = bitsOf(widen(cs[i].v, cs[i].size));
				if (cs[i].def != T1) { Bits u = bitsOf(freshBits(b.size())); for (size_t k = 0; k < b.size(); ++k) b[k] = A.Ite(cs[i].def, b[k], u[k]); }
				u32 e = std::min(cs[i].off + cs[i].size, off + n);
				for (u32 k = (p - cs[i].off) * 8; k < (e - cs[i].off) * 8; ++k) r.push_back(b[k]);
				p = e; ++i;
			} else if (i < cs.size() && cs[i].off + cs[i].size <= p) {
				++i;
			} else {
				for (Lit l : zero ? Bits(8, F0) : bitsOf(freshBits(8))) r.push_back(l);
				++p;
			}
		}
		return mkBits(std::move(r));
	}
	// i1 and such stored in a byte
	static Val widen(const Val& v, u32 bytes)
	{
		if (v.w == bytes * 8) return v;
		if (v.k == CONST) return mkC(bytes * 8, v.c);
		Bits b = bitsOf(v);
		b.resize(bytes * 8, F0);
		return mkBits(std::move(b));
	}
	static size_t lower(const vector<Cell>& cs, u32 off)
	{
		// first cell with end > off
		size_t lo = 0, hi = cs.size();
		while (lo < hi) {
			size_t m = (lo + hi) / 2;
			if (cs[m].off + cs[m].size > off) hi = m; else lo = m + 1;
		}
		return lo;
	}
	void writeCells(vector<Cell>& cs, u32 off, u32 n, const Val& v, Lit def = T1)
	{
		size_t lo = lower(cs, off);
		if (lo < cs.size() && cs[lo].off == off && cs[lo].size == n) { cs[lo].v = v; cs[lo].def = def; return; }
		size_t hi = lo;
		vector<Cell> add;
		while (hi < cs.size() && cs[hi].off < off + n) {
			Cell& c = cs[hi];
			if (c.off < off || c.off + c.size > off + n) {
				Bits b = bitsOf(widen(c.v, c.size));
				for (u32 k = 0; k < c.size; ++k) {
					if (c.off + k >= off && c.off + k < off + n) continue;
					Bits x(b.begin() + k * 8, b.begin() + k * 8 + 8);
					add.push_back({c.off + k, 1, mkBits(std::move(x)), c.def});
				}
			}
			++hi;
		}
		add.push_back({off, n, v, def});
		std::sort(add.begin(), add.end(), [](const Cell& x, const Cell& y) { return x.off < y.off; });
		cs.erase(cs.begin() + lo, cs.begin() + hi);
		cs.insert(cs.begin() + lo, add.begin(), add.end());
	}
	Val cellAt(const vector<Cell>& cs, bool covered, bool zero, u32 off, u32 n, Lit& def)
	{
		def = F0;
		if (!covered) { if (zero) def = T1; return mkC(n * 8, 0); }
		const Cell& e = cs[lower(cs, off)];
		def = e.def;
		if (e.off == off && e.size == n) return widen(e.v, n);
		// the cuts are at all the borders of the cells, so the cell has the whole range
		Bits b = bitsOf(widen(e.v, e.size));
		return mkBits(Bits(b.begin() + (off - e.off) * 8, b.begin() + (off - e.off + n) * 8));
	}
	// x = c ? x : (v, def)
	void mergeCell(Lit c, Cell& x, const Val& v, Lit def)
	{
		if (def == F0) { x.def = A.And(c, x.def); return; }
		if (x.def == F0) { x.v = v; x.def = A.And(c ^ 1, def); return; }
		if (!x.v.same(v)) x.v = vIte(c, x.v, v);
		if (x.def != def) x.def = A.Ite(c, x.def, def);
	}
	void mergeCells(Lit c, vector<Cell>& x, const vector<Cell>& y, bool zero)
	{
		// x = c ? x : y
		bool sameLayout = x.size() == y.size();
		if (sameLayout)
			for (size_t i = 0; i < x.size(); ++i)
				if (x[i].off != y[i].off || x[i].size != y[i].size) { sameLayout = false; break; }
		if (sameLayout) {
			for (size_t i = 0; i < x.size(); ++i)
				mergeCell(c, x[i], y[i].v, y[i].def);
			return;
		}
		// generic: union of regions; matching cells stay whole
		set<u32> cuts;
		auto cut = [&](const vector<Cell>& v) { for (auto& e : v) { cuts.insert(e.off); cuts.insert(e.off + e.size); } };
		cut(x); cut(y);
		vector<Cell> r;
		vector<u32> cv(cuts.begin(), cuts.end());
		for (size_t i = 0; i + 1 < cv.size(); ++i) {
			u32 o = cv[i], n = cv[i + 1] - o;
			auto cover = [&](const vector<Cell>& v) {
				size_t l = lower(v, o);
				return l < v.size() && v[l].off <= o;
			};
			bool cx = cover(x), cy = cover(y);
			if (!cx && !cy) continue;
			// split odd sizes into bytes
			bool pw = n == 1 || n == 2 || n == 4 || n == 8;
			for (u32 k = 0; k < n; k += pw ? n : 1) {
				u32 m = pw ? n : 1;
				Lit da = F0, db = F0;
				Val a = cellAt(x, cx, zero, o + k, m, da), b = cellAt(y, cy, zero, o + k, m, db);
				r.push_back({o + k, m, a, da});
				mergeCell(c, r.back(), b, db);
			}
		}
		x.swap(r);
	}
	void mergeMem(Lit c, Mem& x, const Mem& y)
	{
		if (x.ch.size() < y.ch.size()) x.ch.resize(y.ch.size());
		for (size_t i = 0; i < y.ch.size(); ++i) {
			if (!y.ch[i] || x.ch[i] == y.ch[i]) continue;
			if (!x.ch[i]) x.ch[i] = make_shared<Chunk>();
			for (u32 k = 0; k < 32; ++k) {
				const ObjP& q = y.ch[i]->o[k];
				const ObjP& p = x.ch[i]->o[k];
				if (!q && !p) continue;
				if (q == p) continue;
				u32 id = i * 32 + k;
				if (!p) {
					x.slot(id) = q;
					if (q->alive != F0) x.mut(id)->alive = A.And(c ^ 1, q->alive);
					continue;
				}
				if (!q) {
					if (p->alive != F0) x.mut(id)->alive = A.And(c, p->alive);
					continue;
				}
				if (p->alive == F0) { ObjP t = q; x.slot(id) = t; if (t->alive != F0) x.mut(id)->alive = A.And(c ^ 1, t->alive); continue; }
				if (q->alive == F0) { x.mut(id)->alive = A.And(c, p->alive); continue; }
				ObjP qq = q;
				Obj* o = x.mut(id);
				o->alive = A.Ite(c, o->alive, qq->alive);
				if (qq->size != o->size || o->symSize.k != UNSET || qq->symSize.k != UNSET) {
					Val a = o->symSize.k != UNSET ? o->symSize : mkC(64, o->size);
					Val b = qq->symSize.k != UNSET ? qq->symSize : mkC(64, qq->size);
					o->symSize = vIte(c, a, b);
					o->size = std::max(o->size, qq->size);
				}
				mergeCells(c, o->cells, qq->cells, o->zero);
				if (!o->shadow.empty() || !qq->shadow.empty()) mergeCells(c, o->shadow, qq->shadow, true);
			}
		}
		for (size_t i = y.ch.size(); i < x.ch.size(); ++i) {
			if (!x.ch[i]) continue;
			for (u32 k = 0; k < 32; ++k)
				if (x.ch[i]->o[k] && x.ch[i]->o[k]->alive != F0) {
					Obj* o = x.mut(i * 32 + k);
					o->alive = A.And(c, o->alive);
				}
		}
	}
	// merge b into a (same position)
	// Is l true for every assignment? Exact for small cones.
	bool tautology(Lit l)
	{
		if (l == T1) return true;
		vector<u32> in, order; set<u32> seen;
		std::function<bool(u32)> dfs = [&](u32 n) -> bool {
			if (n == 0 || !seen.insert(n).second) return true;
			if (seen.size() > 80) return false;
			if (A.b[n] == Aig::NONE) { in.push_back(n); return in.size() <= 6; }
			if (!dfs(A.a[n] >> 1) || !dfs(A.b[n] >> 1)) return false;
			order.push_back(n);
			return true;
		};
		if (!dfs(l >> 1)) return false;
		static const u64 pat[6] = {0xAAAAAAAAAAAAAAAAull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull,
			0xFF00FF00FF00FF00ull, 0xFFFF0000FFFF0000ull, 0xFFFFFFFF00000000ull};
		map<u32, u64> val; val[0] = 0;
		for (size_t i = 0; i < in.size(); ++i) val[in[i]] = pat[i];
		auto V = [&](Lit x) { u64 v = val[x >> 1]; return x & 1 ? ~v : v; };
		for (u32 n : order) val[n] = V(A.a[n]) & V(A.b[n]);
		return V(l) == ~0ull;
	}
	void merge(State& a, State& b)
	{
		++merges;
		const Fact* x = a.facts; const Fact* y = b.facts;
		vector<Lit> la, lb;
		while (x != y) {
			if (x->depth >= y->depth) { la.push_back(x->l); x = x->parent; }
			else { lb.push_back(y->l); y = y->parent; }
		}
		std::reverse(la.begin(), la.end());
		std::reverse(lb.begin(), lb.end());
		Lit ra = T1, rb = T1;
		for (Lit l : la) ra = A.And(ra, l);
		for (Lit l : lb) rb = A.And(rb, l);
		// selector: a literal which holds in a and not in b
		Lit sel = ra;
		if (!la.empty() && !lb.empty() && la[0] == (lb[0] ^ 1)) sel = la[0];
		Lit r = A.Or(ra, rb);
		// common literals of both chains survive as facts
		const Fact* anc = x;
		State tmp; tmp.facts = anc;
		for (Lit l : la) if (std::find(lb.begin(), lb.end(), l) != lb.end()) addFact(tmp, l);
		if (r != T1) {
			if (tautology(r)) r = T1;
			else {
				// implied by the ancestor facts?
				activate(tmp.facts);
				Lit q = simp(r);
				if (q == T1 || tautology(q)) r = T1;
				else if (Opt.prune && ++orChecks < 200000) {
					int k = querySat({tmp.facts->guard, r ^ 1}, 20);
					if (k == 0) r = T1;
				}
			}
		}
		if (r != T1) addFact(tmp, r);
		a.facts = tmp.facts;
		mergeMem(sel, a.mem, b.mem);
		for (size_t i = 0; i < a.fr.size(); ++i) {
			Frame& f = a.fr[i]; Frame& g = b.fr[i];
			for (size_t k = 0; k < f.sym.size(); ++k) { f.sym[k] = std::max(f.sym[k], g.sym[k]); f.lg[k] |= g.lg[k]; }
			if (f.allocas.size() < g.allocas.size()) f.allocas = g.allocas;
			if (f.regs == g.regs) continue;
			const vector<bool>* lv = nullptr;
			if (i + 1 == a.fr.size() && f.inst == f.fi->bi[f.bb]->firstNonPhi) lv = &f.fi->bi[f.bb]->live;
			shared_ptr<vector<Val>> nr;
			for (size_t k = 0; k < f.regs->size(); ++k) {
				const Val& p = (*f.regs)[k]; const Val& q = (*g.regs)[k];
				if (p.same(q)) continue;
				if (lv && !(*lv)[k]) continue;
				if (!nr) nr = make_shared<vector<Val>>(*f.regs);
				(*nr)[k] = vIte(sel, p, q);
			}
			if (nr) f.regs = nr;
		}
		a.live = vIte(sel, a.live, b.live);
		a.vcount = vIte(sel, a.vcount, b.vcount);
		for (auto& c : b.counters) { u32& n = a.counters[c.first]; n = std::max(n, c.second); }
		while (a.know.size() < b.know.size()) a.know.push_back(mkC(32, 0));
		for (size_t i = 0; i < b.know.size(); ++i) a.know[i] = vIte(sel, a.know[i], b.know[i]);
	}
	u64 orChecks = 0;
	void push(StateP s)
	{
		if (s->guard() == F0) return;
		Key k; keyOf(*s, k);
		auto it = work.find(k);
		if (it == work.end()) { work.emplace(std::move(k), s); return; }
		merge(*it->second, *s);
		active = nullptr;
	}

	// -------------------------------------------------------------------- objects
	u32 newId(const string& name) { objName.push_back(name); return nextObj++; }
	u32 allocHeap(State& s, const void* site, u32 size, const Val& symSize)
	{
		u32 k = s.counters[{site, (u32)s.tid}]++;
		auto key = std::make_pair(std::make_pair(site, (u32)s.tid), k);
		auto it = heapIds.find(key);
		u32 id;
		if (it == heapIds.end()) {
			string fn; unsigned line; where(fn, line);
			id = newId("heap " + fn + ":" + std::to_string(line) + " #" + std::to_string(k));
			heapIds[key] = id;
		} else id = it->second;
		auto o = make_shared<Obj>();
		o->id = id; o->size = size; o->kind = 2; o->symSize = symSize;
		s.mem.slot(id) = o;
		return id;
	}
	Val ptrTo(u32 id, u64 off = 0) { return mkC(64, objBase(id) + off); }

	u32 gvId(State& s, const GlobalVariable* g)
	{
		if (g->isThreadLocal()) {
			auto key = std::make_pair(g, s.tid);
			auto it = tlsObj.find(key);
			u32 id;
			if (it == tlsObj.end()) { id = newId(g->getName().str() + "@tls"); tlsObj[key] = id; }
			else id = it->second;
			if (!s.mem.get(id)) initGlobal(s, g, id);
			return id;
		}
		auto it = gvObj.find(g);
		u32 id;
		if (it == gvObj.end()) { id = newId(g->getName().str()); gvObj[g] = id; }
		else id = it->second;
		if (!s.mem.get(id)) initGlobal(s, g, id);
		return id;
	}
	void initGlobal(State& s, const GlobalVariable* g, u32 id)
	{
		auto o = make_shared<Obj>();
		o->id = id;
		Type* t = g->getValueType();
		o->size = t->isSized() ? DL.getTypeAllocSize(t) : 8;
		o->ro = g->isConstant();
		o->zero = true;
		s.mem.slot(id) = o;
		if (g->hasInitializer()) storeConst(s, o.get(), 0, g->getInitializer());
		else o->zero = false;
	}
	void storeConst(State& s, Obj* o, u32 off, const Constant* c)
	{
		if (c->isNullValue() || isa<UndefValue>(c)) return;
		Type* t = c->getType();
		if (auto* st = dyn_cast<StructType>(t)) {
			auto* sl = DL.getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i)
				storeConst(s, o, off + sl->getElementOffset(i), c->getAggregateElement(i));
			return;
		}
		if (auto* at = dyn_cast<ArrayType>(t)) {
			u32 es = DL.getTypeAllocSize(at->getElementType());
			for (unsigned i = 0; i < at->getNumElements(); ++i)
				storeConst(s, o, off + i * es, c->getAggregateElement(i));
			return;
		}
		if (t->isVectorTy()) die("vector constant");
		u32 n = DL.getTypeStoreSize(t);
		writeCells(o->cells, off, n, widen(constVal(s, c), n));
	}
	u64 fnAddr(const Function* f)
	{
		auto it = fnIdx.find(f);
		u32 k;
		if (it == fnIdx.end()) { k = fnByIdx.size(); fnByIdx.push_back(f); fnIdx[f] = k; }
		else k = it->second;
		return PTR_MIN + 16 + (u64)k * 16;
	}
	Val constVal(State& s, const Constant* c)
	{
		if (auto* i = dyn_cast<ConstantInt>(c)) {
			u32 w = i->getBitWidth();
			if (w <= 64) return mkC(w, i->getZExtValue());
			Bits b(w);
			for (u32 k = 0; k < w; ++k) b[k] = i->getValue()[k] ? T1 : F0;
			return mkBits(std::move(b));
		}
		if (isa<ConstantPointerNull>(c)) return mkC(64, 0);
		if (auto* g = dyn_cast<GlobalVariable>(c)) return ptrTo(gvId(s, g));
		if (auto* f = dyn_cast<Function>(c)) return mkC(64, fnAddr(f));
		if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(s, a->getAliasee());
		if (auto* f = dyn_cast<ConstantFP>(c)) {
			APInt v = f->getValueAPF().bitcastToAPInt();
			if (v.getBitWidth() <= 64) return mkC(v.getBitWidth(), v.getZExtValue());
			return mkC(64, 0);
		}
		Type* t = c->getType();
		if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
			if (t->isAggregateType()) {
				vector<Val> r;
				unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
				for (unsigned i = 0; i < n; ++i) r.push_back(constVal(s, c->getAggregateElement(i)));
				return mkAgg(std::move(r));
			}
			u32 w = DL.getTypeSizeInBits(t);
			if (w > 64) return mkBits(Bits(w, F0));
			return mkC(w, 0);
		}
		if (t->isAggregateType()) {
			vector<Val> r;
			unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
			for (unsigned i = 0; i < n; ++i) r.push_back(constVal(s, c->getAggregateElement(i)));
			return mkAgg(std::move(r));
		}
		if (auto* e = dyn_cast<ConstantExpr>(c)) {
			switch (e->getOpcode()) {
			case Instruction::GetElementPtr: {
				APInt off(64, 0);
				if (!cast<GEPOperator>(e)->accumulateConstantOffset(DL, off)) die("const gep");
				Val b = constVal(s, e->getOperand(0));
				return mkC(64, b.c + off.getSExtValue());
			}
			case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
				Val v = constVal(s, e->getOperand(0));
				return mkC(DL.getTypeSizeInBits(t), v.c);
			}
			case Instruction::Trunc: case Instruction::ZExt: {
				Val v = constVal(s, e->getOperand(0));
				return mkC(DL.getTypeSizeInBits(t), v.c);
			}
			case Instruction::Add: return mkC(DL.getTypeSizeInBits(t), constVal(s, e->getOperand(0)).c + constVal(s, e->getOperand(1)).c);
			case Instruction::Sub: return mkC(DL.getTypeSizeInBits(t), constVal(s, e->getOperand(0)).c - constVal(s, e->getOperand(1)).c);
			case Instruction::ICmp: {
				auto* ce = cast<ConstantExpr>(e);
				Val x = constVal(s, e->getOperand(0)), y = constVal(s, e->getOperand(1));
				bool eq = x.c == y.c;
				return mkC(1, ce->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq);
			}
			default: die(string("constant expression ") + e->getOpcodeName());
			}
		}
		string str; raw_string_ostream os(str); c->print(os);
		die("constant " + str);
	}

	// -------------------------------------------------------------------- registers
	Val get(State& s, Frame& f, const Value* v)
	{
		if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
		auto it = f.fi->num.find(v);
		if (it == f.fi->num.end()) die("no register");
		const Val& r = (*f.regs)[it->second];
		if (r.k == UNSET) die("unset register in " + f.fi->name);
		return r;
	}
	void set_(Frame& f, const Value* v, const Val& x)
	{
		if (f.regs.use_count() > 1) f.regs = make_shared<vector<Val>>(*f.regs);
		(*f.regs)[f.fi->num[v]] = x;
	}

	// -------------------------------------------------------------------- pointers
	// Turns v into a list of concrete pointers
	bool resolve(State& s, Val& v)
	{
		v = simpV(v);
		if (v.k == CONST) return true;
		if (v.k == LIST) {
			// Values which are only known as bits so far (a pointer copied in pieces).
			bool raw = false;
			i64 off;
			for (const Ent& e : v.n->ents) if (e.off && addrObj(e.c, off) < 0) raw = true;
			if (!raw) return true;
			if (Opt.verbose) { string fn; unsigned l; where(fn, l); fprintf(stderr, "RESOLVE raw %s:%u of %zu\n", fn.c_str(), l, v.n->ents.size()); }
			vector<Ent> es;
			for (const Ent& e : v.n->ents) {
				if (!(e.off && addrObj(e.c, off) < 0)) { es.push_back(e); continue; }
				Bits b = bAdd(constBits(v.w, e.c), *e.off);
				vector<Lit> as{s.guard(), e.g};
				for (int n = 0; ; ++n) {
					if (n > 256) die("too many values of a symbolic pointer");
					if (querySat(as, -1) == 0) break;
					u64 c = 0;
					for (u32 i = 0; i < v.w; ++i) if (sat.value(b[i])) c |= 1ull << i;
					Lit q = bEq(b, constBits(v.w, c));
					es.push_back({A.And(e.g, q), c, nullptr});
					if (q == T1) break;
					as.push_back(q ^ 1);
					if (addrObj(c, off) < 0 && n > 4) {
						Lit rest = e.g;
						for (const Ent& x : es) if (addrObj(x.c, off) >= 0) rest = A.And(rest, x.g ^ 1);
						if (!violate(s, rest, "use of a garbage pointer")) return false;
						break;
					}
				}
			}
			v = mkList(v.w, std::move(es));
			return true;
		}
		if (v.k != BITS) die("pointer of a strange kind");
		if (Opt.verbose) { string fn; unsigned l; where(fn, l); fprintf(stderr, "RESOLVE bits %s:%u\n", fn.c_str(), l); }
		// Enumerate with the solver.
		vector<Ent> es;
		vector<Lit> as{s.guard()};
		for (int n = 0; ; ++n) {
			if (n > 256) die("too many values of a symbolic pointer");
			int r = querySat(as, -1);
			if (r == 0) break;
			u64 c = 0;
			for (u32 i = 0; i < v.w; ++i) if (sat.value(v.n->bits[i])) c |= 1ull << i;
			Lit e = bEq(v.n->bits, constBits(v.w, c));
			es.push_back({e, c, nullptr});
			if (e == T1) break;
			as.push_back(e ^ 1);
			i64 off;
			if (addrObj(c, off) < 0 && n > 4) { // garbage pointer: any value
				Lit rest = T1;
				for (const Ent& x : es) if (addrObj(x.c, off) >= 0) rest = A.And(rest, x.g ^ 1);
				if (!violate(s, rest, "use of a garbage pointer")) return false;
				break;
			}
		}
		if (es.empty()) return false;
		v = mkList(v.w, std::move(es));
		return true;
	}
	struct Tgt { Lit g; u32 obj; i64 off; const Bits* sym; };
	// Splits a pointer into targets valid for an access of n bytes. Records violations.
	bool targets(State& s, Val p, u64 n, bool write, vector<Tgt>& out, const char* what)
	{
		if (!resolve(s, p)) return false;
		vector<Ent> es; entsOf(p, es);
		Lit bad = F0; string msg;
		for (Ent& e : es) {
			if (e.g == F0) continue;
			i64 off;
			i64 id = addrObj(e.c, off);
			Obj* o = id < 0 ? nullptr : s.mem.get(id);
			if (!o) {
				bad = A.Or(bad, e.g);
				msg = e.c < 4096 && !e.off ? "null pointer access" : "invalid pointer access";
				continue;
			}
			if (o->alive != T1) {
				Lit d = A.And(e.g, simp(o->alive) ^ 1);
				if (d != F0) {
					bad = A.Or(bad, d);
					msg = string("access to a dead object ") + objName[id];
					if (simp(o->alive) == F0) continue;
				}
			}
			if (write && o->ro) { bad = A.Or(bad, e.g); msg = "write to constant memory"; continue; }
			if (!e.off) {
				if (off < 0 || (u64)off + n > o->size) {
					bad = A.Or(bad, e.g); msg = "access out of bounds of " + objName[id]; continue;
				}
				if (o->symSize.k != UNSET) {
					Lit ok = ule(mkC(64, off + n), o->symSize);
					Lit d = A.And(e.g, ok ^ 1);
					if (d != F0) { bad = A.Or(bad, d); msg = "access out of bounds of " + objName[id]; }
				}
				out.push_back({e.g, (u32)id, off, nullptr});
			} else {
				// symbolic offset
				Bits t = bAdd(constBits(64, (u64)off), *e.off);
				if (n > o->size) { bad = A.Or(bad, e.g); msg = "access out of bounds of " + objName[id]; continue; }
				Lit ok;
				if (o->symSize.k != UNSET) {
					Lit big = bUlt(constBits(64, o->size - n), t);
					Bits end = bAdd(t, constBits(64, n));
					ok = A.And(big ^ 1, bUlt(bitsOf(o->symSize), end) ^ 1);
				} else
					ok = bUlt(constBits(64, o->size - n), t) ^ 1;
				Lit d = A.And(e.g, ok ^ 1);
				if (d != F0) { bad = A.Or(bad, d); msg = "access out of bounds of " + objName[id]; }
				Bits* nb = new Bits(t);
				out.push_back({e.g, (u32)id, 0, nb});
			}
		}
		if (bad != F0) {
			Lit sb = simp(bad);
			// Cheap feasibility check: most of such conditions are infeasible.
			if (sb != F0 && sb != T1 && Opt.prune) {
				if (querySat({s.guard(), sb}, Opt.pruneConf) == 0) {
					addFact(s, sb ^ 1); activate(s.facts);
					sb = F0;
				}
			}
			dbgVal = p;
			bool alive = violate(s, sb, msg + (what[0] ? string(" (") + what + ")" : ""));
			dbgVal = Val();
			if (!alive) return false;
		}
		vector<Tgt> r;
		for (Tgt& t : out) { t.g = simp(t.g); if (t.g == F0) continue; r.push_back(t); if (t.g == T1) { Tgt q = t; r.clear(); r.push_back(q); break; } }
		out.swap(r);
		return !out.empty();
	}
	Lit ule(const Val& x, const Val& y)
	{
		if (x.k == CONST && y.k == CONST) return x.c <= y.c ? T1 : F0;
		return litOf(icmp(CmpInst::ICMP_ULE, x, y));
	}
	// positions a symbolic offset may take
	void positions(const Bits& off, u32 size, u32 n, vector<pair<u32, Lit>>& out)
	{
		u32 nb = 0;
		while ((1ull << nb) < size) ++nb;
		u32 tz = 0;
		while (tz < off.size() && off[tz] == F0) ++tz;
		u32 step = tz >= 20 ? 1u << 20 : 1u << tz;
		// constant low bits
		u32 low = 0, lowBits = 0;
		while (lowBits < nb && off[lowBits] <= 1) { if (off[lowBits] == T1) low |= 1u << lowBits; ++lowBits; }
		step = 1u << lowBits;
		for (u32 p = low; p + n <= size; p += step) {
			Lit e = T1;
			for (u32 i = 0; i < nb && e != F0; ++i) e = A.And(e, off[i] ^ (p >> i & 1 ? 0 : 1));
			e = simp(e);
			if (e != F0) out.push_back({p, e});
			if (step == 0) break;
		}
	}
	// the value and the condition when it is initialized
	Val readDef(State& s, u32 id, u32 off, u32 n, Lit& def)
	{
		Obj* o = s.mem.get(id);
		def = T1;
		const vector<Cell>& cs = o->cells;
		size_t lo = lower(cs, off);
		if (lo < cs.size() && cs[lo].off == off && cs[lo].size == n) {
			if (cs[lo].def != T1) def = simp(cs[lo].def);
			return cs[lo].v;
		}
		bool missing;
		Val v = readCells(cs, o->zero, off, n, missing);
		if (missing) {
			if (!o->zero) def = F0;
			return n <= 8 ? mkC(n * 8, 0) : mkBits(Bits(n * 8, F0));
		}
		return v;
	}
	Val readObj(State& s, u32 id, u32 off, u32 n)
	{
		Lit def;
		Val v = readDef(s, id, off, n, def);
		if (def == T1) return v;
		if (def != F0 && querySat({s.guard(), def ^ 1}, 200) == 0) def = T1;
		if (def == F0) v = freshBits(n * 8);
		else if (def != T1) v = vIte(def, v, freshBits(n * 8));
		if (def != T1) ++undefReads;
		writeCells(s.mem.mut(id)->cells, off, n, v);
		return v;
	}
	u64 undefReads = 0;
	bool loadBytes(State& s, const Val& p, u32 n, Val& out, const char* what = "")
	{
		vector<Tgt> ts;
		if (!targets(s, p, n, false, ts, what)) return false;
		if (ts.size() == 1 && !ts[0].sym) { out = simpV(readObj(s, ts[0].obj, ts[0].off, n)); return true; }
		Val r; bool first = true;
		Lit undef = F0;
		for (Tgt& t : ts) {
			Val v;
			Lit d = T1;
			if (!t.sym) {
				v = readDef(s, t.obj, t.off, n, d);
				d ^= 1;
			} else {
				vector<pair<u32, Lit>> ps;
				positions(*t.sym, s.mem.get(t.obj)->size, n, ps);
				bool f2 = true;
				d = F0;
				for (auto& q : ps) {
					Lit e;
					Val x = readDef(s, t.obj, q.first, n, e);
					if (e != T1) d = A.Or(d, A.And(q.second, e ^ 1));
					if (e == F0) continue;
					v = f2 ? x : vIte(q.second, x, v);
					f2 = false;
				}
				if (f2) v = n <= 8 ? mkC(n * 8, 0) : mkBits(Bits(n * 8, F0));
			}
			if (d != F0) undef = A.Or(undef, A.And(t.g, d));
			if (d == T1) { if (first) { r = v; first = false; } continue; }
			r = first ? v : vIte(t.g, v, r);
			first = false;
		}
		if (undef != F0) {
			undef = simp(undef);
			if (undef != F0 && querySat({s.guard(), undef}, 200) != 0) { r = vIte(undef, freshBits(n * 8), r); ++undefReads; }
		}
		out = simpV(r);
		return true;
	}
	bool storeBytes(State& s, const Val& p, u32 n, const Val& v, Lit cond = T1, const char* what = "")
	{
		vector<Tgt> ts;
		if (!targets(s, p, n, true, ts, what)) return false;
		for (Tgt& t : ts) {
			Lit g = A.And(ts.size() == 1 ? T1 : t.g, cond);
			if (!t.sym) writeObj(s, t.obj, t.off, n, v, g);
			else {
				vector<pair<u32, Lit>> ps;
				positions(*t.sym, s.mem.get(t.obj)->size, n, ps);
				for (auto& q : ps) writeObj(s, t.obj, q.first, n, v, A.And(g, q.second));
			}
		}
		return true;
	}
	void writeObj(State& s, u32 id, u32 off, u32 n, const Val& v, Lit g)
	{
		if (g == F0) return;
		if (g == T1) { writeCells(s.mem.mut(id)->cells, off, n, v); return; }
		Lit def;
		Val old = readDef(s, id, off, n, def);
		if (def == F0) writeCells(s.mem.mut(id)->cells, off, n, v, g);
		else writeCells(s.mem.mut(id)->cells, off, n, vIte(g, v, old), def == T1 ? T1 : A.Or(def, g));
	}
	bool loadType(State& s, const Val& p, Type* t, Val& out)
	{
		if (auto* st = dyn_cast<StructType>(t)) {
			auto* sl = DL.getStructLayout(st);
			vector<Val> r;
			for (unsigned i = 0; i < st->getNumElements(); ++i) {
				Val v;
				if (!loadType(s, addC(p, sl->getElementOffset(i)), st->getElementType(i), v)) return false;
				r.push_back(v);
			}
			out = mkAgg(std::move(r));
			return true;
		}
		if (auto* at = dyn_cast<ArrayType>(t)) {
			vector<Val> r;
			u32 es = DL.getTypeAllocSize(at->getElementType());
			for (unsigned i = 0; i < at->getNumElements(); ++i) {
				Val v;
				if (!loadType(s, addC(p, i * es), at->getElementType(), v)) return false;
				r.push_back(v);
			}
			out = mkAgg(std::move(r));
			return true;
		}
		if (t->isVectorTy()) die("vector load");
		u32 n = DL.getTypeStoreSize(t), w = DL.getTypeSizeInBits(t);
		Val v;
		if (!loadBytes(s, p, n, v)) return false;
		out = resize(v, w);
		return true;
	}
	static Val resize(const Val& v, u32 w)
	{
		if (v.w == w) return v;
		if (v.k == CONST && w <= 64) return mkC(w, v.c);
		if (v.k == LIST && w <= 64) {
			bool offs = false;
			for (const Ent& e : v.n->ents) offs |= e.off != nullptr;
			if (!offs) {
				vector<Ent> es = v.n->ents;
				for (Ent& e : es) e.c &= maskw(w);
				return mkList(w, std::move(es));
			}
		}
		Bits b = bitsOf(v);
		b.resize(w, F0);
		return mkBits(std::move(b));
	}
	bool storeType(State& s, const Val& p, Type* t, const Val& v)
	{
		if (auto* st = dyn_cast<StructType>(t)) {
			auto* sl = DL.getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i)
				if (!storeType(s, addC(p, sl->getElementOffset(i)), st->getElementType(i), v.n->agg[i])) return false;
			return true;
		}
		if (auto* at = dyn_cast<ArrayType>(t)) {
			u32 es = DL.getTypeAllocSize(at->getElementType());
			for (unsigned i = 0; i < at->getNumElements(); ++i)
				if (!storeType(s, addC(p, i * es), at->getElementType(), v.n->agg[i])) return false;
			return true;
		}
		if (t->isVectorTy()) die("vector store");
		u32 n = DL.getTypeStoreSize(t);
		return storeBytes(s, p, n, widen(v, n));
	}

	// -------------------------------------------------------------------- arithmetic
	Val addC(const Val& p, u64 c)
	{
		if (c == 0) return p;
		if (p.k == CONST) return mkC(p.w, p.c + c);
		if (p.k == LIST) {
			vector<Ent> es = p.n->ents;
			for (Ent& e : es) e.c = (e.c + c) & maskw(p.w);
			return mkList(p.w, std::move(es));
		}
		return mkBits(bAdd(bitsOf(p), constBits(p.w, c)));
	}
	static bool isPtrList(const Val& v)
	{
		if (v.k == CONST) return v.w == 64 && v.c >= PTR_MIN && v.c < (1ull << 56);
		if (v.k != LIST || v.w != 64) return false;
		for (const Ent& e : v.n->ents) if (e.c >= PTR_MIN && e.c < (1ull << 56)) return true;
		return false;
	}
	static bool hasOff(const Val& v)
	{
		if (v.k != LIST) return false;
		for (const Ent& e : v.n->ents) if (e.off) return true;
		return false;
	}
	Val addV(const Val& x, const Val& y)
	{
		if (y.k == CONST) return addC(x, y.c);
		if (x.k == CONST && !isPtrList(x)) return addC(y, x.c);
		const Val* p = &x; const Val* q = &y;
		if (!isPtrList(*p) && isPtrList(*q)) std::swap(p, q);
		bool many = p->k == LIST && q->k == LIST && p->n->ents.size() * q->n->ents.size() > 64 && !isPtrList(*q);
		if (isPtrList(*p) && (q->k == BITS || many || hasOff(*p) || hasOff(*q))) {
			Bits qb = bitsOf(*q);
			vector<Ent> es, r;
			entsOf(*p, es);
			for (Ent& e : es) {
				Bits* nb = new Bits(e.off ? bAdd(*e.off, qb) : qb);
				r.push_back({e.g, e.c, nb});
			}
			return mkList(64, std::move(r));
		}
		return lift(x, y, Instruction::Add);
	}
	static bool foldC(unsigned op, u32 w, u64 a, u64 b, u64& r)
	{
		auto S = [&](u64 v) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); };
		switch (op) {
		case Instruction::Add: r = a + b; break;
		case Instruction::Sub: r = a - b; break;
		case Instruction::Mul: r = a * b; break;
		case Instruction::UDiv: if (b == 0) return false; r = a / b; break;
		case Instruction::URem: if (b == 0) return false; r = a % b; break;
		case Instruction::SDiv: if (S(b) == 0 || (S(b) == -1)) { if (S(b) == 0) return false; r = -S(a); break; } r = S(a) / S(b); break;
		case Instruction::SRem: if (S(b) == 0) return false; if (S(b) == -1) { r = 0; break; } r = S(a) % S(b); break;
		case Instruction::Shl: r = b >= w ? 0 : a << b; break;
		case Instruction::LShr: r = b >= w ? 0 : a >> b; break;
		case Instruction::AShr: r = S(a) >> (b >= w ? w - 1 : b); break;
		case Instruction::And: r = a & b; break;
		case Instruction::Or: r = a | b; break;
		case Instruction::Xor: r = a ^ b; break;
		default: return false;
		}
		r &= maskw(w);
		return true;
	}
	Val lift(const Val& x, const Val& y, unsigned op)
	{
		u32 w = x.w;
		if (listy(x) && listy(y) && w <= 64 && !hasOff(x) && !hasOff(y)) {
			vector<Ent> a, b, r; entsOf(x, a); entsOf(y, b);
			if (a.size() * b.size() <= 64 || (isPtrList(x) && b.size() <= 8)) {
				bool ok = true;
				for (Ent& e : a) {
					for (Ent& f : b) {
						u64 c;
						if (!foldC(op, w, e.c, f.c, c)) { ok = false; break; }
						r.push_back({A.And(e.g, f.g), c, nullptr});
					}
					if (!ok) break;
				}
				if (ok) return mkList(w, std::move(r));
			}
		}
		if (w == 1) {
			Lit p = litOf(x), q = litOf(y);
			switch (op) {
			case Instruction::And: case Instruction::Mul: return mkLit(A.And(p, q));
			case Instruction::Or: return mkLit(A.Or(p, q));
			case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkLit(A.Xor(p, q));
			default: break;
			}
		}
		Bits a = bitsOf(x), b = bitsOf(y);
		switch (op) {
		case Instruction::Add: return mkBits(bAdd(a, b));
		case Instruction::Sub: return mkBits(bSub(a, b));
		case Instruction::Mul: return mkBits(bMul(a, b));
		case Instruction::UDiv: case Instruction::URem: {
			Bits q, r;
			if (y.k == CONST && y.c && (y.c & (y.c - 1)) == 0) {
				u32 k = __builtin_ctzll(y.c);
				q.assign(w, F0); r.assign(w, F0);
				for (u32 i = 0; i < w; ++i) if (i + k < w) q[i] = a[i + k];
				for (u32 i = 0; i < k; ++i) r[i] = a[i];
			} else
				bDivRem(a, b, q, r);
			return mkBits(op == Instruction::UDiv ? std::move(q) : std::move(r));
		}
		case Instruction::SDiv: case Instruction::SRem: {
			Lit sa = a.back(), sb = b.back();
			Bits ua = bIte(sa, bNeg(a), a), ub = bIte(sb, bNeg(b), b), q, r;
			bDivRem(ua, ub, q, r);
			if (op == Instruction::SDiv) return mkBits(bIte(A.Xor(sa, sb), bNeg(q), q));
			return mkBits(bIte(sa, bNeg(r), r));
		}
		case Instruction::Shl: return mkBits(bShift(0, a, b));
		case Instruction::LShr: return mkBits(bShift(1, a, b));
		case Instruction::AShr: return mkBits(bShift(2, a, b));
		case Instruction::And: for (u32 i = 0; i < w; ++i) a[i] = A.And(a[i], b[i]); return mkBits(std::move(a));
		case Instruction::Or: for (u32 i = 0; i < w; ++i) a[i] = A.Or(a[i], b[i]); return mkBits(std::move(a));
		case Instruction::Xor: for (u32 i = 0; i < w; ++i) a[i] = A.Xor(a[i], b[i]); return mkBits(std::move(a));
		default: die("binary operation");
		}
	}
	Val subV(const Val& x, const Val& y)
	{
		if (y.k == CONST && !(isPtrList(x) && y.c >= PTR_MIN && hasOff(x))) {
			if (y.c < PTR_MIN || !isPtrList(x)) return addC(x, (~y.c + 1) & maskw(x.w));
		}
		if (x.w == 64 && isPtrList(x)) {
			if (isPtrList(y)) {
				vector<Ent> a, b; entsOf(x, a); entsOf(y, b);
				if (a.size() == 1 && b.size() == 1) {
					Bits r = constBits(64, a[0].c - b[0].c);
					if (a[0].off) r = bAdd(r, *a[0].off);
					if (b[0].off) r = bSub(r, *b[0].off);
					return mkBits(std::move(r));
				}
				if (hasOff(x) || hasOff(y)) {
					// pairwise
					if (a.size() * b.size() <= 64) {
						Bits r(64, F0);
						for (Ent& e : a) for (Ent& f : b) {
							Lit g = A.And(e.g, f.g);
							if (g == F0) continue;
							Bits t = constBits(64, e.c - f.c);
							if (e.off) t = bAdd(t, *e.off);
							if (f.off) t = bSub(t, *f.off);
							for (u32 i = 0; i < 64; ++i) r[i] = A.Or(r[i], A.And(g, t[i]));
						}
						return mkBits(std::move(r));
					}
				}
			} else if (y.k == BITS || hasOff(y)) {
				return addV(x, mkBits(bNeg(bitsOf(y))));
			}
		}
		return lift(x, y, Instruction::Sub);
	}
	Val icmp(CmpInst::Predicate p, const Val& x, const Val& y)
	{
		bool neg = false;
		const Val* a = &x; const Val* b = &y;
		switch (p) {
		case CmpInst::ICMP_NE: neg = true; p = CmpInst::ICMP_EQ; break;
		case CmpInst::ICMP_UGE: neg = true; p = CmpInst::ICMP_ULT; break;
		case CmpInst::ICMP_SGE: neg = true; p = CmpInst::ICMP_SLT; break;
		case CmpInst::ICMP_UGT: std::swap(a, b); p = CmpInst::ICMP_ULT; break;
		case CmpInst::ICMP_SGT: std::swap(a, b); p = CmpInst::ICMP_SLT; break;
		case CmpInst::ICMP_ULE: neg = true; std::swap(a, b); p = CmpInst::ICMP_ULT; break;
		case CmpInst::ICMP_SLE: neg = true; std::swap(a, b); p = CmpInst::ICMP_SLT; break;
		default: break;
		}
		Lit r;
		u32 w = a->w;
		auto S = [&](u64 v) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); };
		auto cmp = [&](u64 u, u64 v) {
			return p == CmpInst::ICMP_EQ ? u == v : p == CmpInst::ICMP_ULT ? u < v : S(u) < S(v);
		};
		if (listy(*a) && listy(*b) && (p == CmpInst::ICMP_EQ || (!hasOff(*a) && !hasOff(*b)))) {
			vector<Ent> ea, eb; entsOf(*a, ea); entsOf(*b, eb);
			Lit t = F0, f = F0;
			for (Ent& e : ea) for (Ent& g : eb) {
				Lit q = A.And(e.g, g.g);
				if (q == F0) continue;
				if (e.off || g.off) {
					Bits u = constBits(64, e.c), v = constBits(64, g.c);
					if (e.off) u = bAdd(u, *e.off);
					if (g.off) v = bAdd(v, *g.off);
					Lit eq = bEq(u, v);
					t = A.Or(t, A.And(q, eq)); f = A.Or(f, A.And(q, eq ^ 1));
				} else if (cmp(e.c, g.c)) t = A.Or(t, q);
				else f = A.Or(f, q);
			}
			// both t and !f are right: take the smaller one
			r = f == F0 ? T1 : t;
		} else if (listy(*a) && listy(*b) && isPtrList(*a) && isPtrList(*b) && p == CmpInst::ICMP_ULT) {
			// pointers with symbolic offsets: compare pairwise
			vector<Ent> ea, eb; entsOf(*a, ea); entsOf(*b, eb);
			r = F0;
			for (Ent& e : ea) for (Ent& g : eb) {
				Lit q = A.And(e.g, g.g);
				if (q == F0) continue;
				Bits u = constBits(64, e.c), v = constBits(64, g.c);
				if (e.off) u = bAdd(u, *e.off);
				if (g.off) v = bAdd(v, *g.off);
				r = A.Or(r, A.And(q, bUlt(u, v)));
			}
		} else {
			Bits u = bitsOf(*a), v = bitsOf(*b);
			r = p == CmpInst::ICMP_EQ ? bEq(u, v) : p == CmpInst::ICMP_ULT ? bUlt(u, v) : bSlt(u, v);
		}
		return mkLit(r ^ (neg ? 1 : 0));
	}
	Val unaryMap(const Val& v, u32 w, const std::function<u64(u64)>& f, const std::function<Bits(const Bits&)>& g)
	{
		if (v.k == CONST && w <= 64) return mkC(w, f(v.c));
		if (v.k == LIST && w <= 64 && !hasOff(v)) {
			vector<Ent> es = v.n->ents;
			for (Ent& e : es) e.c = f(e.c) & maskw(w);
			return mkList(w, std::move(es));
		}
		return mkBits(g(bitsOf(v)));
	}
	Val castV(const CastInst& I, const Val& v)
	{
		u32 w = DL.getTypeSizeInBits(I.getType()), ow = v.w;
		switch (I.getOpcode()) {
		case Instruction::ZExt:
		case Instruction::Trunc:
			return resize(v, w);
		case Instruction::SExt:
			return unaryMap(v, w, [&](u64 c) { return (u64)(ow >= 64 ? (i64)c : ((i64)(c << (64 - ow)) >> (64 - ow))); },
				[&](const Bits& b) { Bits r = b; r.resize(w, b.back()); return r; });
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
			return resize(v, w);
		default: break;
		}
		// floats: constants only
		if (v.k == CONST) {
			double d = 0; u64 r = 0;
			auto S = [&](u64 c) { return ow >= 64 ? (i64)c : ((i64)(c << (64 - ow)) >> (64 - ow)); };
			auto toD = [&](u64 c) { if (ow == 32) { float f; u32 x = c; memcpy(&f, &x, 4); return (double)f; } double q; memcpy(&q, &c, 8); return q; };
			auto fromD = [&](double x) -> u64 { if (w == 32) { float f = x; u32 y; memcpy(&y, &f, 4); return y; } u64 y; memcpy(&y, &x, 8); return y; };
			switch (I.getOpcode()) {
			case Instruction::UIToFP: d = (double)v.c; return mkC(w, fromD(d));
			case Instruction::SIToFP: d = (double)S(v.c); return mkC(w, fromD(d));
			case Instruction::FPToUI: r = (u64)toD(v.c); return mkC(w, r);
			case Instruction::FPToSI: r = (u64)(i64)toD(v.c); return mkC(w, r);
			case Instruction::FPExt: case Instruction::FPTrunc: return mkC(w, fromD(toD(v.c)));
			default: break;
			}
		}
		die(string("cast ") + I.getOpcodeName());
	}

#include "exec.inc"
};

static void instrument(Module& M)
{
	// For native replay: calls before and after each visible operation, heap functions of the
	// replay runtime, sanitizers.
	LLVMContext& C = M.getContext();
	Type* V = Type::getVoidTy(C); Type* I32 = Type::getInt32Ty(C); Type* P = PointerType::get(C, 0);
	FunctionCallee vis = M.getOrInsertFunction("vx_visible_", FunctionType::get(V, false));
	FunctionCallee hb = M.getOrInsertFunction("vx_hb_op_", FunctionType::get(V, {P, I32, I32, I32, I32, I32}, false));
	FunctionCallee hf = M.getOrInsertFunction("vx_hb_fence_", FunctionType::get(V, {I32, I32}, false));
	vector<Instruction*> ops;
	for (Function& fn : M) {
		if (!fn.isDeclaration()) {
			fn.addFnAttr(Attribute::SanitizeAddress);
			if (fn.getName() != "vx_main") fn.setLinkage(GlobalValue::InternalLinkage);
		}
		for (BasicBlock& b : fn)
			for (Instruction& i : b) {
				bool v = isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i) || isa<FenceInst>(i);
				if (auto* l = dyn_cast<LoadInst>(&i)) v = l->isAtomic();
				if (auto* s = dyn_cast<StoreInst>(&i)) v = s->isAtomic();
				if (v) ops.push_back(&i);
			}
	}
	for (Instruction* i : ops) {
		IRBuilder<> B(i);
		auto n = [&](int x) { return ConstantInt::get(I32, x); };
		auto aq = [&](AtomicOrdering o) { return n(isAcquireOrStronger(o)); };
		auto rl = [&](AtomicOrdering o) { return n(isReleaseOrStronger(o)); };
		if (auto* f = dyn_cast<FenceInst>(i)) { B.CreateCall(hf, {aq(f->getOrdering()), rl(f->getOrdering())}); continue; }
		B.CreateCall(vis);
		B.SetInsertPoint(i->getNextNode());
		if (auto* l = dyn_cast<LoadInst>(i)) B.CreateCall(hb, {l->getPointerOperand(), n(1), n(0), n(0), aq(l->getOrdering()), n(0)});
		if (auto* l = dyn_cast<StoreInst>(i)) B.CreateCall(hb, {l->getPointerOperand(), n(0), n(1), n(0), n(0), rl(l->getOrdering())});
		if (auto* l = dyn_cast<AtomicRMWInst>(i)) B.CreateCall(hb, {l->getPointerOperand(), n(1), n(1), n(1), aq(l->getOrdering()), rl(l->getOrdering())});
		if (auto* l = dyn_cast<AtomicCmpXchgInst>(i)) {
			Value* ok = B.CreateExtractValue(l, 1);
			Value* k = B.CreateZExt(ok, I32);
			B.CreateCall(hb, {l->getPointerOperand(), n(1), k, k, B.CreateSelect(ok, aq(l->getSuccessOrdering()), aq(l->getFailureOrdering())), rl(l->getSuccessOrdering())});
		}
	}
	auto ren = [&](const char* from, const char* to, bool full = true) {
		for (Function& f : M) {
			if (!f.isDeclaration() || f.use_empty()) continue;
			if (full ? f.getName() != from : !f.getName().starts_with(from)) continue;
			FunctionType* t = f.getFunctionType();
			FunctionCallee r = M.getOrInsertFunction(to, string(to) == "vx_rt_free" ? FunctionType::get(V, {P}, false) : t);
			if (string(to) != "vx_rt_free") {
				f.replaceAllUsesWith(r.getCallee());
				continue;
			}
			vector<CallInst*> cs;
			for (User* u : f.users()) if (auto* c = dyn_cast<CallInst>(u)) cs.push_back(c);
			for (CallInst* c : cs) {
				IRBuilder<> B(c);
				B.CreateCall(r, {c->getArgOperand(0)});
				c->eraseFromParent();
			}
		}
	};
	ren("malloc", "vx_rt_malloc"); ren("calloc", "vx_rt_calloc"); ren("realloc", "vx_rt_realloc");
	ren("aligned_alloc", "vx_rt_aligned_alloc"); ren("free", "vx_rt_free");
	ren("_ZdlPv", "vx_rt_free", false); ren("_ZdaPv", "vx_rt_free", false);
	ren("_Znwm", "vx_rt_malloc"); ren("_Znam", "vx_rt_malloc");
	Function* al = nullptr;
	for (const char* nm : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"})
		if (Function* f = M.getFunction(nm)) {
			FunctionCallee r = M.getOrInsertFunction("vx_rt_aligned_alloc", FunctionType::get(P, {Type::getInt64Ty(C), Type::getInt64Ty(C)}, false));
			vector<CallInst*> cs;
			for (User* u : f->users()) if (auto* c = dyn_cast<CallInst>(u)) cs.push_back(c);
			for (CallInst* c : cs) {
				IRBuilder<> B(c);
				Value* x = B.CreateCall(r, {c->getArgOperand(1), c->getArgOperand(0)});
				c->replaceAllUsesWith(x);
				c->eraseFromParent();
			}
		}
	(void)al;
	if (Function* f = M.getFunction("_ZnwmRKSt9nothrow_t")) {
		FunctionCallee r = M.getOrInsertFunction("vx_rt_malloc", FunctionType::get(P, {Type::getInt64Ty(C)}, false));
		vector<CallInst*> cs;
		for (User* u : f->users()) if (auto* c = dyn_cast<CallInst>(u)) cs.push_back(c);
		for (CallInst* c : cs) {
			IRBuilder<> B(c);
			Value* x = B.CreateCall(r, {c->getArgOperand(0)});
			c->replaceAllUsesWith(x);
			c->eraseFromParent();
		}
	}
}

int main(int argc, char** argv)
{
	if (argc < 3) die("usage");
	string in = argv[1], out = argv[2];
	LLVMContext C; SMDiagnostic E;
	bool instr = false;
	for (int i = 3; i < argc; ++i) {
		string a = argv[i];
		auto next = [&]() { return string(argv[++i]); };
		if (a == "--unwind") Opt.unwind = atoi(next().c_str());
		else if (a == "--uw") { string x = next(); size_t p = x.rfind('='); Opt.uw[x.substr(0, p)] = atoi(x.c_str() + p + 1); }
		else if (a == "--spin") Opt.spin.push_back(next());
		else if (a == "--atomic") Opt.atomicFns.push_back(next());
		else if (a == "--timeout") Opt.timeout = atof(next().c_str());
		else if (a == "--no-prune") Opt.prune = false;
		else if (a == "--free-last") Opt.freeLast = true;
		else if (a == "--prune-conf") Opt.pruneConf = atoi(next().c_str());
		else if (a == "--cnf") Opt.cnf = next();
		else if (a == "--solver") Opt.solver = next();
		else if (a == "--max-conc") Opt.concLimit = atoi(next().c_str());
		else if (a == "-v") Opt.verbose = true;
		else if (a == "--instrument") instr = true;
		else die("option " + a);
	}
	auto M = parseIRFile(in, E, C);
	if (!M) { E.print("vxsym", errs()); return 3; }
	if (instr) {
		instrument(*M);
		std::error_code ec;
		raw_fd_ostream os(out, ec);
		WriteBitcodeToFile(*M, os);
		return 0;
	}
	Eng e(*M);
	return e.run(out);
}
