	// Execution: the worklist, instructions, calls, builtins, threads, the final queries.
	enum Ctl { NEXT, DONE, MOVED };
	map<Key, StateP> parkedMap;
	StateP finishedState, endState;
	string fatal;
	u64 maxWork = 0;
	struct Turn { int round, tid; vector<pair<Lit, Val>> parts; };
	vector<Turn> turns;
	bool hbOn = false;

	void fact(State& s, Lit l)
	{
		if (l == T1) return;
		bool inc = active == s.facts;
		addFact(s, l);
		if (inc) { put(l); active = s.facts; }
		else activate(s.facts);
	}
	// -------------------------------------------------------------------- worklist
	void loop()
	{
		while (!work.empty()) {
			auto it = work.begin();
			maxWork = std::max(maxWork, (u64)work.size());
			StateP s = it->second;
			work.erase(it);
			activate(s->facts);
			exec(s);
			if (now() - t0 > Opt.timeout) { fatal = "symbolic execution timeout"; dieF(); }
		}
	}
	[[noreturn]] void dieF() { die(fatal); }
	// The state was moved to a new position: goes on at once if it is the first in the order.
	bool goOn(StateP& s)
	{
		if (s->guard() == F0) return false;
		if (work.empty()) { return true; }
		Key k; keyOf(*s, k);
		if (k < work.begin()->first) return true;
		push(s);
		return false;
	}
	void see(FInfo* fi, FInfo::BI* b)
	{
		if (b->seen) return;
		b->seen = true;
		executed.insert(fi->name);
		for (const Instruction* i : b->insts)
			for (const DILocation* d = i->getDebugLoc().get(); d; d = d->getInlinedAt())
				if (auto* sp = d->getScope()->getSubprogram()) {
					if (!seenSp.insert(sp).second) continue;
					executed.insert(demangle((sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str()));
				}
	}
	set<const DISubprogram*> seenSp;
	// Moves the top frame along an edge.
	bool edge(State& s, const BasicBlock* to)
	{
		Frame& f = s.fr.back();
		const BasicBlock* from = f.bb;
		auto* a = f.fi->bi[from]; auto* b = f.fi->bi[to];
		// phis
		if (b->firstNonPhi > 0) {
			vector<pair<const Value*, Val>> nv;
			for (u32 i = 0; i < b->firstNonPhi; ++i) {
				auto* p = cast<PHINode>(b->insts[i]);
				nv.push_back({p, simpV(get(s, f, p->getIncomingValueForBlock(from)))});
			}
			for (auto& x : nv) set_(f, x.first, x.second);
		}
		vector<u32> it(b->loops.size(), 0), sy(b->loops.size(), 0);
		vector<u32> lg(b->loops.size(), 0);
		size_t k = 0;
		while (k < a->loops.size() && k < b->loops.size() && a->loops[k] == b->loops[k]) {
			it[k] = f.iter[k]; sy[k] = f.sym[k]; lg[k] = f.lg[k];
			++k;
		}
		bool back = k > 0 && k == b->loops.size() && f.fi->loopHeader[b->loops[k - 1]] == to;
		see(f.fi, b);
		f.bb = to; f.inst = b->firstNonPhi;
		if (back) {
			++it[k - 1];
			if (lg[k - 1]) {
				lg[k - 1] = 0;
				u32 n = ++sy[k - 1];
				if (n >= 2 && Opt.prune) {
					if (querySat({s.guard()}, n >= f.fi->bound ? 3000 : Opt.pruneConf) == 0) { ++pruned; return false; }
				}
				if (n > f.fi->bound) {
					f.iter = it; f.sym = sy; f.lg = lg;
					if (f.fi->spin) killed.push_back(s.guard());
					else violate(s, T1, "unwind: loop bound exceeded in " + f.fi->name);
					return false;
				}
			} else if (it[k - 1] > Opt.concLimit) {
				if (f.fi->spin) killed.push_back(s.guard());
				else violate(s, T1, "unwind: endless loop in " + f.fi->name);
				return false;
			}
		}
		f.iter.swap(it); f.sym.swap(sy); f.lg.swap(lg);
		return true;
	}
	// An undecided branch: notes the loops which it may leave.
	void markExits(Frame& f, const BasicBlock* to)
	{
		auto* a = f.fi->bi[f.bb]; auto* b = f.fi->bi[to];
		for (size_t k = 0; k < a->loops.size(); ++k)
			if (k >= b->loops.size() || a->loops[k] != b->loops[k]) f.lg[k] = 1;
	}
	void enter(State& s, const Function* F, const vector<Val>& args, const CallBase* call)
	{
		FInfo* fi = info(F);
		if (s.fr.size() > Opt.maxDepth) die("stack too deep");
		Frame f;
		f.fi = fi;
		f.bb = &F->getEntryBlock();
		see(fi, fi->bi[f.bb]);
		f.inst = 0;
		f.call = call;
		f.regs = make_shared<vector<Val>>(fi->nregs);
		u32 k = 0;
		for (const Argument& a : F->args()) {
			Val v = args[k];
			if (a.hasByValAttr()) {
				u32 n = DL.getTypeAllocSize(a.getParamByValType());
				u32 id = stackObj(s, s.fr.size(), &a, 0, n);
				f.allocas.push_back(id);
				copyBytes(s, ptrTo(id), v, n);
				v = ptrTo(id);
			}
			(*f.regs)[k++] = v;
		}
		// Arguments of "..." are in slots of 8 bytes, as those which didn't fit into registers on x86-64.
		if (F->isVarArg() && call) {
			u32 n = 0;
			for (u32 i = k; i < args.size(); ++i) n += (call->getArgOperand(i)->getType()->isIntegerTy() || call->getArgOperand(i)->getType()->isPointerTy());
			if (n == args.size() - k) {
				u32 id = stackObj(s, s.fr.size(), F, 0, n * 8 + 8);
				f.allocas.push_back(id);
				f.va = id;
				for (u32 i = k; i < args.size(); ++i) storeType(s, addC(ptrTo(id), (i - k) * 8), call->getArgOperand(i)->getType(), args[i]);
			}
		}
		s.fr.push_back(std::move(f));
	}
	u32 stackObj(State& s, u32 depth, const void* what, u32 it, u32 size)
	{
		auto key = std::make_tuple(s.tid, depth, what, it);
		auto f = stackIds.find(key);
		u32 id;
		if (f == stackIds.end()) {
			string fn; unsigned line; where(fn, line);
			id = newId("stack of " + fn);
			stackIds[key] = id;
		} else id = f->second;
		auto o = make_shared<Obj>();
		o->id = id; o->size = size; o->kind = 1;
		s.mem.slot(id) = o;
		return id;
	}
	// -------------------------------------------------------------------- bulk memory
	// Targets of an access of a symbolic size. Returns false when nothing remains.
	bool rangeTargets(State& s, Val p, const Val& n, bool write, vector<Tgt>& out)
	{
		if (n.k == CONST) {
			if (n.c == 0) return true;
			return targets(s, p, n.c, write, out, "");
		}
		if (!resolve(s, p)) return false;
		vector<Ent> es; entsOf(p, es);
		Bits nb = bitsOf(n);
		Lit nz = bEq(nb, constBits(nb.size(), 0)) ^ 1;
		Lit bad = F0; string msg;
		for (Ent& e : es) {
			Lit g = simp(e.g);
			if (g == F0) continue;
			i64 off; i64 id = addrObj(e.c, off);
			Obj* o = id < 0 ? nullptr : s.mem.get(id);
			if (!o) { bad = A.Or(bad, A.And(g, nz)); msg = "invalid pointer for a memory block"; continue; }
			Bits t = constBits(64, (u64)off);
			if (e.off) t = bAdd(t, *e.off);
			Lit ok = T1;
			Bits end = bAdd(t, nb);
			Bits sz = o->symSize.k != UNSET ? bitsOf(o->symSize) : constBits(64, o->size);
			ok = A.And(bUlt(sz, t) ^ 1, bUlt(bSub(sz, t), nb) ^ 1);
			ok = A.And(ok, simp(o->alive));
			if (write && o->ro) ok = F0;
			Lit d = A.And(A.And(g, nz), ok ^ 1);
			if (d != F0) { bad = A.Or(bad, d); msg = "memory block access out of bounds of " + objName[id]; }
			if (ok == F0) continue;
			out.push_back({g, (u32)id, e.off ? 0 : off, e.off ? new Bits(t) : nullptr});
		}
		bad = simp(bad);
		if (bad != F0) {
			if (bad != T1 && Opt.prune && querySat({s.guard(), bad}, Opt.pruneConf) == 0) { fact(s, bad ^ 1); bad = F0; }
			if (!violate(s, bad, msg)) return false;
		}
		return true;
	}
	u64 maxVal(State& s, const Val& v)
	{
		if (v.k == CONST) return v.c;
		if (v.k == LIST) { u64 m = 0; for (auto& e : v.n->ents) m = std::max(m, e.c); return m; }
		Bits b = bitsOf(v);
		u64 r = 0;
		vector<Lit> as{s.guard()};
		for (u32 i = b.size(); i-- > 0;) {
			if (b[i] == F0) continue;
			as.push_back(b[i]);
			int q = querySat(as, 5000);
			if (q == 0) as.back() ^= 1;
			else r |= 1ull << i;
			if (q < 0) { for (u32 k = 0; k < i; ++k) r |= 1ull << k; return r; }
		}
		return r;
	}
	void eraseCells(vector<Cell>& cs, u32 off, u32 n)
	{
		bool touched = false;
		size_t lo = lower(cs, off);
		if (lo < cs.size() && cs[lo].off < off + n) touched = true;
		if (!touched) return;
		writeCells(cs, off, n, mkC(8, 0)); // joins everything into one cell
		size_t k = lower(cs, off);
		cs.erase(cs.begin() + k);
	}
	bool copyBytes(State& s, const Val& d, const Val& p, u64 n)
	{
		if (n == 0) return true;
		vector<Tgt> st, dt;
		if (!targets(s, p, n, false, st, "copy source")) return false;
		if (!targets(s, d, n, true, dt, "copy destination")) return false;
		bool simple = st.size() == 1 && dt.size() == 1 && !st[0].sym && !dt[0].sym;
		if (simple) {
			if (st[0].obj == dt[0].obj && st[0].off == dt[0].off) return true;
			Obj* so = s.mem.get(st[0].obj);
			bool zero = so->zero;
			vector<Cell> tmp;
			u32 b = st[0].off, e = b + n;
			u32 pos = b;
			auto gap = [&](u32 to) {
				while (pos < to) {
					u32 m = to - pos;
					u32 o = dt[0].off + (pos - b);
					u32 k = m >= 8 && o % 8 == 0 ? 8 : m >= 4 && o % 4 == 0 ? 4 : m >= 2 && o % 2 == 0 ? 2 : 1;
					if (zero) tmp.push_back({o, k, mkC(k * 8, 0)});
					pos += k;
				}
			};
			for (size_t i = lower(so->cells, b); i < so->cells.size() && so->cells[i].off < e; ++i) {
				const Cell& c = so->cells[i];
				u32 cb = std::max(c.off, b), ce = std::min(c.off + c.size, e);
				gap(cb);
				if (cb == c.off && ce == c.off + c.size) tmp.push_back({(u32)dt[0].off + (cb - b), c.size, c.v, c.def});
				else {
					Bits bb = bitsOf(widen(c.v, c.size));
					for (u32 q = cb; q < ce; ++q) {
						Bits x(bb.begin() + (q - c.off) * 8, bb.begin() + (q - c.off) * 8 + 8);
						tmp.push_back({(u32)dt[0].off + (q - b), 1, mkBits(std::move(x)), c.def});
					}
				}
				pos = ce;
			}
			gap(e);
			Obj* o = s.mem.mut(dt[0].obj);
			if (o->zero && !zero) {
				for (u32 q = 0; q < n; ++q) writeCells(o->cells, dt[0].off + q, 1, freshBits(8));
			} else eraseCells(o->cells, dt[0].off, n);
			for (Cell& c : tmp) writeCells(o->cells, c.off, c.size, c.v, c.def);
			return true;
		}
		// segments
		set<u32> cuts{0, (u32)n};
		auto addCuts = [&](vector<Tgt>& ts) {
			for (Tgt& t : ts) {
				if (t.sym) continue;
				Obj* so = s.mem.get(t.obj);
				for (auto& c : so->cells) {
					i64 x = (i64)c.off - t.off;
					if (x > 0 && x < (i64)n) cuts.insert(x);
					x += c.size;
					if (x > 0 && x < (i64)n) cuts.insert(x);
				}
			}
		};
		addCuts(st);
		addCuts(dt);
		bool anySym = false;
		for (Tgt& t : st) anySym |= t.sym != nullptr;
		for (Tgt& t : dt) anySym |= t.sym != nullptr;
		if (anySym) for (u32 i = 0; i < n; ++i) cuts.insert(i);
		for (u32 i = 8; i < n; i += 8) cuts.insert(i);
		vector<u32> cv(cuts.begin(), cuts.end());
		vector<Val> vals;
		for (size_t i = 0; i + 1 < cv.size(); ++i) {
			Val v;
			if (!loadBytes(s, addC(p, cv[i]), cv[i + 1] - cv[i], v)) return false;
			vals.push_back(v);
		}
		for (size_t i = 0; i + 1 < cv.size(); ++i)
			if (!storeBytes(s, addC(d, cv[i]), cv[i + 1] - cv[i], vals[i])) return false;
		return true;
	}
	Val readTgts(State& s, const vector<Tgt>& ts, u64 i, u32 w)
	{
		// byte i of the block; out of range positions give anything
		Val r; bool first = true;
		for (const Tgt& t : ts) {
			Obj* o = s.mem.get(t.obj);
			Val v;
			if (!t.sym) {
				if (t.off + i + w > o->size) continue;
				v = readObj(s, t.obj, t.off + i, w);
			} else {
				Bits off = bAdd(*t.sym, constBits(64, i));
				vector<pair<u32, Lit>> ps;
				positions(off, o->size, w, ps);
				bool f2 = true;
				for (auto& q : ps) {
					Val x = readObj(s, t.obj, q.first, w);
					v = f2 ? x : vIte(q.second, x, v);
					f2 = false;
				}
				if (f2) continue;
			}
			r = first ? v : vIte(t.g, v, r);
			first = false;
		}
		if (first) return mkC(w * 8, 0);
		return r;
	}
	void writeTgts(State& s, const vector<Tgt>& ts, u64 i, const Val& v, Lit g, u32 w = 1)
	{
		for (const Tgt& t : ts) {
			Lit q = A.And(g, t.g);
			Obj* o = s.mem.get(t.obj);
			if (!t.sym) {
				if (t.off + i + w > o->size) continue;
				writeObj(s, t.obj, t.off + i, w, v, q);
			} else {
				Bits off = bAdd(*t.sym, constBits(64, i));
				vector<pair<u32, Lit>> ps;
				positions(off, o->size, w, ps);
				for (auto& x : ps) writeObj(s, t.obj, x.first, w, v, A.And(q, x.second));
			}
		}
	}
	bool copySym(State& s, const Val& d, const Val& p, Val n)
	{
		n = simpV(n);
		if (n.k == CONST) return copyBytes(s, d, p, n.c);
		vector<Tgt> st, dt;
		if (!rangeTargets(s, p, n, false, st)) return false;
		if (!rangeTargets(s, d, n, true, dt)) return false;
		if (st.empty() || dt.empty()) return true;
		u64 m = maxVal(s, n);
		u64 ms = 0, md = 0;
		for (Tgt& t : st) ms = std::max(ms, (u64)s.mem.get(t.obj)->size - (t.sym ? 0 : t.off));
		for (Tgt& t : dt) md = std::max(md, (u64)s.mem.get(t.obj)->size - (t.sym ? 0 : t.off));
		m = std::min(m, std::min(ms, md));
		// Whole words when everything is aligned.
		u64 low = n.k == LIST ? 0 : 7;
		if (n.k == LIST) for (auto& e : n.n->ents) low |= e.c;
		if (n.k == BITS) { low = 0; for (u32 i = 0; i < 3; ++i) if (n.n->bits[i] != F0) low |= 1u << i; }
		for (auto* ts : {&st, &dt})
			for (Tgt& t : *ts) {
				if (!t.sym) { low |= (u64)t.off; continue; }
				for (u32 i = 0; i < 3; ++i) if ((*t.sym)[i] != F0) low |= 1u << i;
			}
		u32 w = (low & 7) == 0 ? 8 : (low & 3) == 0 ? 4 : (low & 1) == 0 ? 2 : 1;
		vector<Val> vals;
		for (u64 i = 0; i + w <= m; i += w) vals.push_back(readTgts(s, st, i, w));
		for (u64 i = 0; i + w <= m; i += w) {
			Lit c = litOf(icmp(CmpInst::ICMP_ULT, mkC(64, i), n));
			writeTgts(s, dt, i, vals[i / w], c, w);
		}
		return true;
	}
	bool setSym(State& s, const Val& d, const Val& v, Val n)
	{
		n = simpV(n);
		Val b = resize(v, 8);
		vector<Tgt> dt;
		if (!rangeTargets(s, d, n, true, dt)) return false;
		if (n.k == CONST) {
			if (dt.size() == 1 && !dt[0].sym) {
				Obj* o = s.mem.mut(dt[0].obj);
				u64 i = 0;
				if (n.c) eraseCells(o->cells, dt[0].off, n.c);
				if (o->zero && b.k == CONST && b.c == 0) return true;
				while (i < n.c) {
					u32 o2 = dt[0].off + i, m = n.c - i;
					u32 k = m >= 8 && o2 % 8 == 0 ? 8 : m >= 4 && o2 % 4 == 0 ? 4 : m >= 2 && o2 % 2 == 0 ? 2 : 1;
					if (b.k == CONST) writeCells(o->cells, o2, k, mkC(k * 8, b.c * 0x0101010101010101ull));
					else {
						Bits x, y = bitsOf(b);
						for (u32 q = 0; q < k; ++q) x.insert(x.end(), y.begin(), y.end());
						writeCells(o->cells, o2, k, mkBits(std::move(x)));
					}
					i += k;
				}
				return true;
			}
			for (u64 i = 0; i < n.c; ++i) writeTgts(s, dt, i, b, T1);
			return true;
		}
		u64 m = maxVal(s, n), md = 0;
		for (Tgt& t : dt) md = std::max(md, (u64)s.mem.get(t.obj)->size - (t.sym ? 0 : t.off));
		m = std::min(m, md);
		for (u64 i = 0; i < m; ++i)
			writeTgts(s, dt, i, b, litOf(icmp(CmpInst::ICMP_ULT, mkC(64, i), n)));
		return true;
	}
	// -------------------------------------------------------------------- heap
	// Drops the entries of a list which are impossible here.
	Val pruneList(State& s, const Val& x, int conf)
	{
		Val v = simpV(x);
		if (v.k != LIST) return v;
		vector<Ent> es;
		for (const Ent& e : v.n->ents)
			if (querySat({s.guard(), e.g}, conf) != 0) es.push_back(e);
		if (es.size() == v.n->ents.size()) return v;
		if (es.size() == 1) es[0].g = T1;
		return mkList(v.w, std::move(es));
	}
	Val doAlloc(State& s, const Val& size)
	{
		Val n = pruneList(s, size, 20000);
		u64 m = n.c;
		Val sym;
		if (n.k != CONST) { m = maxVal(s, n); sym = n; }
		if (m > (1u << 22)) die("too big allocation " + std::to_string(m));
		u32 id = allocHeap(s, curInst, m, sym);
		s.live = addC(s.live, 1);
		return ptrTo(id);
	}
	bool doFree(State& s, Val p)
	{
		if (!resolve(s, p)) return false;
		vector<Ent> es; entsOf(p, es);
		Lit bad = F0; string msg;
		for (Ent& e : es) {
			Lit g = simp(e.g);
			if (g == F0) continue;
			if (e.c == 0 && !e.off) continue;
			i64 off; i64 id = addrObj(e.c, off);
			Obj* o = id < 0 ? nullptr : s.mem.get(id);
			if (!o || o->kind != 2 || off != 0 || e.off) { bad = A.Or(bad, g); msg = "free of an invalid pointer"; continue; }
			Lit d = A.And(g, simp(o->alive) ^ 1);
			if (d != F0) { bad = A.Or(bad, d); msg = "double free of " + objName[id]; }
			Obj* m = s.mem.mut(id);
			m->alive = A.And(m->alive, g ^ 1);
			if (m->alive == F0) { m->cells.clear(); m->shadow.clear(); }
			if (g == T1) s.live = addC(s.live, ~0ull);
			else s.live = lift(s.live, resize(mkLit(g), 64), Instruction::Sub);
		}
		bad = simp(bad);
		if (bad != F0 && bad != T1 && Opt.prune && querySat({s.guard(), bad}, Opt.pruneConf) == 0) { fact(s, bad ^ 1); bad = F0; }
		return violate(s, bad, msg);
	}
	// -------------------------------------------------------------------- happens-before tokens
	Val& knowOf(State& s, int t)
	{
		while ((int)s.know.size() <= t * 3 + 2) s.know.push_back(mkC(32, 0));
		return s.know[t * 3];
	}
	void hbAtomic(State& s, const Val& p, u32 n, bool ld, bool st, bool rmw, AtomicOrdering o, Lit cond = T1)
	{
		if (!hbOn) return;
		knowOf(s, s.tid);
		Val q = p;
		if (!resolve(s, q)) return;
		vector<Ent> es; entsOf(q, es);
		bool acq = isAcquireOrStronger(o), rel = isReleaseOrStronger(o);
		for (Ent& e : es) {
			Lit g = simp(A.And(e.g, cond));
			i64 off; i64 id = addrObj(e.c, off);
			if (g == F0 || id < 0 || e.off) continue;
			Obj* ob = s.mem.get(id);
			if (!ob) continue;
			bool ms;
			Val sh = readCells(ob->shadow, true, off, 4, ms);
			if (ms) sh = mkC(32, 0);
			if (ld) {
				int k = acq ? 0 : 2; // know or pending for a fence
				Val& kn = s.know[s.tid * 3 + k];
				kn = vIte(g, lift(kn, sh, Instruction::Or), kn);
			}
			if (st) {
				Val add = rel ? s.know[s.tid * 3] : s.know[s.tid * 3 + 1];
				Val nv = rmw ? lift(sh, add, Instruction::Or) : add;
				writeCells(s.mem.mut(id)->shadow, off, 4, vIte(g, nv, sh));
			}
		}
	}
	// -------------------------------------------------------------------- threads
	void park(StateP p)
	{
		if (p->guard() == F0) return;
		Key k; keyOf(*p, k);
		auto it = parkedMap.find(k);
		if (it == parkedMap.end()) { parkedMap.emplace(std::move(k), p); return; }
		merge(*it->second, *p);
	}
	void switchPoint(StateP& s)
	{
		if (!inRun || s->atomicDepth > 0) return;
		++visibles;
		if (!lastRound) {
			Lit stop = A.input();
			StateP p = make_shared<State>(*s);
			addFact(*p, stop);
			park(p);
			addFact(*s, stop ^ 1);
			activate(s->facts);
		}
		s->vcount = addC(s->vcount, 1);
	}
	Lit relTo(const State& s, const Fact* base)
	{
		vector<Lit> ls;
		for (const Fact* f = s.facts; f != base; f = f->parent) {
			if (!f) die("fact chain");
			ls.push_back(f->l);
		}
		Lit r = T1;
		for (size_t i = ls.size(); i-- > 0;) r = A.And(r, ls[i]);
		return r;
	}
	bool implied(const Fact* base, Lit r, int conf)
	{
		if (r == T1 || tautology(r)) return true;
		activate(base);
		Lit q = simp(r);
		if (q == T1 || tautology(q)) return true;
		return Opt.prune && querySat({base->guard, r ^ 1}, conf) == 0;
	}
	void runThreads(StateP& s, unsigned R)
	{
		if (inRun) die("nested vx_run");
		map<Key, StateP> saved; saved.swap(work);
		inRun = true;
		size_t n = thr.size();
		struct C { Lit g; StateP st; };
		vector<vector<C>> ctx(n);
		vector<Lit> fin(n, F0);
		const Fact* base = s->facts;
		for (size_t t = 0; t < n; ++t) {
			int old = s->tid;
			s->tid = t + 1;
			for (auto& g : M.globals()) if (g.isThreadLocal()) gvId(*s, &g);
			s->tid = old;
		}
		StateP cur = make_shared<State>(*s);
		cur->fr.clear();
		for (size_t t = 0; t < n; ++t) {
			StateP x = make_shared<State>(*s);
			x->fr.clear();
			x->tid = t + 1;
			x->atomicDepth = 0;
			const Function* F = thr[t].fn;
			vector<Val> args;
			if (F->arg_size() > 0) args.push_back(thr[t].arg);
			enter(*x, F, args, nullptr);
			ctx[t].push_back({T1, x});
			if (hbOn) { knowOf(*cur, 0); Val k = knowOf(*cur, 0); knowOf(*cur, t + 1) = k; }
		}
		for (unsigned r = 0; r < R; ++r) {
			lastRound = r + 1 == R && !Opt.freeLast;
			for (size_t t = 0; t < n; ++t) {
				if (ctx[t].empty()) continue;
				parkedMap.clear(); finishedState = nullptr;
				curRound = r;
				for (C& c : ctx[t]) {
					StateP x = make_shared<State>(*c.st);
					x->facts = base;
					x->mem = cur->mem; x->live = cur->live; x->know = cur->know;
					for (auto& q : cur->counters) { u32& v = x->counters[q.first]; v = std::max(v, q.second); }
					x->vcount = mkC(32, 0);
					Lit g = c.g;
					activate(base);
					g = simp(g);
					if (g == F0) continue;
					addFact(*x, g);
					if (Opt.prune && querySat({x->guard()}, 200) == 0) { ++pruned; continue; }
					push(x);
				}
				loop();
				vector<pair<Lit, StateP>> outs;
				vector<C> nc;
				Turn tn{(int)r, (int)t, {}};
				for (auto& p : parkedMap) {
					Lit g = relTo(*p.second, base);
					outs.push_back({g, p.second});
					nc.push_back({g, p.second});
					tn.parts.push_back({p.second->guard(), p.second->vcount});
				}
				Lit oldFin = fin[t];
				if (finishedState) {
					Lit g = relTo(*finishedState, base);
					outs.push_back({g, finishedState});
					tn.parts.push_back({finishedState->guard(), finishedState->vcount});
					fin[t] = A.Or(fin[t], g);
				}
				turns.push_back(tn);
				activate(base);
				if (simp(oldFin) != F0) {
					StateP z = make_shared<State>(*cur);
					outs.push_back({oldFin, z});
				}
				ctx[t].swap(nc);
				if (outs.empty()) { // everything was killed
					inRun = false; work.swap(saved);
					s->facts = new Fact{F0, F0, base, base->depth + 1};
					return;
				}
				StateP acc = make_shared<State>(*outs[0].second);
				Lit any = outs[0].first;
				for (size_t i = 1; i < outs.size(); ++i) {
					Lit g = outs[i].first; State& o = *outs[i].second;
					mergeMem(g ^ 1, acc->mem, o.mem);
					acc->live = vIte(g, o.live, acc->live);
					while (acc->know.size() < o.know.size()) acc->know.push_back(mkC(32, 0));
					while (o.know.size() < acc->know.size()) o.know.push_back(mkC(32, 0));
					for (size_t k = 0; k < o.know.size(); ++k) acc->know[k] = vIte(g, o.know[k], acc->know[k]);
					for (auto& q : o.counters) { u32& v = acc->counters[q.first]; v = std::max(v, q.second); }
					any = A.Or(any, g);
				}
				acc->fr.clear();
				acc->tid = s->tid;
				acc->facts = base;
				if (!implied(base, any, 500)) addFact(*acc, any);
				base = acc->facts;
				cur = acc;
			}
			// The stack objects of other turns are dropped with their frames.
		}
		inRun = false;
		work.swap(saved);
		// summary
		Lit allEnd = T1, anyStuck = F0;
		finLit.assign(n, F0);
		activate(base);
		for (size_t t = 0; t < n; ++t) {
			Lit stuck = F0;
			for (C& c : ctx[t]) {
				State x = *c.st;
				x.mem = cur->mem; x.facts = base;
				const Frame& f = x.fr.back();
				auto* cb = dyn_cast<CallBase>(f.fi->bi[f.bb]->insts[f.inst]);
				if (!cb || !cb->getCalledFunction()) continue;
				string nm = cb->getCalledFunction()->getName().str();
				if (nm != "vx_await" && nm != "vx_await_ne") continue;
				addFact(x, c.g);
				activate(x.facts);
				Lit en = awaitLit(x, *cb, nm == "vx_await_ne");
				stuck = A.Or(stuck, A.And(c.g, en ^ 1));
			}
			activate(base);
			finLit[t] = fin[t];
			allEnd = A.And(allEnd, A.Or(fin[t], stuck));
			anyStuck = A.Or(anyStuck, stuck);
		}
		deadLit = A.And(allEnd, anyStuck);
		s->facts = base;
		s->mem = cur->mem; s->live = cur->live; s->know = cur->know;
		for (auto& q : cur->counters) { u32& v = s->counters[q.first]; v = std::max(v, q.second); }
		if (hbOn)
			for (size_t t = 0; t < n; ++t) {
				Val k = knowOf(*s, t + 1);
				knowOf(*s, 0) = lift(knowOf(*s, 0), k, Instruction::Or);
			}
		thr.clear();
		activate(base);
	}
	Lit awaitLit(State& x, const CallBase& cb, bool ne)
	{
		Frame& f = x.fr.back();
		Val v;
		if (!loadBytes(x, get(x, f, cb.getArgOperand(0)), 4, v)) return F0;
		return litOf(icmp(ne ? CmpInst::ICMP_NE : CmpInst::ICMP_EQ, v, get(x, f, cb.getArgOperand(1)))); 
	}
	// -------------------------------------------------------------------- calls
	string cstr(State& s, Val p)
	{
		string r;
		vector<Ent> es; 
		if (!listy(p)) return "?";
		entsOf(p, es);
		i64 off; i64 id = addrObj(es[0].c, off);
		if (id < 0) return "?";
		Obj* o = s.mem.get(id);
		if (!o) return "?";
		for (u32 i = off; i < o->size; ++i) {
			Val v = readObj(s, id, i, 1);
			if (v.k != CONST || v.c == 0) break;
			r += (char)v.c;
		}
		return r;
	}
	Val input(State& s, u32 w, u32 bits)
	{
		Bits b(w, F0);
		for (u32 i = 0; i < bits; ++i) b[i] = A.input();
		return mkBits(std::move(b));
	}
	void record(State& s, const Val& v) { inputs.push_back({s.guard(), v}); }
	Ctl ret(Frame& f, const CallBase& cb, const Val& v)
	{
		if (!cb.getType()->isVoidTy()) set_(f, &cb, v);
		++f.inst;
		return NEXT;
	}
	Ctl retVoid(Frame& f) { ++f.inst; return NEXT; }
	Ctl call(StateP& s, const CallBase& cb)
	{
		Frame& f = s->fr.back();
		const Value* cv = cb.getCalledOperand()->stripPointerCasts();
		const Function* F = dyn_cast<Function>(cv);
		if (!F) if (auto* a = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(a->getAliasee()->stripPointerCasts());
		if (cb.isInlineAsm()) {
			if (cast<InlineAsm>(cb.getCalledOperand())->getAsmString().find_first_not_of(" \t\n") == string::npos || cb.getType()->isVoidTy())
				return retVoid(f);
			die("inline asm");
		}
		if (F) return callTo(s, cb, F);
		Val p = get(*s, f, cb.getCalledOperand());
		if (!resolve(*s, p)) return DONE;
		vector<Ent> es; entsOf(p, es);
		Lit bad = F0;
		vector<pair<Lit, const Function*>> ts;
		for (Ent& e : es) {
			Lit g = simp(e.g);
			if (g == F0) continue;
			u64 k = (e.c - PTR_MIN - 16) / 16;
			if (e.off || e.c < PTR_MIN + 16 || k >= fnByIdx.size() || (e.c & 15)) { bad = A.Or(bad, g); continue; }
			ts.push_back({g, fnByIdx[k]});
		}
		if (bad != F0 && bad != T1 && querySat({s->guard(), bad}, Opt.pruneConf) == 0) bad = F0;
		if (!violate(*s, bad, "call through an invalid pointer")) return DONE;
		if (ts.empty()) return DONE;
		if (ts.size() == 1) return callTo(s, cb, ts[0].second);
		for (auto& t : ts) {
			Lit g = simp(t.first);
			if (g == F0) continue;
			StateP x = make_shared<State>(*s);
			addFact(*x, g);
			if (Opt.prune && querySat({x->guard()}, Opt.pruneConf) == 0) { ++pruned; continue; }
			activate(x->facts);
			++forks;
			Ctl c = callTo(x, cb, t.second);
			if (c != DONE) push(x);
			activate(s->facts);
		}
		return DONE;
	}
	bool isBuiltin(const Function* F)
	{
		return F->isDeclaration();
	}
	Ctl callTo(StateP& s, const CallBase& cb, const Function* F)
	{
		Frame& f = s->fr.back();
		if (F->isDeclaration()) return builtin(s, cb, F);
		vector<Val> args;
		for (const Use& u : cb.args()) args.push_back(get(*s, f, u.get()));
		if (args.size() < F->arg_size()) die("argument count of " + F->getName().str());
		if (F->isVarArg()) { StringRef n = F->getName(); (void)n; }
		u32 rec = 0;
		for (const Frame& x : s->fr) if (x.fi->F == F) ++rec;
		if (rec > 0) {
			FInfo* fi = info(F);
			if (Opt.prune && querySat({s->guard()}, rec >= fi->bound ? 20000 : Opt.pruneConf) == 0) { ++pruned; return DONE; }
			if (rec > fi->bound) { violate(*s, T1, "unwind: recursion bound exceeded in " + fi->name); return DONE; }
		}
		enter(*s, F, args, &cb);
		return MOVED;
	}
	Ctl builtin(StateP& sp, const CallBase& cb, const Function* F)
	{
		State& s = *sp;
		Frame& f = s.fr.back();
		auto arg = [&](unsigned i) { return get(s, f, cb.getArgOperand(i)); };
		StringRef N = F->getName();
		if (F->isIntrinsic()) return intrinsic(sp, cb, F);
		// ---- harness API
		if (N.starts_with("vx_")) {
			if (N == "vx_u8") { Val v = input(s, 8, 8); record(s, v); return ret(f, cb, v); }
			if (N == "vx_u16") { Val v = input(s, 16, 16); record(s, v); return ret(f, cb, v); }
			if (N == "vx_u32") { Val v = input(s, 32, 32); record(s, v); return ret(f, cb, v); }
			if (N == "vx_u64") { Val v = input(s, 64, 64); record(s, v); return ret(f, cb, v); }
			if (N == "vx_bool") { Val v = input(s, cb.getType()->getIntegerBitWidth(), 1); record(s, v); return ret(f, cb, v); }
			if (N == "vx_range") {
				Val lo = arg(0), hi = arg(1);
				if (lo.k == CONST && hi.k == CONST) {
					u64 d = hi.c - lo.c;
					u32 n = 0;
					while (n < 64 && (d >> n)) ++n;
					Val x = input(s, 64, n);
					if (!assume(s, ule(x, mkC(64, d)))) return DONE;
					// small ranges become lists: they keep pointers and positions concrete
					Val v;
					if (d <= 15) {
						vector<Ent> es;
						for (u64 i = 0; i <= d; ++i) es.push_back({litOf(icmp(CmpInst::ICMP_EQ, x, mkC(64, i))), lo.c + i, nullptr});
						v = d == 0 ? mkC(64, lo.c) : mkList(64, std::move(es));
					} else v = addC(x, lo.c);
					record(s, v);
					return ret(f, cb, v);
				}
				Val x = input(s, 64, 64);
				Lit c = A.And(ule(lo, x), ule(x, hi));
				if (!assume(s, c)) return DONE;
				record(s, x);
				return ret(f, cb, x);
			}
			if (N == "vx_assume") { if (!assume(s, litOf(arg(0)))) return DONE; return retVoid(f); }
			if (N == "vx_assert") {
				Lit c = simp(litOf(arg(0)));
				++asserts;
				if (!violate(s, c ^ 1, "assert: " + cstr(s, arg(1)))) return DONE;
				return retVoid(f);
			}
			if (N == "vx_fail") { violate(s, T1, "fail: " + cstr(s, arg(0))); return DONE; }
			if (N == "vx_reach") {
				Val p = simpV(arg(0));
				vector<Ent> es;
				if (!listy(p)) die("the label of vx_reach");
				entsOf(p, es);
				for (Ent& e : es) {
					Lit& l = reach.emplace(cstr(s, mkC(64, e.c)), F0).first->second;
					l = A.Or(l, A.And(s.guard(), e.g));
				}
				return retVoid(f);
			}
			if (N == "vx_live_allocs") return ret(f, cb, s.live);
			if (N == "vx_thread") {
				Val p = simpV(arg(0));
				if (p.k != CONST) die("vx_thread needs a constant function");
				thr.push_back({fnByIdx[(p.c - PTR_MIN - 16) / 16], arg(1)});
				return ret(f, cb, mkC(32, thr.size() - 1));
			}
			if (N == "vx_run") {
				Val r = arg(0);
				++f.inst;
				runThreads(sp, r.c);
				return sp->guard() == F0 ? DONE : NEXT;
			}
			if (N == "vx_finished") { Val t = arg(0); return ret(f, cb, resize(mkLit(finLit.at(t.c)), cb.getType()->getIntegerBitWidth())); }
			if (N == "vx_deadlock") return ret(f, cb, resize(mkLit(deadLit), cb.getType()->getIntegerBitWidth()));
			if (N == "vx_visible") { switchPoint(sp); return retVoid(sp->fr.back()); }
			if (N == "vx_await" || N == "vx_await_ne") {
				switchPoint(sp);
				Lit c = simp(awaitLit(s, cb, N == "vx_await_ne"));
				if (c != T1) {
					if (!inRun) { if (!violate(s, c ^ 1, "deadlock: the main thread waits for ever")) return DONE; }
					else {
						StateP p = make_shared<State>(s);
						p->vcount = addC(p->vcount, ~0ull);
						if (s.atomicDepth > 0) p->vcount = s.vcount;
						addFact(*p, c ^ 1);
						park(p);
						if (c == F0) return DONE;
						addFact(s, c);
						activate(s.facts);
					}
				}
				hbAtomic(s, arg(0), 4, true, false, false, AtomicOrdering::Acquire);
				return retVoid(f);
			}
			if (N == "vx_atomic_begin") { ++s.atomicDepth; return retVoid(f); }
			if (N == "vx_atomic_end") { --s.atomicDepth; return retVoid(f); }
			if (N == "vx_tid") return ret(f, cb, mkC(32, s.tid));
			if (N == "vx_hb_on") { hbOn = true; return retVoid(f); }
			if (N == "vx_hb_write") {
				Val k = arg(0);
				knowOf(s, s.tid);
				Val b = mkC(32, 0);
				if (k.k == CONST) b = mkC(32, 1ull << k.c);
				else b = lift(mkC(32, 1), resize(k, 32), Instruction::Shl);
				s.know[s.tid * 3] = lift(s.know[s.tid * 3], b, Instruction::Or);
				return retVoid(f);
			}
			if (N == "vx_hb_read") { // whether the event is known to happen before
				Val k = arg(0);
				knowOf(s, s.tid);
				Val x = lift(s.know[s.tid * 3], resize(k, 32), Instruction::LShr);
				return ret(f, cb, resize(mkLit(litOf(x)), cb.getType()->getIntegerBitWidth()));
			}
		}
		// ---- heap
		if (N == "malloc" || N == "_Znwm" || N == "_Znam" || N == "_ZnwmRKSt9nothrow_t" || N == "_ZnwmSt11align_val_t" || N == "_ZnamSt11align_val_t")
			return ret(f, cb, doAlloc(s, arg(0)));
		if (N == "aligned_alloc") return ret(f, cb, doAlloc(s, arg(1)));
		if (N == "calloc") {
			Val n = lift(arg(0), arg(1), Instruction::Mul);
			Val p = doAlloc(s, n);
			i64 off; i64 id = addrObj(p.c, off);
			s.mem.mut(id)->zero = true;
			return ret(f, cb, p);
		}
		if (N == "realloc") {
			Val p = simpV(arg(0)), n = simpV(arg(1));
			if (p.k != CONST || n.k != CONST) die("symbolic realloc");
			Val q = doAlloc(s, n);
			if (p.c != 0) {
				i64 off; i64 id = addrObj(p.c, off);
				Obj* o = id < 0 ? nullptr : s.mem.get(id);
				if (!o) { violate(s, T1, "realloc of an invalid pointer"); return DONE; }
				if (!copyBytes(s, q, p, std::min((u64)o->size, n.c))) return DONE;
				if (!doFree(s, p)) return DONE;
			}
			return ret(f, cb, q);
		}
		if (N == "free" || N.starts_with("_ZdlPv") || N.starts_with("_ZdaPv")) {
			if (!doFree(s, arg(0))) return DONE;
			return retVoid(f);
		}
		// ---- memory
		if (N == "memcpy" || N == "memmove") {
			Val d = arg(0);
			if (!copySym(s, d, arg(1), arg(2))) return DONE;
			return ret(f, cb, d);
		}
		if (N == "memset") {
			Val d = arg(0);
			if (!setSym(s, d, arg(1), arg(2))) return DONE;
			return ret(f, cb, d);
		}
		// ---- runtime
		if (N == "__cxa_atexit" || N == "__cxa_thread_atexit" || N == "atexit") return ret(f, cb, mkC(32, 0));
		if (N == "__cxa_guard_acquire") {
			Val v;
			if (!loadBytes(s, arg(0), 1, v)) return DONE;
			return ret(f, cb, resize(icmp(CmpInst::ICMP_EQ, v, mkC(8, 0)), 32));
		}
		if (N == "__cxa_guard_release") { if (!storeBytes(s, arg(0), 1, mkC(8, 1))) return DONE; return retVoid(f); }
		if (N == "__cxa_pure_virtual" || N == "abort" || N == "_ZSt9terminatev" || N == "__assert_fail" || N.contains("__throw_") || N == "__stack_chk_fail" || N == "exit" || N == "_exit") {
			violate(s, T1, "fatal: call of " + N.str());
			return DONE;
		}
		die("call of an unknown function " + N.str());
	}
	u64 asserts = 0;
	static u32 fclz(u64 v, u32 w) { u32 n = 0; for (u32 i = w; i-- > 0;) { if (v >> i & 1) break; ++n; } return n; }
	Ctl intrinsic(StateP& sp, const CallBase& cb, const Function* F)
	{
		State& s = *sp;
		Frame& f = s.fr.back();
		auto arg = [&](unsigned i) { return get(s, f, cb.getArgOperand(i)); };
		u32 w = cb.getType()->isIntegerTy() ? cb.getType()->getIntegerBitWidth() : 0;
		switch (F->getIntrinsicID()) {
		case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
		case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
		case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::assume:
		case Intrinsic::vaend:
			return retVoid(f);
		case Intrinsic::vastart: {
			if (!f.va) return retVoid(f);
			LLVMContext& C = F->getContext();
			Val p = arg(0);
			if (!storeType(s, p, Type::getInt32Ty(C), mkC(32, 48)) || !storeType(s, addC(p, 4), Type::getInt32Ty(C), mkC(32, 304)) ||
				!storeType(s, addC(p, 8), PointerType::get(C, 0), ptrTo(f.va)) || !storeType(s, addC(p, 16), PointerType::get(C, 0), mkC(64, 0))) return DONE;
			return retVoid(f);
		}
		case Intrinsic::vacopy:
			copyBytes(s, arg(0), arg(1), 24);
			return retVoid(f);
		case Intrinsic::invariant_start: case Intrinsic::stacksave: return ret(f, cb, mkC(64, 0));
		case Intrinsic::invariant_end: return retVoid(f);
		case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
		case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address:
			return ret(f, cb, arg(0));
		case Intrinsic::is_constant: return ret(f, cb, mkC(1, 0));
		case Intrinsic::objectsize: return ret(f, cb, mkC(w, ~0ull));
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
			if (!copySym(s, arg(0), arg(1), resize(arg(2), 64))) return DONE;
			return retVoid(f);
		case Intrinsic::memset: case Intrinsic::memset_inline:
			if (!setSym(s, arg(0), arg(1), resize(arg(2), 64))) return DONE;
			return retVoid(f);
		case Intrinsic::umin: { Val a = arg(0), b = arg(1); return ret(f, cb, vIte(litOf(icmp(CmpInst::ICMP_ULT, a, b)), a, b)); }
		case Intrinsic::umax: { Val a = arg(0), b = arg(1); return ret(f, cb, vIte(litOf(icmp(CmpInst::ICMP_ULT, a, b)), b, a)); }
		case Intrinsic::smin: { Val a = arg(0), b = arg(1); return ret(f, cb, vIte(litOf(icmp(CmpInst::ICMP_SLT, a, b)), a, b)); }
		case Intrinsic::smax: { Val a = arg(0), b = arg(1); return ret(f, cb, vIte(litOf(icmp(CmpInst::ICMP_SLT, a, b)), b, a)); }
		case Intrinsic::abs: {
			Val a = arg(0);
			Val n = lift(mkC(w, 0), a, Instruction::Sub);
			return ret(f, cb, vIte(litOf(icmp(CmpInst::ICMP_SLT, a, mkC(w, 0))), n, a));
		}
		case Intrinsic::usub_sat: {
			Val a = arg(0), b = arg(1);
			return ret(f, cb, vIte(litOf(icmp(CmpInst::ICMP_ULT, a, b)), mkC(w, 0), lift(a, b, Instruction::Sub)));
		}
		case Intrinsic::uadd_sat: {
			Val a = arg(0), b = arg(1), r = lift(a, b, Instruction::Add);
			return ret(f, cb, vIte(litOf(icmp(CmpInst::ICMP_ULT, r, a)), mkC(w, ~0ull), r));
		}
		case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow:
		case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
		case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
			Val a = arg(0), b = arg(1);
			u32 ww = a.w;
			auto id = F->getIntrinsicID();
			bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
			unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add :
				(id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
			u32 x = op == Instruction::Mul ? 2 * ww : ww + 1;
			Bits p = bitsOf(a), q = bitsOf(b);
			p.resize(x, sg ? p.back() : F0); q.resize(x, sg ? q.back() : F0);
			Bits r = op == Instruction::Add ? bAdd(p, q) : op == Instruction::Sub ? bSub(p, q) : bMul(p, q);
			Lit ov = F0;
			if (op == Instruction::Sub && !sg) ov = r[ww];
			else for (u32 i = ww; i < x; ++i) ov = A.Or(ov, sg ? A.Xor(r[i], r[ww - 1]) : r[i]);
			r.resize(ww);
			return ret(f, cb, mkAgg({mkBits(std::move(r)), mkLit(ov)}));
		}
		case Intrinsic::ctpop: {
			Val a = arg(0);
			return ret(f, cb, unaryMap(a, w, [](u64 c) { return (u64)__builtin_popcountll(c); }, [&](const Bits& b) {
				Bits r(w, F0);
				for (Lit l : b) { Bits o(w, F0); o[0] = l; r = bAdd(r, o); }
				return r; }));
		}
		case Intrinsic::ctlz: case Intrinsic::cttz: {
			bool lz = F->getIntrinsicID() == Intrinsic::ctlz;
			Val a = arg(0);
			return ret(f, cb, unaryMap(a, w, [&](u64 c) {
				if (lz) return (u64)fclz(c, w);
				u64 n = 0; while (n < w && !(c >> n & 1)) ++n; return n; }, [&](const Bits& b) {
				Bits r = constBits(w, w);
				for (u32 i = 0; i < w; ++i) {
					u32 k = lz ? i : w - 1 - i;
					r = bIte(b[k], constBits(w, lz ? w - 1 - i : k), r);
				}
				return r; }));
		}
		case Intrinsic::bswap: {
			Val a = arg(0);
			return ret(f, cb, unaryMap(a, w, [&](u64 c) { return __builtin_bswap64(c) >> (64 - w); }, [&](const Bits& b) {
				Bits r(w);
				for (u32 i = 0; i < w; ++i) r[i] = b[(w / 8 - 1 - i / 8) * 8 + i % 8];
				return r; }));
		}
		case Intrinsic::fshl: case Intrinsic::fshr: {
			Val c = simpV(arg(2));
			if (c.k != CONST) die("symbolic funnel shift");
			u32 k = c.c % w;
			Bits a = bitsOf(arg(0)), b = bitsOf(arg(1));
			if (F->getIntrinsicID() == Intrinsic::fshr) k = k == 0 ? w : w - k; 
			Bits r(w);
			// fshl: high bits of (a:b) << k
			Bits cat = b; cat.insert(cat.end(), a.begin(), a.end());
			if (F->getIntrinsicID() == Intrinsic::fshr && c.c % w == 0) return ret(f, cb, arg(1));
			for (u32 i = 0; i < w; ++i) r[i] = cat[w + i - k];
			return ret(f, cb, mkBits(std::move(r)));
		}
		case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
			violate(s, T1, "fatal: trap");
			return DONE;
		case Intrinsic::eh_typeid_for: return ret(f, cb, mkC(32, 0));
		default: die("intrinsic " + F->getName().str());
		}
	}
	// -------------------------------------------------------------------- instructions
	double toD(const Val& v) { if (v.k != CONST) die("symbolic floating point"); if (v.w == 32) { float x; u32 y = v.c; memcpy(&x, &y, 4); return x; } double x; memcpy(&x, &v.c, 8); return x; }
	Val fromD(double d, u32 w) { if (w == 32) { float x = d; u32 y; memcpy(&y, &x, 4); return mkC(32, y); } u64 y; memcpy(&y, &d, 8); return mkC(64, y); }
	void exec(StateP s)
	{
		for (;;) {
			if (s->guard() == F0) return;
			Frame* f = &s->fr.back();
			auto* b = f->fi->bi[f->bb];
			const Instruction& I = *b->insts[f->inst];
			curInst = &I;
			++steps;
			if (steps > Opt.maxSteps) { fatal = "too many steps"; dieF(); }
			if ((steps & 4095) == 0 && now() - t0 > Opt.timeout) { fatal = "symbolic execution timeout"; dieF(); }
			auto op = [&](unsigned i) { return get(*s, *f, I.getOperand(i)); };
			switch (I.getOpcode()) {
			case Instruction::Br: {
				auto& B = cast<BranchInst>(I);
				if (!B.isConditional()) {
					if (!edge(*s, B.getSuccessor(0))) return;
					if (!goOn(s)) return;
					continue;
				}
				Lit c = simp(litOf(op(0)));
				const BasicBlock* T = B.getSuccessor(0); const BasicBlock* E = B.getSuccessor(1);
				if (c <= 1 || T == E) {
					if (!edge(*s, c == F0 ? E : T)) return;
					if (!goOn(s)) return;
					continue;
				}
				++forks;
				markExits(*f, T); markExits(*f, E);
				StateP x = make_shared<State>(*s);
				addFact(*x, c ^ 1);
				addFact(*s, c);
				activate(s->facts);
				if (edge(*s, T)) push(s);
				activate(x->facts);
				if (edge(*x, E)) push(x);
				return;
			}
			case Instruction::Switch: {
				auto& S = cast<SwitchInst>(I);
				Val v = simpV(op(0));
				map<const BasicBlock*, Lit> to; vector<const BasicBlock*> order;
				auto add = [&](const BasicBlock* t, Lit l) {
					if (l == F0) return;
					auto it = to.find(t);
					if (it == to.end()) { to[t] = l; order.push_back(t); } else it->second = A.Or(it->second, l);
				};
				Lit def = T1;
				if (v.k == LIST) def = F0;
				if (v.k == LIST) {
					for (Ent& e : v.n->ents) {
						const BasicBlock* t = S.getDefaultDest();
						for (auto& c : S.cases()) if ((c.getCaseValue()->getZExtValue() & maskw(v.w)) == e.c) t = c.getCaseSuccessor();
						add(t, e.g);
					}
				} else {
					for (auto& c : S.cases()) {
						Lit e = simp(litOf(icmp(CmpInst::ICMP_EQ, v, mkC(v.w, c.getCaseValue()->getZExtValue()))));
						add(c.getCaseSuccessor(), e);
						def = A.And(def, e ^ 1);
					}
					add(S.getDefaultDest(), simp(def));
				}
				if (order.size() > 1) for (const BasicBlock* t : order) markExits(*f, t);
				for (const BasicBlock* t : order) {
					Lit l = simp(to[t]);
					if (l == F0) continue;
					StateP x = make_shared<State>(*s);
					addFact(*x, l);
					activate(x->facts);
					++forks;
					if (edge(*x, t)) push(x);
					activate(s->facts);
				}
				return;
			}
			case Instruction::Ret: {
				Val v;
				bool has = I.getNumOperands() > 0;
				if (has) v = simpV(op(0));
				for (u32 id : f->allocas) {
					Obj* o = s->mem.mut(id);
					o->alive = F0; o->cells.clear(); o->shadow.clear();
				}
				const CallBase* cb = f->call;
				s->fr.pop_back();
				if (s->fr.empty()) {
					StateP& dst = inRun ? finishedState : endState;
					if (!dst) dst = s; else merge(*dst, *s);
					return;
				}
				Frame& c = s->fr.back();
				if (cb && has && !cb->getType()->isVoidTy()) set_(c, cb, v);
				++c.inst;
				if (!goOn(s)) return;
				continue;
			}
			case Instruction::Unreachable:
				violate(*s, T1, "unreachable code reached");
				return;
			case Instruction::Alloca: {
				auto& L = cast<AllocaInst>(I);
				auto sz = L.getAllocationSize(DL);
				if (!sz) die("dynamic alloca");
				u32 it = 0;
				for (u32 q : f->iter) it = it * 4096 + q;
				u32 id = stackObj(*s, s->fr.size(), &I, it, sz->getFixedValue());
				f->allocas.push_back(id);
				set_(*f, &I, ptrTo(id));
				break;
			}
			case Instruction::Load: {
				auto& L = cast<LoadInst>(I);
				if (L.isAtomic()) { switchPoint(s); f = &s->fr.back(); }
				Val p = op(0), v;
				if (!loadType(*s, p, I.getType(), v)) return;
				if (L.isAtomic()) hbAtomic(*s, p, 0, true, false, false, L.getOrdering());
				set_(*f, &I, v);
				break;
			}
			case Instruction::Store: {
				auto& S = cast<StoreInst>(I);
				if (S.isAtomic()) { switchPoint(s); f = &s->fr.back(); }
				Val v = op(0), p = op(1);
				if (!storeType(*s, p, S.getValueOperand()->getType(), v)) return;
				if (S.isAtomic()) hbAtomic(*s, p, 0, false, true, false, S.getOrdering());
				break;
			}
			case Instruction::AtomicRMW: {
				auto& R = cast<AtomicRMWInst>(I);
				switchPoint(s); f = &s->fr.back();
				Val p = op(0), v = op(1), o, n;
				if (!loadType(*s, p, I.getType(), o)) return;
				switch (R.getOperation()) {
				case AtomicRMWInst::Xchg: n = v; break;
				case AtomicRMWInst::Add: n = addV(o, v); break;
				case AtomicRMWInst::Sub: n = subV(o, v); break;
				case AtomicRMWInst::And: n = lift(o, v, Instruction::And); break;
				case AtomicRMWInst::Or: n = lift(o, v, Instruction::Or); break;
				case AtomicRMWInst::Xor: n = lift(o, v, Instruction::Xor); break;
				case AtomicRMWInst::UMax: n = vIte(litOf(icmp(CmpInst::ICMP_ULT, o, v)), v, o); break;
				case AtomicRMWInst::UMin: n = vIte(litOf(icmp(CmpInst::ICMP_ULT, o, v)), o, v); break;
				default: die("atomic rmw");
				}
				if (!storeType(*s, p, I.getType(), n)) return;
				hbAtomic(*s, p, 0, true, true, true, R.getOrdering());
				set_(*f, &I, o);
				break;
			}
			case Instruction::AtomicCmpXchg: {
				auto& X = cast<AtomicCmpXchgInst>(I);
				switchPoint(s); f = &s->fr.back();
				Val p = op(0), e = op(1), n = op(2), o;
				Type* t = X.getCompareOperand()->getType();
				if (!loadType(*s, p, t, o)) return;
				Lit eq = simp(litOf(icmp(CmpInst::ICMP_EQ, o, e)));
				if (!storeType(*s, p, t, vIte(eq, n, o))) return;
				hbAtomic(*s, p, 0, true, true, true, X.getSuccessOrdering(), eq);
				hbAtomic(*s, p, 0, true, false, false, X.getFailureOrdering(), eq ^ 1);
				set_(*f, &I, mkAgg({o, mkLit(eq)}));
				break;
			}
			case Instruction::Fence: {
				auto& F = cast<FenceInst>(I);
				if (hbOn) {
					knowOf(*s, s->tid);
					int t = s->tid * 3;
					if (isAcquireOrStronger(F.getOrdering())) s->know[t] = lift(s->know[t], s->know[t + 2], Instruction::Or);
					if (isReleaseOrStronger(F.getOrdering())) s->know[t + 1] = s->know[t];
				}
				break;
			}
			case Instruction::GetElementPtr: {
				Val p = op(0);
				if (I.getType()->isVectorTy()) die("vector gep");
				u64 c = 0;
				unsigned k = 1;
				vector<Val> syms;
				for (auto it = gep_type_begin(&I), e = gep_type_end(&I); it != e; ++it, ++k) {
					if (StructType* st = it.getStructTypeOrNull()) {
						c += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(I.getOperand(k))->getZExtValue());
						continue;
					}
					u64 es = DL.getTypeAllocSize(it.getIndexedType());
					Val x = simpV(op(k));
					if (x.w < 64) {
						u32 ow = x.w;
						x = unaryMap(x, 64, [&](u64 q) { return (u64)((i64)(q << (64 - ow)) >> (64 - ow)); },
							[&](const Bits& bb) { Bits r = bb; r.resize(64, bb.back()); return r; });
					}
					if (x.k == CONST) { c += x.c * es; continue; }
					if (es != 1) x = x.k == LIST && !hasOff(x) ? unaryMap(x, 64, [&](u64 q) { return q * es; }, nullptr) : mkBits(bMul(bitsOf(x), constBits(64, es)));
					syms.push_back(x);
				}
				p = addC(p, c);
				for (Val& x : syms) p = addV(p, x);
				set_(*f, &I, p);
				break;
			}
			case Instruction::ICmp: {
				Val r = icmp(cast<ICmpInst>(I).getPredicate(), simpV(op(0)), simpV(op(1)));
				set_(*f, &I, mkLit(simp(litOf(r))));
				break;
			}
			case Instruction::Add: set_(*f, &I, addV(op(0), op(1))); break;
			case Instruction::Sub: set_(*f, &I, subV(op(0), op(1))); break;
			case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
				Val y = op(1);
				Lit z = simp(litOf(icmp(CmpInst::ICMP_EQ, y, mkC(y.w, 0))));
				if (!violate(*s, z, "division by zero")) return;
				set_(*f, &I, lift(op(0), y, I.getOpcode()));
				break;
			}
			case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
			case Instruction::And: case Instruction::Or: case Instruction::Xor:
				set_(*f, &I, lift(op(0), op(1), I.getOpcode()));
				break;
			case Instruction::Select: {
				Lit c = simp(litOf(op(0)));
				set_(*f, &I, c == T1 ? op(1) : c == F0 ? op(2) : vIte(c, op(1), op(2)));
				break;
			}
			case Instruction::Freeze: set_(*f, &I, op(0)); break;
			case Instruction::ExtractValue: {
				Val v = op(0);
				for (unsigned i : cast<ExtractValueInst>(I).indices()) { Val t = v.n->agg[i]; v = t; }
				set_(*f, &I, v);
				break;
			}
			case Instruction::InsertValue: {
				auto idx = cast<InsertValueInst>(I).getIndices();
				std::function<Val(const Val&, size_t)> ins = [&](const Val& a, size_t k) -> Val {
					if (k == idx.size()) return op(1);
					vector<Val> e = a.n->agg;
					e[idx[k]] = ins(e[idx[k]], k + 1);
					return mkAgg(std::move(e));
				};
				set_(*f, &I, ins(op(0), 0));
				break;
			}
			case Instruction::FAdd: set_(*f, &I, fromD(toD(op(0)) + toD(op(1)), op(0).w)); break;
			case Instruction::FSub: set_(*f, &I, fromD(toD(op(0)) - toD(op(1)), op(0).w)); break;
			case Instruction::FMul: set_(*f, &I, fromD(toD(op(0)) * toD(op(1)), op(0).w)); break;
			case Instruction::FDiv: set_(*f, &I, fromD(toD(op(0)) / toD(op(1)), op(0).w)); break;
			case Instruction::FCmp: {
				double x = toD(op(0)), y = toD(op(1));
				bool r;
				switch (cast<FCmpInst>(I).getPredicate()) {
				case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break;
				case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break;
				case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break;
				case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break;
				case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break;
				case CmpInst::FCMP_UNE: case CmpInst::FCMP_ONE: r = x != y; break;
				default: die("fcmp");
				}
				set_(*f, &I, mkC(1, r));
				break;
			}
			case Instruction::Call: {
				Ctl c = call(s, cast<CallBase>(I));
				if (c == DONE) return;
				if (c == MOVED) { if (!goOn(s)) return; }
				continue;
			}
			default:
				if (auto* c = dyn_cast<CastInst>(&I)) { set_(*f, &I, castV(*c, op(0))); break; }
				die(string("instruction ") + I.getOpcodeName());
			}
			++f->inst;
		}
	}
	// -------------------------------------------------------------------- final queries
	u64 queries = 0; double solveTime = 0, cnfMax = 0;
	// 1 sat 0 unsat -1 unknown; model over the nodes
	int solve(Lit goal, vector<u8>& val, double limit)
	{
		if (goal == F0) return 0;
		++queries;
		double t = now();
		vector<int> var(A.size(), 0);
		vector<u32> st{goal >> 1}, order;
		int nv = 0;
		while (!st.empty()) {
			u32 n = st.back(); st.pop_back();
			if (n == 0 || var[n]) continue;
			var[n] = ++nv;
			order.push_back(n);
			if (A.b[n] != Aig::NONE) { st.push_back(A.a[n] >> 1); st.push_back(A.b[n] >> 1); }
		}
		auto L = [&](Lit l) { return (l & 1) ? -var[l >> 1] : var[l >> 1]; };
		FILE* o = fopen(Opt.cnf.c_str(), "w");
		if (!o) die("cannot write " + Opt.cnf);
		u64 nc = 0;
		for (u32 n : order) if (A.b[n] != Aig::NONE) nc += 3;
		if (goal > 1) ++nc;
		fprintf(o, "p cnf %d %llu\n", std::max(nv, 1), (unsigned long long)nc);
		for (u32 n : order) if (A.b[n] != Aig::NONE) {
			int x = L(A.a[n]), y = L(A.b[n]), z = var[n];
			fprintf(o, "-%d %d 0\n-%d %d 0\n%d %d %d 0\n", z, x, z, y, z, -x, -y);
		}
		if (goal > 1) fprintf(o, "%d 0\n", L(goal));
		fclose(o);
		cnfMax = std::max(cnfMax, (double)nc);
		char cmd[512];
		snprintf(cmd, sizeof cmd, "%s -q --time=%d %s 2>/dev/null", Opt.solver.c_str(), (int)limit + 1, Opt.cnf.c_str());
		FILE* p = popen(cmd, "r");
		int res = -1;
		vector<u8> vv(nv + 1, 0);
		char line[65536];
		while (p && fgets(line, sizeof line, p)) {
			if (line[0] == 's') res = strstr(line, "UNSATISFIABLE") ? 0 : strstr(line, "SATISFIABLE") ? 1 : -1;
			else if (line[0] == 'v') {
				char* q = line + 1; char* e;
				for (;;) { long x = strtol(q, &e, 10); if (e == q) break; q = e; if (x > 0 && x <= nv) vv[x] = 1; }
			}
		}
		if (p) pclose(p);
		unlink(Opt.cnf.c_str());
		solveTime += now() - t;
		if (res == 1) {
			val.assign(A.size(), 0);
			for (u32 n = 1; n < A.size(); ++n) {
				if (A.b[n] == Aig::NONE) val[n] = var[n] ? vv[var[n]] : 0;
				else val[n] = (val[A.a[n] >> 1] ^ (A.a[n] & 1)) & (val[A.b[n] >> 1] ^ (A.b[n] & 1));
			}
			if (!ev(val, goal)) die("the model of the solver does not satisfy the query");
		}
		return res;
	}
	static bool ev(const vector<u8>& v, Lit l) { return v[l >> 1] ^ (l & 1); }
	u64 evV(const vector<u8>& m, const Val& v)
	{
		Bits b = bitsOf(v);
		u64 r = 0;
		for (u32 i = 0; i < b.size() && i < 64; ++i) {
			if ((b[i] >> 1) >= m.size()) die("late node");
			if (ev(m, b[i])) r |= 1ull << i;
		}
		return r;
	}
	static string js(const string& s)
	{
		string r = "\"";
		for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((u8)c < 32) { r += ' '; continue; } r += c; }
		return r + "\"";
	}
	void trace(std::ostream& o, const vector<u8>& m, const Viol* last = nullptr)
	{
		o << "\"inputs\":[";
		bool first = true;
		for (Input& i : inputs) {
			if (!ev(m, i.g)) continue;
			Val v = i.v;
			o << (first ? "" : ",") << evV(m, v); first = false;
		}
		o << "],\"schedule\":[";
		first = true;
		for (Turn& t : turns) {
			long c = -1;
			for (auto& p : t.parts) if (ev(m, p.first)) { c = (long)evV(m, p.second); break; }
			if (c < 0) continue;
			o << (first ? "" : ",") << "[" << t.round << "," << t.tid << "," << c << "]"; first = false;
		}
		if (last && last->round >= 0) o << (first ? "" : ",") << "[" << last->round << "," << last->tid << ",1000000]";
		o << "]";
	}
	StateP callMain(StateP s, const Function* F)
	{
		s->fr.clear();
		enter(*s, F, {}, nullptr);
		endState = nullptr;
		push(s);
		loop();
		return endState;
	}
	int run(const string& out)
	{
		StateP s = make_shared<State>();
		s->facts = &rootFact;
		for (auto& g : M.globals()) if (!g.getName().starts_with("llvm.")) gvId(*s, &g);
		// the bits of the values used in traces must exist before the models
		string err;
		if (auto* g = M.getGlobalVariable("llvm.global_ctors"))
			if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) {
				vector<pair<u64, const Function*>> cs;
				for (auto& e : ca->operands()) {
					auto* st = cast<ConstantStruct>(e);
					auto* F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts());
					if (F) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F});
				}
				std::stable_sort(cs.begin(), cs.end(), [](auto& x, auto& y) { return x.first < y.first; });
				for (auto& c : cs) { s = callMain(s, c.second); if (!s) die("a constructor does not return"); }
			}
		s->live = mkC(64, 0);
		executed.clear(); finfo.clear(); seenSp.clear();
		const Function* F = M.getFunction("vx_main");
		if (!F) die("no vx_main");
		StateP e = callMain(s, F);
		double symT = now() - t0;
		// values of the trace
		for (Input& i : inputs) (void)bitsOf(i.v);
		for (Turn& t : turns) for (auto& p : t.parts) (void)bitsOf(p.second);
		Lit all = F0;
		for (Viol& v : viols) all = A.Or(all, v.cond);
		vector<u8> m;
		std::ostringstream o;
		string status;
		o << "{";
		int r = solve(all, m, Opt.timeout);
		if (r == 0) status = "pass";
		else if (r < 0) status = "unknown";
		else {
			status = "violation";
			const Viol* last = nullptr;
			for (Viol& v : viols) if (ev(m, v.cond)) {
				last = &v;
				if (Opt.verbose && v.dbg.k != UNSET) {
					fprintf(stderr, "violating pointer: kind %d value %llx\n", v.dbg.k, (unsigned long long)evV(m, v.dbg));
					if (v.dbg.k == LIST) for (auto& e : v.dbg.n->ents) {
						i64 off; i64 id = addrObj(e.c, off);
						fprintf(stderr, "  %d: %llx %s %lld%s\n", ev(m, e.g), (unsigned long long)e.c, id >= 0 && id < (i64)objName.size() ? objName[id].c_str() : "?", (long long)off, e.off ? " +sym" : "");
					}
				}
				o << "\"msg\":" << js(v.msg) << ",\"fn\":" << js(v.fn) << ",\"line\":" << v.line << ",";
				break;
			}
			trace(o, m, last); o << ",";
		}
		// reachability witnesses
		if (status == "pass") {
			o << "\"reach\":{";
			vector<vector<u8>> models;
			bool first = true, sampled = false;
			string sample;
			for (auto& p : reach) {
				int x = -1;
				for (auto& mm : models) if (ev(mm, p.second)) { x = 1; break; }
				if (x < 0) {
					vector<u8> mm;
					x = solve(p.second, mm, Opt.timeout);
					if (x == 1) {
						models.push_back(mm);
						if (!sampled) { std::ostringstream q; trace(q, mm); sample = q.str(); sampled = true; }
					}
				}
				o << (first ? "" : ",") << js(p.first) << ":" << x; first = false;
			}
			o << "},";
			if (sampled) o << "\"sample\":{" << sample << "},";
		}
		u64 gates = 0, ins = 0;
		for (size_t i = 1; i < A.size(); ++i) if (A.b[i] == Aig::NONE) ++ins; else ++gates;
		for (auto& q : prof) fprintf(stderr, "PROF line %d result %d: %d calls %.2f s\n", q.first.first, q.first.second, q.second.first, q.second.second);
		struct rusage ru; getrusage(RUSAGE_SELF, &ru);
		o << "\"functions\":[";
		bool first = true;
		for (auto& x : executed) { o << (first ? "" : ",") << js(x); first = false; }
		o << "],\"stats\":{\"steps\":" << steps << ",\"merges\":" << merges << ",\"forks\":" << forks << ",\"pruned\":" << pruned
			<< ",\"undef_reads\":" << undefReads << ",\"vcs\":" << viols.size() << ",\"asserts\":" << asserts << ",\"inputs\":" << inputs.size() << ",\"input_bits\":" << ins << ",\"gates\":" << gates
			<< ",\"switch_points\":" << visibles << ",\"sat_checks\":" << sats << ",\"sat_time\":" << satTime
			<< ",\"queries\":" << queries << ",\"solve_time\":" << solveTime << ",\"max_clauses\":" << (u64)cnfMax << ",\"sym_time\":" << symT << ",\"mem_mb\":" << ru.ru_maxrss / 1024 << ",\"ended\":" << (e ? 1 : 0) << "},";
		o << "\"status\":" << js(status) << "}";
		std::ofstream of(out);
		of << o.str() << "\n";
		of.close();
		return status == "pass" ? 0 : status == "violation" ? 1 : 3;
	}
