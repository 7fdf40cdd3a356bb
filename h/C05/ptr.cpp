#include "vx.h"
#include "mg/box/SharedPtr.h"

// Histories of operations over pointer slots (3 plain ones, 1 of the base type, 1 inside each object)
// against plain bookkeeping of who refers to whom.
#define NOBJ 3
#define NONE 255
static unsigned theDestroyed[NOBJ];

class Base
{
	SHARED_PTR_API(Base, myRef)
protected:
	Base(unsigned aId) : myId(aId) {}
	virtual ~Base() { ++theDestroyed[myId]; }
public:
	unsigned RefCount() const { return myRef.Get(); }
	unsigned myId;
private:
	mg::box::RefCount myRef;
};
class Node final : public Base
{
	SHARED_PTR_RENEW_API(Node)
public:
	Node(unsigned aId) : Base(aId) {}
private:
	~Node() override = default;
public:
	Ptr myNext;
};

static Node* theObj[NOBJ];
static unsigned theMade;
static unsigned char theVal[3], theBase = NONE, theNext[NOBJ];
static bool theAlive[NOBJ];

static void Update()
{
	for (int o = NOBJ - 1; o >= 0; --o)
	{
		bool a = theBase == o || theVal[0] == o || theVal[1] == o || theVal[2] == o;
		for (int x = o + 1; x < NOBJ; ++x)
			a |= theAlive[x] && theNext[x] == o;
		theAlive[o] = a;
		if (!a)
			theNext[o] = NONE;
	}
}
static void Check(Node::Ptr* p, Base::Ptr& b)
{
	for (unsigned i = 0; i < 3; ++i)
		vx_assert(p[i].GetPointer() == (theVal[i] == NONE ? nullptr : theObj[theVal[i]]), "a pointer points at a wrong object");
	vx_assert(b.GetPointer() == (theBase == NONE ? nullptr : (Base*)theObj[theBase]), "the base pointer");
	vx_assert(b.IsSet() == (theBase != NONE) && (b == nullptr) == (theBase == NONE), "being set");
	vx_assert((p[0] == p[1]) == (theVal[0] == theVal[1]), "equality");
	vx_assert((p[0] != p[1]) == (theVal[0] != theVal[1]), "inequality");
	for (unsigned o = 0; o < NOBJ; ++o)
		if (o < theMade)
		{
			vx_assert(theDestroyed[o] <= 1, "destroyed twice");
			vx_assert(!theAlive[o] || theDestroyed[o] == 0, "destroyed while being referenced");
			vx_assert(theAlive[o] || theDestroyed[o] == 1, "not destroyed after the last owner");
			if (theAlive[o])
			{
				unsigned n = theBase == o;
				for (unsigned i = 0; i < 3; ++i) n += theVal[i] == o;
				for (unsigned x = 0; x < NOBJ; ++x) n += theAlive[x] && theNext[x] == o;
				vx_assert(theObj[o]->RefCount() == n, "reference count");
				vx_assert(theObj[o]->myNext.GetPointer() == (theNext[o] == NONE ? nullptr : theObj[theNext[o]]), "inner pointer");
			}
		}
}

extern "C" void vx_main()
{
	for (unsigned i = 0; i < 3; ++i) theVal[i] = theNext[i] = NONE;
	{
		Node::Ptr p[3];
		Base::Ptr b;
		for (int step = 0; step < NOPS; ++step)
		{
			unsigned op = vx_range(0, 15);
			// Source and destination slots.
			unsigned di = vx_range(0, 3 + NOBJ - 1);
			unsigned si = vx_range(0, 3 + NOBJ - 1);
			vx_assume(di < 3 || theAlive[di - 3]);
			vx_assume(si < 3 || theAlive[si - 3]);
			Node::Ptr& d = di < 3 ? p[di] : theObj[di - 3]->myNext;
			Node::Ptr& s = si < 3 ? p[si] : theObj[si - 3]->myNext;
			unsigned char* dv = di < 3 ? &theVal[di] : &theNext[di - 3];
			unsigned char* sv = si < 3 ? &theVal[si] : &theNext[si - 3];
			unsigned char val = *sv;
			bool ok = di < 3 || val == NONE || val < di - 3; // no cycles
			if (op == 0)
			{
				vx_assume(di < 3 && theMade < NOBJ);
				Node* n = new Node(theMade); // 1 reference
				theObj[theMade] = n;
				*dv = theMade++;
				d = Node::Ptr::Wrap(n);
			}
			else if (op == 1)
			{
				vx_assume(di < 3 && theMade < NOBJ);
				Node::Ptr t = Node::NewShared(theMade);
				theObj[theMade] = t.GetPointer();
				*dv = theMade++;
				d = t;
			}
			else if (op == 2)
			{
				vx_assume(ok);
				*dv = val;
				d = s;
			}
			else if (op == 3)
			{
				vx_assume(ok);
				if (di != si)
				{
					*sv = NONE;
					*dv = val;
				}
				d = static_cast<Node::Ptr&&>(s);
				if (di == si)
					vx_assume(val == NONE || d.GetPointer() == theObj[val]); // self-move may also clear
			}
			else if (op == 4)
			{
				vx_assume(ok);
				*dv = val;
				Node::Ptr t(s);
				vx_assert(t == s, "copy");
				d = t;
			}
			else if (op == 5)
			{
				vx_assume(ok);
				*sv = NONE;
				*dv = val;
				Node::Ptr t(static_cast<Node::Ptr&&>(s));
				vx_assert(!s.IsSet(), "source of a move construction");
				d = static_cast<Node::Ptr&&>(t);
				vx_assert(!t.IsSet(), "source of a move assignment");
			}
			else if (op == 6)
			{
				vx_assume(ok);
				*dv = val;
				d.Set(s.GetPointer());
			}
			else if (op == 7)
			{
				*dv = NONE;
				d.Clear();
			}
			else if (op == 8)
			{
				vx_assume(ok);
				*sv = NONE;
				*dv = val;
				Node* raw = s.Unwrap();
				d = Node::Ptr::Wrap(raw);
			}
			else if (op == 9)
			{
				vx_assume(ok);
				*dv = val;
				Node::Ptr t(s.GetPointer());
				d = static_cast<Node::Ptr&&>(t);
			}
			else if (op == 10)
			{
				theBase = val;
				b = s;
			}
			else if (op == 11)
			{
				theBase = val;
				*sv = NONE;
				b = static_cast<Node::Ptr&&>(s);
			}
			else if (op == 12)
			{
				theBase = val;
				Base::Ptr t(s);
				vx_assert(t == s, "copy into base");
				b = static_cast<Base::Ptr&&>(t);
			}
			else if (op == 13)
			{
				theBase = val;
				*sv = NONE;
				Base::Ptr t(static_cast<Node::Ptr&&>(s));
				vx_assert(!s.IsSet(), "source of a move construction");
				b = t;
			}
			else if (op == 14)
			{
				*dv = NONE;
				d.Set(nullptr);
			}
			else
			{
				theBase = NONE;
				b.Clear();
			}
			Update();
			Check(p, b);
		}
		vx_reach("middle");
	}
	for (unsigned o = 0; o < theMade && o < NOBJ; ++o)
		vx_assert(theDestroyed[o] == 1, "leaked or destroyed twice in the end");
	vx_assert(vx_live_allocs() == 0, "memory leaked");
	vx_reach("end");
}
