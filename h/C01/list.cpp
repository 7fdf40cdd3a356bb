#include "vx.h"
#include "mg/box/ForwardList.h"

// Histories of NOPS symbolic operations over 2 lists and NITEMS items against a plain sequence.
#ifndef NOPS
#define NOPS 4
#endif
#ifndef NITEMS
#define NITEMS 3
#endif

struct Item { int myValue; Item* myNext; };
using List = mg::box::ForwardList<Item>;

static Item* theItems[NITEMS];
static bool theUsed[NITEMS];
struct Ref
{
	unsigned myLen = 0;
	unsigned char mySeq[NITEMS];
};
static Ref theRef[2];

static void Check(List* l, Ref* r)
{
	vx_assert(l->IsEmpty() == (r->myLen == 0), "emptiness");
	unsigned n = 0;
	for (Item* i : *l)
	{
		vx_assert(n < r->myLen, "too many items");
		vx_assert(i == theItems[r->mySeq[n]], "wrong item");
		++n;
	}
	vx_assert(n == r->myLen, "item lost");
	if (n == 0)
	{
		vx_assert(l->GetFirst() == nullptr, "first of empty");
		vx_assert(l->GetLast() == nullptr, "last of empty");
	}
	else
	{
		vx_assert(l->GetFirst() == theItems[r->mySeq[0]], "first");
		vx_assert(l->GetLast() == theItems[r->mySeq[n - 1]], "last");
	}
}
static void RefAppend(Ref* d, Ref* s)
{
	for (unsigned i = 0; i < NITEMS; ++i)
		if (i < s->myLen)
			d->mySeq[d->myLen++] = s->mySeq[i];
	s->myLen = 0;
}

extern "C" void vx_main()
{
	for (unsigned i = 0; i < NITEMS; ++i) theItems[i] = new Item();
	List a, b;
	List* ls[2] = {&a, &b};
	for (int step = 0; step < NOPS; ++step)
	{
		unsigned op = vx_range(0, 9);
		unsigned li = vx_range(0, 1);
		List* l = ls[li];
		List* o = ls[1 - li];
		Ref* r = &theRef[li];
		Ref* ro = &theRef[1 - li];
		unsigned it = vx_range(0, NITEMS - 1);
		if (op <= 2)
		{
			vx_assume(!theUsed[it]);
			theUsed[it] = true;
			unsigned pos = 0;
			if (op == 0)
			{
				l->Append(theItems[it]);
				pos = r->myLen;
			}
			else if (op == 1)
			{
				l->Prepend(theItems[it]);
				pos = 0;
			}
			else
			{
				vx_assume(r->myLen > 0);
				unsigned p = vx_range(0, NITEMS - 1);
				vx_assume(p < r->myLen);
				l->Insert(theItems[r->mySeq[p]], theItems[it]);
				pos = p + 1;
			}
			for (unsigned i = NITEMS - 1; i > 0; --i)
				if (i > pos && i <= r->myLen)
					r->mySeq[i] = r->mySeq[i - 1];
			r->mySeq[pos] = it;
			++r->myLen;
		}
		else if (op == 3)
		{
			vx_assume(r->myLen > 0);
			Item* i = l->PopFirst();
			vx_assert(i == theItems[r->mySeq[0]], "popped item");
			theUsed[r->mySeq[0]] = false;
			for (unsigned k = 0; k + 1 < NITEMS; ++k)
				r->mySeq[k] = r->mySeq[k + 1];
			--r->myLen;
		}
		else if (op == 4)
		{
			l->Append(static_cast<List&&>(*o));
			RefAppend(r, ro);
		}
		else if (op == 5)
		{
			l->Prepend(static_cast<List&&>(*o));
			RefAppend(ro, r);
			Ref t = *ro; *ro = *r; *r = t;
		}
		else if (op == 6)
		{
			*l = static_cast<List&&>(*o);
			for (unsigned i = 0; i < NITEMS; ++i)
				if (i < r->myLen)
					theUsed[r->mySeq[i]] = false;
			*r = *ro;
			ro->myLen = 0;
		}
		else if (op == 7)
		{
			l->Reverse();
			for (unsigned i = 0; i < NITEMS / 2; ++i)
				if (i < r->myLen / 2)
				{
					unsigned char t = r->mySeq[i];
					r->mySeq[i] = r->mySeq[r->myLen - 1 - i];
					r->mySeq[r->myLen - 1 - i] = t;
				}
		}
		else if (op == 8)
		{
			List tmp(static_cast<List&&>(*l));
			tmp.Append(static_cast<List&&>(*o));
			vx_assert(l->IsEmpty() && o->IsEmpty(), "moved from is empty");
			RefAppend(r, ro);
			*l = static_cast<List&&>(tmp);
		}
		else
		{
			Item* last;
			Item* first = l->PopAll(last);
			if (r->myLen > 0)
			{
				vx_assert(first == theItems[r->mySeq[0]], "PopAll first");
				vx_assert(last == theItems[r->mySeq[r->myLen - 1]], "PopAll last");
				vx_assert(l->IsEmpty(), "PopAll empties");
				o->Append(first, last);
			}
			else
				vx_assert(first == nullptr, "PopAll of empty");
			RefAppend(ro, r);
		}
		Check(&a, &theRef[0]);
		Check(&b, &theRef[1]);
	}
	vx_reach("end");
}
