#include "vx.h"
#include "mg/box/DoublyList.h"

// Histories of NOPS symbolic operations over 2 lists and NITEMS items against a plain sequence.
struct Item { int myValue; Item* myNext; Item* myPrev; };
using List = mg::box::DoublyList<Item>;

static Item* theItems[NITEMS];
static bool theUsed[NITEMS];
struct Ref
{
	unsigned myLen = 0;
	unsigned char mySeq[NITEMS];
};
static Ref theRef[2];

static void Check(List* l, Ref* r)
{
	vx_assert(l->IsEmpty() == (r->myLen == 0), "emptiness");
	unsigned n = 0;
	for (Item* i : *l)
	{
		vx_assert(n < r->myLen, "too many items");
		vx_assert(i == theItems[r->mySeq[n]], "wrong item");
		++n;
	}
	vx_assert(n == r->myLen, "item lost");
	const List* cl = l;
	n = 0;
	for (const Item* i : *cl)
	{
		vx_assert(n < r->myLen && i == theItems[r->mySeq[n]], "wrong item, const iteration");
		++n;
	}
	vx_assert(n == r->myLen, "item lost, const iteration");
	n = 0;
	for (Item* i = l->GetLast(); i != nullptr; i = i->myPrev)
	{
		vx_assert(n < r->myLen, "too many items backwards");
		vx_assert(i == theItems[r->mySeq[r->myLen - 1 - n]], "wrong item backwards");
		++n;
	}
	vx_assert(n == r->myLen, "item lost backwards");
	vx_assert(l->GetFirst() == (n == 0 ? nullptr : theItems[r->mySeq[0]]), "first");
}
static void RefAppend(Ref* d, Ref* s)
{
	for (unsigned i = 0; i < NITEMS; ++i)
		if (i < s->myLen)
			d->mySeq[d->myLen++] = s->mySeq[i];
	s->myLen = 0;
}
static void RefPrepend(Ref* d, Ref* s)
{
	RefAppend(s, d);
	Ref t = *s; *s = *d; *d = t;
}
static void RefRemove(Ref* r, unsigned pos)
{
	theUsed[r->mySeq[pos]] = false;
	for (unsigned k = 0; k + 1 < NITEMS; ++k)
		if (k >= pos)
			r->mySeq[k] = r->mySeq[k + 1];
	--r->myLen;
}
static void Gone(Item* i)
{
	vx_assert(i->myNext == nullptr && i->myPrev == nullptr, "links of a removed item");
}

extern "C" void vx_main()
{
	for (unsigned i = 0; i < NITEMS; ++i) theItems[i] = new Item();
	List a, b;
	List* ls[2] = {&a, &b};
	for (int step = 0; step < NOPS; ++step)
	{
		unsigned op = vx_range(0, 11);
		unsigned li = vx_range(0, 1);
		List* l = ls[li];
		List* o = ls[1 - li];
		Ref* r = &theRef[li];
		Ref* ro = &theRef[1 - li];
		unsigned it = vx_range(0, NITEMS - 1);
		if (op <= 1)
		{
			vx_assume(!theUsed[it]);
			theUsed[it] = true;
			Ref one;
			one.myLen = 1;
			one.mySeq[0] = it;
			if (op == 0)
			{
				l->Append(theItems[it]);
				RefAppend(r, &one);
			}
			else
			{
				l->Prepend(theItems[it]);
				RefPrepend(r, &one);
			}
		}
		else if (op == 2)
		{
			vx_assume(it < r->myLen);
			Item* i = theItems[r->mySeq[it]];
			l->Remove(i);
			Gone(i);
			RefRemove(r, it);
		}
		else if (op == 3)
		{
			vx_assume(r->myLen > 0);
			Item* i = l->PopFirst();
			vx_assert(i == theItems[r->mySeq[0]], "popped first");
			Gone(i);
			RefRemove(r, 0);
		}
		else if (op == 4)
		{
			vx_assume(r->myLen > 0);
			Item* i = l->PopLast();
			vx_assert(i == theItems[r->mySeq[r->myLen - 1]], "popped last");
			Gone(i);
			RefRemove(r, r->myLen - 1);
		}
		else if (op == 5)
		{
			l->Append(static_cast<List&&>(*o));
			RefAppend(r, ro);
		}
		else if (op == 6)
		{
			l->Prepend(static_cast<List&&>(*o));
			RefPrepend(r, ro);
		}
		else if (op == 7)
		{
			*l = static_cast<List&&>(*o);
			for (unsigned i = 0; i < NITEMS; ++i)
				if (i < r->myLen)
					theUsed[r->mySeq[i]] = false;
			*r = *ro;
			ro->myLen = 0;
		}
		else if (op == 8)
		{
			l->Reverse();
			for (unsigned i = 0; i < NITEMS / 2; ++i)
				if (i < r->myLen / 2)
				{
					unsigned char t = r->mySeq[i];
					r->mySeq[i] = r->mySeq[r->myLen - 1 - i];
					r->mySeq[r->myLen - 1 - i] = t;
				}
		}
		else if (op == 9)
		{
			List tmp(static_cast<List&&>(*l));
			tmp.Append(static_cast<List&&>(*o));
			vx_assert(l->IsEmpty() && o->IsEmpty(), "moved from is empty");
			RefAppend(r, ro);
			*l = static_cast<List&&>(tmp);
		}
		else if (op == 10)
		{
			Item* last;
			Item* first;
			if (it == 0)
			{
				last = l->GetLast();
				first = l->PopAll();
			}
			else
				first = l->PopAll(last);
			vx_assert(first == (r->myLen > 0 ? theItems[r->mySeq[0]] : nullptr), "PopAll first");
			vx_assert(l->IsEmpty() && l->GetLast() == nullptr, "PopAll empties");
			if (r->myLen > 0)
				vx_assert(last == theItems[r->mySeq[r->myLen - 1]], "PopAll last");
			if (vx_bool())
			{
				o->Append(first, last);
				RefAppend(ro, r);
			}
			else
			{
				o->Prepend(first, last);
				RefPrepend(ro, r);
			}
		}
		else
		{
			// Construction out of a chain.
			Item* last;
			Item* first = l->PopAll(last);
			List tmp(first, last);
			*l = static_cast<List&&>(tmp);
			o->Clear();
			for (unsigned i = 0; i < NITEMS; ++i)
				if (i < ro->myLen)
					theUsed[ro->mySeq[i]] = false;
			ro->myLen = 0;
		}
		Check(&a, &theRef[0]);
		Check(&b, &theRef[1]);
	}
	vx_reach("end");
}
