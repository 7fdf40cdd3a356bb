#include "vx.h"
#include "mg/box/BinaryHeap.h"

// Any heap of N elements with any keys (every heap-ordered array is reachable by pushing it in the
// order of its positions), then the operations OPS with any arguments, then everything is popped.
struct Item
{
	uint8_t myKey;
	int32_t myIndex;
	uint8_t myId;
	bool operator<=(const Item& o) const { return myKey <= o.myKey; }
	bool operator>=(const Item& o) const { return myKey >= o.myKey; }
};
#define CAP (N + NOPS)
#if VARIANT == 0
using Heap = mg::box::BinaryHeapMinIntrusive<Item>;
#elif VARIANT == 1
using Heap = mg::box::BinaryHeapMaxIntrusive<Item>;
#elif VARIANT == 2
using Heap = mg::box::BinaryHeapMinPtr<Item>;
#elif VARIANT == 3
using Heap = mg::box::BinaryHeapMaxPtr<Item>;
#elif VARIANT == 4
using Heap = mg::box::BinaryHeapMin<Item>;
#else
using Heap = mg::box::BinaryHeapMax<Item>;
#endif
#define IS_MIN (VARIANT % 2 == 0)
#define IS_INTRUSIVE (VARIANT <= 1)
#define IS_PTR (VARIANT <= 3)

static Item theItems[CAP];
static bool theIn[CAP];
static unsigned theCount;
static uint8_t theKeys[CAP];

#if IS_PTR
static Item* Of(unsigned i) { return &theItems[i]; }
static unsigned Id(Item* i) { return i->myId; }
static unsigned Key(Item* i) { return i->myKey; }
#else
static Item Of(unsigned i) { return theItems[i]; }
static unsigned Id(const Item& i) { return i.myId; }
static unsigned Key(const Item& i) { return i.myKey; }
#endif
static bool Above(unsigned a, unsigned b) { return IS_MIN ? a <= b : a >= b; }

static void Push(Heap& h, unsigned i)
{
	h.Push(Of(i));
	theIn[i] = true;
	++theCount;
}
static void Gone(unsigned i)
{
	vx_assert(i < CAP && theIn[i], "an item which is not in the heap came out");
	theIn[i] = false;
	--theCount;
	if (IS_INTRUSIVE)
		vx_assert(theItems[i].myIndex == -1, "removed item keeps an index");
}
static void Check(Heap& h)
{
	vx_assert(h.Count() == theCount, "count");
	if (theCount == 0)
		return;
	vx_assert(Id(h.GetTop()) < CAP && theIn[Id(h.GetTop())], "the top is not in the heap");
	vx_assert(Key(h.GetTop()) == theKeys[Id(h.GetTop())], "key of the top");
	for (unsigned i = 0; i < CAP; ++i)
		if (theIn[i])
		{
			vx_assert(Above(Key(h.GetTop()), theKeys[i]), "the top is not the best");
			if (IS_INTRUSIVE)
			{
				vx_assert(theItems[i].myIndex >= 0 && theItems[i].myIndex < (int)theCount, "index of an item in the heap");
				for (unsigned j = 0; j < i; ++j)
					vx_assert(!theIn[j] || theItems[i].myIndex != theItems[j].myIndex, "same index twice");
			}
		}
}

extern "C" void vx_main()
{
	Heap h;
	if (N % 2 == 0)
	{
		h.Reserve(N);
		vx_assert(h.GetCapacity() >= N, "reserve");
	}
	for (unsigned i = 0; i < CAP; ++i)
	{
		theItems[i].myKey = theKeys[i] = vx_u8();
		theItems[i].myId = i;
		theItems[i].myIndex = -1;
	}
	for (unsigned i = 0; i < N; ++i)
	{
#if ORDERED
		if (i > 0)
			vx_assume(Above(theKeys[(i - 1) / 2], theKeys[i]));
#endif
		Push(h, i);
	}
	Check(h);
	for (unsigned s = 0; s < NOPS; ++s)
	{
		static const unsigned ops[] = {OPS};
		unsigned op = ops[s];
		if (op == 0)
			Push(h, N + s); // any key
		else if (op == 1)
		{
#if IS_PTR
			Item* out = nullptr;
#else
			Item out{};
#endif
			bool had = theCount != 0;
			unsigned best = had ? Key(h.GetTop()) : 0;
			vx_assert(h.Pop(out) == had, "pop result");
			if (had)
			{
				vx_assert(Key(out) == best, "popped is not the top");
				Gone(Id(out));
			}
		}
		else if (op == 2)
		{
			bool had = theCount != 0;
			unsigned id = had ? Id(h.GetTop()) : 0;
			vx_assert(h.RemoveTop() == had, "remove top result");
			if (had)
				Gone(id);
		}
		else if (op == 3)
		{
			// The top may get worse.
			vx_assume(theCount > 0);
			unsigned id = Id(h.GetTop());
			uint8_t k = vx_u8();
			vx_assume(Above(theKeys[id], k));
#if IS_PTR
			h.GetTop()->myKey = k;
#else
			h.GetTop().myKey = k;
#endif
			theKeys[id] = k;
			h.UpdateTop();
		}
#if IS_INTRUSIVE
		else
		{
			unsigned id = vx_range(0, CAP - 1);
			vx_assume(theIn[id]);
			if (op == 4)
			{
				theItems[id].myKey = theKeys[id] = vx_u8();
				h.Update(&theItems[id]);
			}
			else
			{
				h.Remove(&theItems[id]);
				Gone(id);
			}
		}
#endif
		Check(h);
	}
	unsigned last = 0;
	for (unsigned i = 0; i < CAP; ++i)
	{
#if IS_PTR
		Item* out = nullptr;
#else
		Item out{};
#endif
		if (!h.Pop(out))
			break;
		vx_assert(i == 0 || Above(last, Key(out)), "popped out of order");
		last = Key(out);
		Gone(Id(out));
	}
	vx_assert(theCount == 0, "elements lost");
	vx_assert(h.Count() == 0, "not empty at the end");
	vx_reach("end");
}
