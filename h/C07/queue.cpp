#include "vx.h"
#include "mg/box/MultiProducerQueueIntrusive.h"

// PROD producers with scripts of pushes (SCRIPT: one digit per operation, 1..3 items each) and a
// consumer popping POPS times concurrently, the rest is popped in the end.
#ifndef PROD
#define PROD 2
#endif
#ifndef REVERSED
#define REVERSED 0
#endif
struct Item { Item* myNext; unsigned myId, myProd, mySeq; };
static mg::box::MultiProducerQueueIntrusive<Item> theQueue;
static const char* const theScripts[3] = {SCRIPTS};
static Item theItems[3][6];
static unsigned theCount[3], theFirst, thePopped;
static int theLast[3] = {-1, -1, -1};
static bool theGot[3][6];

static void Producer(void* aArg)
{
	unsigned p = (unsigned)(size_t)aArg;
	unsigned seq = 0;
	for (const char* s = theScripts[p]; *s != 0; ++s)
	{
		unsigned n = (*s - '0') % 4; // 1..3 items
		unsigned how = (*s - '0') / 4;
		Item* first = nullptr;
		Item* last = nullptr;
		// The chain is built in the order of pushing, the reversed calls get the reversed one.
		for (unsigned i = 0; i < n; ++i)
		{
			Item* it = &theItems[p][seq];
			it->myId = p * 6 + seq;
			it->myProd = p;
			it->mySeq = seq++;
			it->myNext = nullptr;
			vx_hb_write(it->myId);
			if (how == 0)
			{
				if (last) last->myNext = it; else first = it;
				last = it;
			}
			else
			{
				it->myNext = first;
				if (!first) last = it;
				first = it;
			}
		}
		bool wasEmpty;
		if (how == 0)
			wasEmpty = n == 1 ? theQueue.Push(first) : theQueue.PushMany(first);
		else if (how == 1)
			wasEmpty = theQueue.PushManyFastReversed(first, last);
		else
			wasEmpty = theQueue.PushManyFastReversed(first);
		vx_atomic_begin();
		theFirst += wasEmpty;
		vx_atomic_end();
	}
	theCount[p] = seq;
}
static unsigned theBursts;
static void Pop()
{
	Item* tail = nullptr;
#if REVERSED
	Item* it = theQueue.PopAllFastReversed();
#else
	Item* it = theQueue.PopAll(tail);
	vx_assert((it == nullptr) == (tail == nullptr), "tail of an empty list");
#endif
	if (it) ++theBursts;
	int rlast[3] = {100, 100, 100};
	int max[3] = {-1, -1, -1};
	while (it)
	{
		vx_assert(!theGot[it->myProd][it->mySeq], "popped twice");
		theGot[it->myProd][it->mySeq] = true;
		vx_assert(vx_hb_read(it->myId), "data of the item is not visible");
		int p = it->myProd, q = it->mySeq;
#if REVERSED
		vx_assert(q < rlast[p], "order");
		vx_assert(q > theLast[p], "order of pops");
		if (max[p] < q) max[p] = q;
		rlast[p] = q;
#else
		vx_assert(q > theLast[p], "order");
		theLast[p] = q;
		if (!it->myNext) vx_assert(it == tail, "tail");
#endif
		++thePopped;
		it = it->myNext;
	}
#if REVERSED
	for (int p = 0; p < 3; ++p) if (max[p] >= 0) theLast[p] = max[p];
#endif
}
static void Consumer(void*)
{
	for (int i = 0; i < POPS; ++i)
	{
#if WITHEMPTY
		if (theQueue.IsEmpty()) continue;
		unsigned before = thePopped;
		Pop();
		vx_assert(thePopped > before, "not empty, but nothing is popped by the only consumer");
#else
		Pop();
#endif
	}
}
extern "C" void vx_main()
{
	vx_hb_on();
	for (unsigned i = 0; i < PROD; ++i) vx_thread(Producer, (void*)(size_t)i);
	vx_thread(Consumer, nullptr);
	vx_run(ROUNDS);
	bool all = true;
	for (unsigned i = 0; i <= PROD; ++i) all &= vx_finished(i);
	vx_assume(all);
	unsigned before = thePopped, total = 0;
	Pop();
	for (unsigned i = 0; i < PROD; ++i) total += theCount[i];
	vx_assert(thePopped == total, "an item is lost");
	vx_assert(theQueue.IsEmpty() && theQueue.PopAll() == nullptr, "not empty in the end");
	vx_assert(theFirst == theBursts, "wrong number of reports of being the first");
	vx_reach("end");
	if (before > 0 && before < total) vx_reach("middle");
}
