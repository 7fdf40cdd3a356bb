#include "vx.h"
#include "mg/box/MultiConsumerQueue.h"

// A producer with a script (p - push, q - pending push, f - flush) and consumers with scripts
// (p - pop, a - attach, d - detach), all concurrently. INIT is done before them.
#define MAXI 8
static char theItem[MAXI];
static mg::box::MultiConsumerQueue<char>* theQ;
static mg::box::MultiConsumerQueueConsumer<char>* theC[3];
static const char* const theScripts[] = {SCRIPTS};
static unsigned thePushed, theVisible, theFlushed, theTime;
static unsigned thePopTime[MAXI];
static bool theGot[MAXI];
struct Null { unsigned flushed, end; };
static Null theNulls[12];
static unsigned theNullCount, theGotCount;
static void Produce(const char* s)
{
	for (; *s; ++s)
	{
		if (*s == 'p')
		{
			vx_hb_write(thePushed);
			theVisible = ++thePushed;
			theQ->Push(&theItem[thePushed - 1]);
			theFlushed = thePushed;
		}
		else if (*s == 'q')
		{
			vx_hb_write(thePushed);
			theVisible = thePushed; // the previous ones may be flushed
			theQ->PushPending(&theItem[thePushed++]);
		}
		else
		{
			theVisible = thePushed;
			theQ->FlushPending();
			theFlushed = thePushed;
		}
	}
}
static void Pop(unsigned k, int& last)
{
	unsigned flushed = theFlushed;
	unsigned start = ++theTime;
	char* p = theC[k]->Pop();
	if (p)
	{
		int id = (int)(p - theItem);
		vx_assert(id >= 0 && id < MAXI && (unsigned)id < theVisible, "popped what is not flushed");
		vx_assert(!theGot[id], "popped twice");
		theGot[id] = true;
		thePopTime[id] = start;
		vx_assert(id > last, "order of items");
		last = id;
		vx_assert(vx_hb_read(id), "data of the item is not visible");
		++theGotCount;
	}
	else
	{
		theNulls[theNullCount].flushed = flushed;
		theNulls[theNullCount].end = ++theTime;
		++theNullCount;
	}
}
static int theLast[3] = {-1, -1, -1};
static void Producer(void*) { Produce(theScripts[0]); }
static void Consumer(void* a)
{
	unsigned k = (unsigned)(size_t)a;
	for (const char* s = theScripts[k]; *s; ++s)
	{
		if (*s == 'p') Pop(k, theLast[k]);
		else if (*s == 'a') theC[k]->Attach(theQ);
		else theC[k]->Detach();
	}
}
extern "C" void vx_main()
{
	vx_hb_on();
	theQ = new mg::box::MultiConsumerQueue<char>(SUB);
	for (unsigned k = 1; k <= CONS; ++k)
	{
		theC[k] = new mg::box::MultiConsumerQueueConsumer<char>();
		if (theScripts[k][0] != 'a') theC[k]->Attach(theQ);
	}
	for (const char* s = INIT; *s; ++s)
	{
		if (*s >= '1' && *s <= '2') Pop(*s - '0', theLast[*s - '0']);
		else { char x[2] = {*s, 0}; Produce(x); }
	}
	vx_thread(Producer, nullptr);
	for (unsigned k = 1; k <= CONS; ++k) vx_thread(Consumer, (void*)(size_t)k);
	vx_run(ROUNDS);
	vx_assert(!vx_deadlock(), "deadlock");
	for (unsigned k = 0; k <= CONS; ++k) vx_assume(vx_finished(k));
	for (unsigned i = 0; i < theNullCount; ++i)
		for (unsigned j = 0; j < MAXI; ++j)
			if (j < theNulls[i].flushed)
				vx_assert(theGot[j] && thePopTime[j] < theNulls[i].end, "nothing is popped while there was an item");
	unsigned got = theGotCount;
	vx_assert(theQ->Count() == theFlushed - got, "count in the end");
	if (theNullCount > 0 && got > 0) vx_reach("middle");
	// The rest.
	Produce("f");
	for (unsigned k = 2; k <= CONS; ++k) theC[k]->Detach();
	int last = -1;
	if (CONS >= 1)
	{
		theC[1]->Detach();
		theC[1]->Attach(theQ);
	}
	for (unsigned i = 0; i < MAXI; ++i)
		if (i < thePushed && !theGot[i])
			vx_assert(theC[1]->Pop() == &theItem[i], "an item is lost or out of order");
	vx_assert(theC[1]->Pop() == nullptr, "an extra item");
	vx_assert(theQ->Count() == 0, "count of an empty queue");
	for (unsigned k = 1; k <= CONS; ++k) delete theC[k];
	delete theQ;
	vx_assert(vx_live_allocs() == 0, "leaked");
	vx_reach("end");
}
