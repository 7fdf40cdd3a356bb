#include "vx.h"
#include "mg/box/MultiConsumerQueue.h"

// Histories of one thread over 2 consumers, sub-queues of SUB items. OPS: kinds of operations,
// -1 is any kind.
#define MAXI 16
static const int theOps[] = {OPS};
static char theItem[MAXI];
static unsigned thePushed, theFlushed, thePopped;
extern "C" void vx_main()
{
	{
		mg::box::MultiConsumerQueue<char> q(SUB);
		mg::box::MultiConsumerQueueConsumer<char> c0(&q);
		mg::box::MultiConsumerQueueConsumer<char> c1;
		bool attached[2] = {true, false};
		unsigned cap = SUB; // how many items may be stored without new sub-queues
		for (int op : theOps)
		{
			if (op < 0) op = vx_range(0, 7);
			unsigned left = theFlushed - thePopped;
			if (op == 0)
			{
				vx_assume(thePushed < MAXI);
				bool r = q.Push(&theItem[thePushed++]);
				theFlushed = thePushed;
				vx_assert(r == (left == 0), "push: became not empty");
			}
			else if (op == 1)
			{
				vx_assume(thePushed < MAXI);
				bool r = q.PushPending(&theItem[thePushed++]);
				// May flush what was pending before.
				unsigned count = q.Count();
				vx_assert(count == left || count == thePushed - 1 - thePopped, "what a pending push flushes");
				vx_assert(r == (left == 0 && count != 0), "pending push: became not empty");
				theFlushed = thePopped + count;
			}
			else if (op == 2)
			{
				bool r = q.FlushPending();
				theFlushed = thePushed;
				vx_assert(r == (left == 0 && theFlushed != thePopped), "flush: became not empty");
			}
			else if (op == 3 || op == 4)
			{
				vx_assume(attached[op - 3]);
				char* p = op == 3 ? c0.Pop() : c1.Pop();
				if (left == 0)
					vx_assert(p == nullptr, "popped from an empty queue");
				else
				{
					vx_assert(p == &theItem[thePopped], "wrong item or nothing is popped");
					++thePopped;
				}
			}
			else if (op == 5 || op == 6)
			{
				auto& c = op == 5 ? c0 : c1;
				if (attached[op - 5]) c.Detach(); else c.Attach(&q);
				attached[op - 5] = !attached[op - 5];
			}
			else
			{
				unsigned n = vx_range(0, 2 * SUB + 1);
				q.Reserve(n);
				vx_assert(q.SubQueueCount() * SUB >= n, "reserved");
			}
			vx_assert(q.Count() == theFlushed - thePopped, "count");
			vx_assert(q.ConsumerCount() == (unsigned)attached[0] + attached[1], "consumer count");
		}
		if (theFlushed > thePopped) vx_reach("not empty");
		// Drain by a random consumer.
		q.FlushPending();
#if RECYCLE
		c1.Detach();
		if (!attached[0]) c0.Attach(&q);
		while (thePopped < thePushed)
			vx_assert(c0.Pop() == &theItem[thePopped++], "drain by the only consumer");
		unsigned before = q.SubQueueCount();
		if (before < 2) before = 2;
		for (int i = 0; i < SUB * 2 + 1; ++i)
		{
			q.Push(&theItem[i]);
			vx_assert(c0.Pop() == &theItem[i], "one by one");
			vx_assert(q.SubQueueCount() <= before, "consumed storage is not reused");
		}
#else
		if (vx_bool())
		{
			if (!attached[0]) c0.Attach(&q);
			while (thePopped < thePushed)
				vx_assert(c0.Pop() == &theItem[thePopped++], "drain by the first");
			vx_assert(c0.Pop() == nullptr, "extra item");
		}
		else
		{
			if (!attached[1]) c1.Attach(&q);
			while (thePopped < thePushed)
				vx_assert(c1.Pop() == &theItem[thePopped++], "drain by the second");
			vx_assert(c1.Pop() == nullptr, "extra item");
		}
#endif
		c0.Detach();
		c1.Detach();
		vx_reach("end");
	}
	vx_assert(vx_live_allocs() == 0, "leaked");
}
