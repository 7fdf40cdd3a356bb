#include "vx.h"
#include "mg/box/InterruptibleMutex.h"

// Threads with scripts: L - lock with a wakeup, T - try to lock, W - try to lock and wait for the
// wakeup under the lock. The first owner may be taken before the start (O in the thread's script).
static const char* const theScripts[] = {SCRIPTS};
static mg::box::InterruptibleMutex* theMu;
static mg::box::Signal* theSig;
static unsigned theInside, theEvents, theLocked, theWanted;
static bool theSleeps[THREADS];

static void Critical()
{
	vx_assert(++theInside == 1, "two threads are inside");
	unsigned seen = theEvents;
	for (unsigned i = 0; i < 10; ++i)
		if (i < seen)
			vx_assert(vx_hb_read(i), "what was done under the lock is not visible to the next owner");
	if (seen >= 10) vx_fail("bounds of the harness");
	vx_hb_write(seen);
	theEvents = seen + 1;
	++theLocked;
}
static void Leave()
{
	vx_visible(); // somebody else may try to come in
	vx_assert(--theInside == 0, "two threads are inside");
	theMu->Unlock();
}
static void Sleep(unsigned k)
{
	theSleeps[k] = true;
	theSig->ReceiveBlocking();
	theSleeps[k] = false;
}
static void Run(void* a)
{
	unsigned k = (unsigned)(size_t)a;
	for (const char* s = theScripts[k]; *s; ++s)
	{
		if (*s == 'L')
		{
			vx_atomic_begin();
			++theWanted;
			vx_atomic_end();
			theMu->Lock([]() { theSig->Send(); });
			Critical();
			Leave();
			vx_atomic_begin();
			--theWanted;
			vx_atomic_end();
		}
		else if (*s == 'O')
		{
			Sleep(k);
			Leave();
		}
		else if (theMu->TryLock())
		{
			Critical();
			if (*s == 'W') Sleep(k);
			Leave();
		}
		else
			vx_reach("failed");
	}
}
extern "C" void vx_main()
{
	vx_hb_on();
	theMu = new mg::box::InterruptibleMutex();
	theSig = new mg::box::Signal();
	for (unsigned k = 0; k < THREADS; ++k)
	{
		if (theScripts[k][0] == 'O')
		{
			vx_assert(theMu->TryLock(), "a free mutex is not locked");
			Critical();
		}
		vx_thread(Run, (void*)(size_t)k);
	}
	vx_run(ROUNDS);
	if (vx_deadlock())
	{
		vx_assert(theWanted == 0, "a waiter is never let in");
		bool sleep = false;
		for (unsigned k = 0; k < THREADS; ++k) sleep |= theSleeps[k];
		vx_assert(sleep, "deadlock");
		vx_reach("sleeps");
		return;
	}
	for (unsigned k = 0; k < THREADS; ++k) vx_assume(vx_finished(k));
	vx_assert(theInside == 0, "somebody is inside");
	vx_assert(theMu->TryLock(), "the mutex is locked after the last unlock");
	theMu->Unlock();
	delete theMu;
	delete theSig;
	vx_assert(vx_live_allocs() == 0, "leaked");
	vx_reach("end");
}
