#include "vx.h"
#include "mg/box/ConditionVariable.h"
#include "mg/box/Mutex.h"

// Threads with scripts: l - lock, t - try to lock, u - unlock, q - ask for the ownership, w - wait
// for theGo under the lock, f / i - the same with a finite / an infinite timeout, s / b - set theGo and signal /
// broadcast under the lock, g - scoped lock.
static const char* const theScripts[] = {SCRIPTS};
static mg::box::Mutex theMu;
static mg::box::ConditionVariable theCond;
static int theOwner = -1; // the ghost
static unsigned theDepth, theEvents, theGo, theWaiting;
extern unsigned vx_spurious;
extern uint64_t vx_clock;

static void Enter(int me)
{
	if (theDepth++ == 0)
	{
		vx_assert(theOwner == -1, "locked while another thread owns it");
		theOwner = me;
		for (unsigned i = 0; i < 10; ++i)
			if (i < theEvents)
				vx_assert(vx_hb_read(i), "what was done under the lock is not visible to the next owner");
		vx_assert(theEvents < 10, "bounds of the harness");
		vx_hb_write(theEvents++);
	}
	vx_assert(theOwner == me, "locked while another thread owns it");
	vx_assert(theMu.IsOwnedByThisThread(), "the owner is not an owner");
}
static void Leave(int me)
{
	vx_assert(theOwner == me, "the ownership is lost");
	if (--theDepth == 0) theOwner = -1;
}
static void Wait(int me, char how)
{
	unsigned tries = 0;
	while (theGo == 0)
	{
		vx_assume(tries++ < 3);
		Leave(me);
		vx_assert(theDepth == 0, "bounds of the harness");
		++theWaiting;
		if (how == 'w')
			theCond.Wait(theMu);
		else
		{
			uint64_t ms = how == 'i' ? UINT64_MAX : how == 'h' ? vx_range(1ull << 43, UINT64_MAX) : how == 'p' ? 0 : 100;
			mg::box::TimeLimit l = mg::box::TimeDuration(ms);
			if (how == 'p') l = mg::box::TimePoint(vx_range(0, 1));
			bool ok = theCond.TimedWait(theMu, l);
			if (how == 'i' || how == 'h') vx_assert(ok, "a timeout is reported though it has not come");
			if (!ok) vx_reach("timeout");
			--theWaiting;
			Enter(me);
			if (!ok) return;
			continue;
		}
		--theWaiting;
		Enter(me);
	}
}
static void Run(void* a)
{
	unsigned k = (unsigned)(size_t)a;
	int me = (int)k;
	int held = 0;
	for (const char* s = theScripts[k]; *s; ++s)
	{
		switch (*s)
		{
		case 'l': theMu.Lock(); Enter(me); ++held; break;
		case 't':
		{
			bool mine = held > 0;
			if (theMu.TryLock()) { Enter(me); ++held; }
			else { vx_assert(!mine, "own lock is not taken again"); vx_reach("busy"); }
			break;
		}
		case 'u': if (held == 0) break; --held; Leave(me); theMu.Unlock(); break;
		case 'g':
		{
			mg::box::MutexLock lock(theMu);
			Enter(me);
			vx_visible();
			Leave(me);
			if (s[1] == 'u') { lock.Unlock(); ++s; }
			break;
		}
		case 'q': vx_assert(theMu.IsOwnedByThisThread() == (held > 0), "wrong answer about the ownership"); break;
		case 's': theGo = 1; theCond.Signal(); break;
		case 'b': theGo = 1; theCond.Broadcast(); break;
		default: Wait(me, *s); break;
		}
		if (held > 0) vx_assert(theOwner == me && theMu.IsOwnedByThisThread(), "the ownership is lost");
	}
}
extern "C" void vx_main()
{
	vx_hb_on();
	vx_spurious = SPURIOUS;
	for (unsigned k = 0; k < THREADS; ++k) vx_thread(Run, (void*)(size_t)k);
	vx_run(ROUNDS);
	vx_assert(!vx_deadlock(), "deadlock");
	for (unsigned k = 0; k < THREADS; ++k) vx_assume(vx_finished(k));
	vx_assert(theMu.TryLock(), "the mutex is locked after the last unlock");
	theMu.Unlock();
	vx_assert(!theMu.IsOwnedByThisThread(), "nobody owns it");
	vx_reach("end");
}
