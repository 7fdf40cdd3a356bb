#include "vx.h"
#include "mg/box/Time.h"
#include "mg/sch/TaskScheduler.h"

// The scheduler with WORKERS workers and user threads. Each user has a script of steps "<op><task>":
//  P post, D post with the delay of the task, I post with an infinite wait, W wakeup, S signal (W, S: the ghost
//  state is updated in the same step; w, s: before it), c - some time passes, E - check if the scheduler is empty,
//  X - stop the scheduler.
// Each task has a script of its executions: p re-post, d re-post with the delay, i re-post with an infinite
//  wait, o post the next task, r receive the signal or wait for ever, R the same till it is received, e end.
// INIT is a user script done before the start of the others.
#define MAXT 3
static const char* const theScripts[] = {SCRIPTS};
static const char* const theBodies[] = {BODIES};
static mg::sch::TaskScheduler* theSched;
static mg::sch::Task* theTask[MAXT];
static unsigned thePosts[MAXT], theExecs[MAXT], thePos[MAXT], theEvents[MAXT];
static bool theRunning[MAXT], theInside[MAXT], theForever[MAXT]; // in the scheduler
static bool theWoken[MAXT], theSignaled[MAXT], theUnserved[MAXT];
static uint64_t theDeadline[MAXT], theDelay[MAXT];
static unsigned theActive, theOutside; // tasks which are not over
static bool theSure = true; // the ghost state of the signals is exact
static bool theStopped;
#ifndef ORDER
#define ORDER 0
#endif
extern "C" { extern uint64_t vx_now; uint64_t vx_now = 1000; }

static void Event(unsigned k)
{
	vx_assert(theEvents[k] < 7, "bounds of the harness");
	vx_hb_write(k * 10 + theEvents[k]++);
}
static unsigned theSigEvents[MAXT];
static void SigEvent(unsigned k)
{
	vx_assert(theSigEvents[k] < 3, "bounds of the harness");
	vx_hb_write(k * 10 + 7 + theSigEvents[k]++);
}
static void SigSeen(unsigned k)
{
	for (unsigned i = 0; i < 3; ++i)
		if (i < theSigEvents[k])
			vx_assert(vx_hb_read(k * 10 + 7 + i), "what was done before the signal is not visible after its receipt");
}
static void Seen(unsigned k, const char* what)
{
	for (unsigned i = 0; i < 7; ++i)
		if (i < theEvents[k])
			vx_assert(vx_hb_read(k * 10 + i), what);
}
static void Post(unsigned k, char how)
{
	Event(k);
	++thePosts[k];
	theInside[k] = true;
	theForever[k] = false;
	theDeadline[k] = 0;
	if (how == 'd') theDeadline[k] = vx_now + theDelay[k];
	if (how == 'i') { theDeadline[k] = MG_TIME_INFINITE; theForever[k] = true; }
	if (how == 'p') theSched->Post(theTask[k]);
	else if (how == 'd') theSched->PostDelay(theTask[k], (uint32_t)theDelay[k]);
	else theSched->PostWait(theTask[k]);
}
static void Body(unsigned k)
{
	vx_assert(!theRunning[k], "two executions of a task overlap");
	theRunning[k] = true;
	vx_assert(theInside[k] && theExecs[k] < thePosts[k], "executed more times than posted");
	theInside[k] = false;
	++theExecs[k];
	Seen(k, "what was done before the post is not visible in the execution");
	Event(k);
	mg::sch::Task* t = theTask[k];
	bool woken = theWoken[k] || theSignaled[k];
	vx_assert(woken || vx_now >= theDeadline[k], "executed before the deadline");
	if (t->IsExpired()) vx_assert(vx_now >= theDeadline[k] && theDeadline[k] != MG_TIME_INFINITE, "expired too early");
	else vx_assert(woken, "a task which was not woken up is not expired");
	vx_assert(t->GetDeadline() == 0, "the deadline is not dropped");
	if (ORDER)
		for (unsigned i = 0; i < TASKS; ++i)
			if (theInside[i] && !theForever[i] && theDeadline[i] > 1000)
				vx_assert(theDeadline[k] <= theDeadline[i] || woken, "a task with a later deadline is executed first");
	theWoken[k] = false;
	theUnserved[k] = false;
	vx_visible(); // somebody else may want to do it too
	vx_assert(theRunning[k], "two executions of a task overlap");
	char a = theBodies[k][thePos[k]];
	if (a == 'r' || a == 'R')
	{
		vx_atomic_begin();
		bool isSignaled = t->IsSignaled();
		bool got = t->ReceiveSignal();
		vx_assert(got == isSignaled, "IsSignaled and ReceiveSignal disagree");
		if (got) vx_assert(theSignaled[k], "a signal which nobody sent");
		else if (theSure) vx_assert(!theSignaled[k], "a sent signal is not received");
		if (got)
		{
			theSignaled[k] = false;
			if (theSure) SigSeen(k);
			vx_reach("received");
		}
		vx_atomic_end();
		if (a == 'r' || got) ++thePos[k];
		if (!got) a = 'i';
		else a = theBodies[k][thePos[k]];
	}
	else if (a != 0)
		++thePos[k];
	if (a == 'o')
	{
		Post(k + 1, 'p');
		a = theBodies[k][thePos[k]];
		if (a != 0) ++thePos[k];
	}
	theRunning[k] = false;
	if (a == 'p' || a == 'd' || a == 'i') Post(k, a);
	else --theActive;
}
static void User(const char* s)
{
	for (; *s; s += 2)
	{
		unsigned k = (unsigned)(s[1] - '0');
		switch (s[0])
		{
		case 'P': Post(k, 'p'); break;
		case 'D': Post(k, 'd'); break;
		case 'I': Post(k, 'i'); break;
		case 'W':
			vx_visible();
			vx_atomic_begin();
			theTask[k]->PostWakeup();
			theWoken[k] = true;
			theUnserved[k] = true;
			vx_atomic_end();
			break;
		case 'S':
			vx_visible();
			vx_atomic_begin();
			SigEvent(k);
			theTask[k]->PostSignal();
			theSignaled[k] = true;
			theUnserved[k] = true;
			vx_atomic_end();
			break;
		case 'w':
			theSure = false;
			theWoken[k] = true;
			theUnserved[k] = true;
			theTask[k]->PostWakeup();
			theWoken[k] = true;
			break;
		case 's':
			theSure = false;
			theSignaled[k] = true;
			theUnserved[k] = true;
			theTask[k]->PostSignal();
			break;
		case 'c':
			vx_visible();
			vx_now += vx_range(0, 20);
			break;
		case 'E':
		{
			unsigned before = theActive;
			if (theSched->IsEmpty())
			{
				vx_reach("empty");
				vx_assert(theActive == 0, "the scheduler is not empty");
			}
			break;
		}
		case 'X':
			theSched->Stop();
			vx_reach("stopped");
			theStopped = true;
			for (unsigned i = 0; i < MAXT; ++i)
				vx_assert(!theRunning[i], "a task is being executed after the stop");
			break;
		}
	}
}
static void UserMain(void* a) { User((const char*)a); }
extern "C" void vx_main()
{
	vx_hb_on();
	theSched = new mg::sch::TaskScheduler("", SUB);
	for (unsigned k = 0; k < TASKS; ++k)
	{
		theTask[k] = new mg::sch::Task([k](mg::sch::Task*) { Body(k); });
		theDelay[k] = (DELAY);
	}
	theActive = TASKS;
	User(INIT);
	theSched->Start(WORKERS);
	for (unsigned i = 0; i < sizeof(theScripts) / sizeof(theScripts[0]); ++i) vx_thread(UserMain, (void*)theScripts[i]);
	vx_run(ROUNDS);
	for (unsigned i = 0; i < sizeof(theScripts) / sizeof(theScripts[0]); ++i)
	{
#ifdef STOP
		vx_assert(!vx_deadlock() || vx_finished(WORKERS + i), "a thread is stuck for ever");
#endif
		vx_assume(vx_finished(WORKERS + i));
	}
#ifdef STOP
	if (theStopped)
	{
		for (unsigned i = 0; i < WORKERS; ++i) vx_assert(vx_finished(i), "a worker is not joined");
		vx_reach("end");
		return;
	}
#endif
	vx_assume(vx_deadlock()); // the workers sleep
	for (unsigned k = 0; k < TASKS; ++k)
	{
		vx_assert(!theRunning[k], "a worker sleeps in a task");
		vx_assert(!theUnserved[k] || !theInside[k], "a wakeup or a signal is lost");
		vx_assert(!theInside[k] || theForever[k], "a posted task is never executed");
		vx_assert(thePosts[k] == theExecs[k] + (theInside[k] ? 1 : 0), "executions and posts");
	}
	vx_reach("end");
}
