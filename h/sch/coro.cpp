#include "vx.h"
#include "mg/box/Signal.h"
#include "mg/box/Time.h"
#include "mg/sch/TaskScheduler.h"
// Coroutines as bodies of tasks. The body of each task is a script: y yield, d yield with a delay, i yield for ever, r wait for a signal,
//  "(" and ")" are begin and end of a nested coroutine; the last one: n return, x exit with deletion, e exit to a plain callback,
//  p exit to a plain callback which posts the task again and then is over, s exit with sending of a signal (the owner deletes the task then).
// Scripts of the users: P post, W wakeup, S signal, X wait for the exit signal and delete.
using namespace mg::box;
#define MAXT 2
static const char* const theScripts[] = {SCRIPTS};
static const char* const theBodies[] = {BODIES};
static mg::sch::TaskScheduler* theSched;
static mg::sch::Task* theTask[MAXT];
static Signal* theExit[MAXT];
static const char* thePos[MAXT];
static unsigned theFrames[MAXT], theEvents[MAXT], theSigs[MAXT], theGot[MAXT];
static bool theRunning[MAXT], theOver[MAXT], theForever[MAXT], theWoken[MAXT], theDelayed[MAXT], theWaits[MAXT], theSent[MAXT];
static int64_t theBase;
static void Event(unsigned k)
{
	vx_assert(theEvents[k] < 14, "bounds of the harness");
	vx_hb_write(k * 15 + theEvents[k]++);
}
static void Enter(unsigned k)
{
	vx_assert(!theRunning[k] && !theOver[k], "executions of a coroutine overlap or it was over");
	theRunning[k] = true;
	for (unsigned i = 0; i < 14; ++i)
		if (i < theEvents[k]) vx_assert(vx_hb_read(k * 15 + i), "what was done before the suspension is not visible");
	Event(k);
	vx_visible();
	vx_assert(theRunning[k], "executions overlap");
}
static void Leave(unsigned k)
{
	Event(k);
	theRunning[k] = false;
}
struct Local
{
	unsigned k, n;
	Local(unsigned aK) : k(aK), n(++theFrames[aK]) {}
	Local(const Local&) = delete;
	~Local()
	{
		vx_assert(theFrames[k] == n, "frames are destroyed not from the top");
		--theFrames[k];
	}
};
static Coro Body(unsigned k)
{
	Local local(k);
	mg::sch::Task* t = theTask[k];
	if (local.n == 1) Enter(k);
	for (;;)
	{
		vx_assert(theRunning[k] && theFrames[k] == local.n, "a wrong coroutine is executed");
		char a = *thePos[k]++;
		switch (a)
		{
		case 'y': Leave(k); co_await t->AsyncYield(); Enter(k); break;
		case 'd':
			t->SetDelay(5);
			theDelayed[k] = true;
			Leave(k);
			co_await t->AsyncYield(*theSched);
			Enter(k);
			break;
		case 'i':
			t->SetWait();
			theForever[k] = true;
			Leave(k);
			co_await t->AsyncYield();
			theForever[k] = false;
			Enter(k);
			vx_assert(theWoken[k] || theSigs[k] != 0, "nobody woke it up");
			break;
		case 'r':
			for (;;)
			{
				t->SetWait();
				theForever[k] = true;
				Leave(k);
				bool ok = co_await t->AsyncReceiveSignal();
				theForever[k] = false;
				Enter(k);
				if (!ok) { vx_assert(theWoken[k], "nobody woke it up"); vx_reach("spurious"); continue; }
				vx_assert(++theGot[k] <= theSigs[k], "a signal which nobody sent");
				break;
			}
			vx_reach("received");
			break;
		case '(': co_await CoroCall(Body(k)); break;
		case ')': co_return;
		case 'x': theOver[k] = true; theTask[k] = nullptr; Leave(k); co_await t->AsyncExitDelete(); vx_fail("continued after the exit");
		case 'e':
		case 'p':
		{
			bool again = a == 'p';
			co_await t->AsyncExitExec([k, again](mg::sch::Task* t) {
				vx_assert(t == theTask[k] && theFrames[k] == 0, "the coroutine is not destroyed before the callback");
				if (!again || thePos[k][-1] == 'q')
				{
					if (again) Enter(k);
					theOver[k] = true;
					theTask[k] = nullptr;
					Leave(k);
					vx_reach("plain");
					delete t;
					return;
				}
				thePos[k] = "q" + 1;
				Leave(k);
				theSched->Post(t);
			});
			vx_fail("continued after the exit");
		}
		case 's':
			Leave(k);
			theOver[k] = true;
			co_await t->AsyncExitSendSignal(*theExit[k]);
			vx_fail("continued after the exit");
		default: theOver[k] = true; Leave(k); co_return;
		}
	}
}
static void User(const char* s)
{
	for (; *s; s += 2)
	{
		unsigned k = (unsigned)(s[1] - '0');
		switch (s[0])
		{
		case 'P': Event(k); theSched->Post(theTask[k]); break;
		case 'W': theWoken[k] = true; theTask[k]->PostWakeup(); break;
		case 'S': ++theSigs[k]; theTask[k]->PostSignal(); break;
		case 'X':
			theExit[k]->ReceiveBlocking();
			vx_assert(theOver[k] && theFrames[k] == 0, "the exit signal is sent before the coroutine is destroyed");
			delete theTask[k];
			delete theExit[k];
			theTask[k] = nullptr;
			vx_reach("exit");
			break;
		}
	}
}
static void UserMain(void* a) { User((const char*)a); }
extern "C" { extern uint64_t vx_now; uint64_t vx_now = 1000; }
extern "C" void vx_main()
{
	vx_hb_on();
	theSched = new mg::sch::TaskScheduler("", 4);
	theSched->Start(WORKERS);
	theBase = vx_live_allocs();
	for (unsigned k = 0; k < TASKS; ++k)
	{
		const char* p = theBodies[k];
		thePos[k] = p;
		bool exits = false;
		for (; *p; ++p) exits = exits || *p == 's';
		if (exits) theExit[k] = new Signal();
		theTask[k] = new mg::sch::Task(Body(k));
	}
	User(INIT);
	for (unsigned i = 0; i < sizeof(theScripts) / sizeof(theScripts[0]); ++i) vx_thread(UserMain, (void*)theScripts[i]);
	vx_run(ROUNDS);
	for (unsigned i = 0; i < sizeof(theScripts) / sizeof(theScripts[0]); ++i)
	{
		vx_assert(!vx_deadlock() || vx_finished(WORKERS + i), "a thread is stuck for ever");
		vx_assume(vx_finished(WORKERS + i));
	}
	vx_assume(vx_deadlock());
	bool left = false;
	for (unsigned k = 0; k < TASKS; ++k)
	{
		vx_assert(!theRunning[k], "a worker sleeps in a task");
		if (!theOver[k])
		{
			vx_assert(theForever[k], "a task is lost");
			vx_assert(theGot[k] == theSigs[k], "a signal is lost");
			vx_reach("suspended");
			left = true; // can't be deleted
			continue;
		}
		if (theTask[k] != nullptr) delete theTask[k];
		vx_assert(theFrames[k] == 0, "coroutines are not destroyed");
	}
	if (!left) vx_assert(vx_live_allocs() == theBase, "leak");
	vx_reach("end");
}
