#include "vx.h"
#include "mg/aio/IOCore.h"
#include "mg/box/Sysinfo.h"
#include <errno.h>
#include <poll.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
// The IO core with WORKERS workers, user threads and the kernel. Each user has a script of steps "<op><task>":
//  P post with a socket, Q post without it, w wakeup, x close, k kernel event, c - some time passes, X - stop the core, E - check if it is empty.
// Each task has a script of its executions: n nothing, w wakeup of itself, r reschedule, d deadline, c close, a attach a socket,
//  o wakeup of the next task, x close of the next one; the letter after ':' is for the closed execution: e end, P, Q post again.
#define MAXT 3
#define EPFD 100
#define EVFD 101
using namespace mg::aio;
using namespace mg::box;
static const char* const theScripts[] = {SCRIPTS};
static const char* const theBodies[] = {BODIES};
static IOCore* theCore;
static IOTask* theTask[MAXT];
static IOSubscription::Ptr theSubs[MAXT];
static unsigned thePos[MAXT], theLives[MAXT];
static bool theRunning[MAXT], theLive[MAXT], theClosing[MAXT], theWoken[MAXT], theOpen[MAXT], theRegistered[MAXT], theStopped;
static uint64_t theDeadline[MAXT];
static uint32_t thePending[MAXT], theUndelivered[MAXT]; // kernel events
static uint32_t osReady;
static bool osSignal;
static unsigned theEvents[MAXT], theExecs;
extern "C" { extern uint64_t vx_now; uint64_t vx_now = 1000; }
namespace mg { namespace box { bool SysIsWSL() { return false; } uint32_t SysGetCPUCoreCount() { return 1; } } }
static void Update()
{
	bool any = osSignal;
	for (unsigned i = 0; i < TASKS; ++i) any = any || (theRegistered[i] && thePending[i] != 0);
	osReady = any;
}
extern "C" {
int epoll_create1(int) noexcept { return EPFD; }
int eventfd(unsigned, int) noexcept { return EVFD; }
int eventfd_write(int fd, eventfd_t)
{
	vx_assert(fd == EVFD, "eventfd");
	vx_visible();
	osSignal = true;
	osReady = 1;
	return 0;
}
int close(int fd)
{
	if (fd == EPFD || fd == EVFD) return 0;
	for (unsigned i = 0; i < TASKS; ++i)
		if (fd == 3 + (int)i)
		{
			vx_assert(theOpen[i] && !theRegistered[i], "a descriptor is closed twice or while being used by epoll");
			vx_assert(!theRunning[i], "the socket is closed during an execution");
			theOpen[i] = false;
			thePending[i] = 0;
		}
	return 0;
}
int epoll_ctl(int ep, int op, int fd, struct epoll_event* e) noexcept
{
	if (fd == EVFD) return 0;
	vx_visible();
	for (unsigned i = 0; i < TASKS; ++i)
		if (fd == 3 + (int)i)
		{
			vx_assert(ep == EPFD && theOpen[i] && theRegistered[i] == (op == EPOLL_CTL_DEL), "epoll registration");
			theRegistered[i] = op == EPOLL_CTL_ADD;
			if (op == EPOLL_CTL_ADD) vx_assert(e->data.ptr == theTask[i] && (e->events & EPOLLET), "epoll data");
			Update();
		}
	return 0;
}
int epoll_wait(int ep, struct epoll_event* evs, int max, int timeout)
{
	vx_assert(ep == EPFD && timeout == 0 && max > TASKS, "epoll_wait arguments");
	vx_visible();
	int n = 0;
	if (osSignal)
	{
		evs[0].events = EPOLLIN;
		evs[0].data.ptr = nullptr;
		n = 1;
		osSignal = false;
	}
	for (unsigned i = 0; i < TASKS; ++i)
		if (theRegistered[i] && thePending[i] != 0)
		{
			evs[n].events = thePending[i];
			evs[n].data.ptr = theTask[i];
			thePending[i] = 0;
			++n;
		}
	osReady = 0;
	return n;
}
int poll(struct pollfd* fds, nfds_t n, int timeout)
{
	vx_assert(n == 1 && fds->fd == EPFD && fds->events == POLLIN, "poll arguments");
	if (timeout < 0)
	{
		vx_await(&osReady, 1);
		return 1;
	}
	uint64_t d = vx_now + (uint64_t)timeout;
	vx_visible();
	if (osReady) return 1;
	if (vx_now < d) vx_now = d;
	return 0;
}
}
static void Post(unsigned k, char how)
{
	theLive[k] = true;
	if (theLives[k] != 0) theClosing[k] = false; // the close before the first post is not forgotten
	theWoken[k] = false; // a post is not a wakeup
	theUndelivered[k] = 0;
	theDeadline[k] = MG_TIME_INFINITE;
	if (how == 'P') { vx_assert(!theOpen[k], "harness"); theOpen[k] = true; theTask[k]->Post((mg::net::Socket)(3 + k), theSubs[k].GetPointer()); }
	else theTask[k]->Post(theSubs[k].GetPointer());
}
static void Close(unsigned k)
{
	if (HB && !theClosing[k]) vx_hb_write(k);
	theClosing[k] = true;
	theTask[k]->PostClose();
}
struct Sub final : public IOSubscription
{
	unsigned k;
	void OnEvent(const IOArgs& args) override
	{
		IOTask* t = theTask[k];
		vx_assert(!theRunning[k], "two executions of a task overlap");
		theRunning[k] = true;
		vx_assert(theLive[k] && t->IsInWorkerNow(), "executed when is not in the core");
		for (unsigned i = 0; i < 6; ++i)
			if (HB && i < theEvents[k]) vx_assert(vx_hb_read(k * 10 + 10 + i), "the previous execution is not visible");
		vx_assert(theEvents[k] < 6, "bounds of the harness");
		if (HB) vx_hb_write(k * 10 + 10 + theEvents[k]);
		++theEvents[k];
		if (t->IsClosed())
		{
			vx_assert(theClosing[k], "closed by nobody");
			if (HB) vx_assert(vx_hb_read(k), "what was done before the close is not visible in the closed execution");
			vx_assert(!theOpen[k] && !theRegistered[k] && !t->HasSocket(), "the socket is not closed");
			vx_assert(args.myEvents == 0, "events of a closed task");
			theLive[k] = false;
			theWoken[k] = false;
			theRunning[k] = false;
			vx_reach("closed");
			const char* p = theBodies[k];
			while (*p && *p != ':') ++p;
			if (*p && (p[1] == 'P' || p[1] == 'Q') && theLives[k]++ == 0) { vx_reach("reused"); Post(k, p[1]); }
			return;
		}
		vx_assert(((uint32_t)args.myEvents & ~theUndelivered[k]) == 0, "an event which did not happen or was delivered already");
		theUndelivered[k] &= ~(uint32_t)args.myEvents;
		if (args.myEvents != 0) vx_reach("events");
		if (t->IsExpired()) { vx_assert(vx_now >= theDeadline[k], "expired too early"); vx_reach("expired"); }
		theDeadline[k] = MG_TIME_INFINITE;
		theWoken[k] = false;
		vx_visible();
		vx_assert(theRunning[k] && (!t->HasSocket() || theOpen[k]), "closed during an execution");
		char a = theBodies[k][thePos[k]];
		if (a != 0 && a != ':') ++thePos[k];
		switch (a)
		{
		case 'w': theWoken[k] = true; t->PostWakeup(); break;
		case 'r': theWoken[k] = true; theDeadline[k] = 0; t->Reschedule(); break; // it is a passed deadline
		case 'd':
			theDeadline[k] = vx_now + 5;
			t->SetDeadline(theDeadline[k] + 7);
			t->SetDeadline(theDeadline[k]);
			t->SetDeadline(theDeadline[k] + 3);
			break;
		case 'c': Close(k); break;
		case 'a': theOpen[k] = true; t->AttachSocket((mg::net::Socket)(3 + k)); break;
		case 'o': theWoken[k + 1] = true; theTask[k + 1]->PostWakeup(); break;
		case 'x': Close(k + 1); break;
		}
		theRunning[k] = false;
	}
};
static void User(const char* s)
{
	for (; *s; s += 2)
	{
		unsigned k = (unsigned)(s[1] - '0');
		switch (s[0])
		{
		case 'P': case 'Q': Post(k, s[0]); break;
		case 'w': if (theLive[k]) theWoken[k] = true; theTask[k]->PostWakeup(); break;
		case 'x': Close(k); break;
		case 'k':
			vx_visible();
			if (theOpen[k])
			{
				uint32_t e = vx_bool() ? EPOLLIN : EPOLLOUT | EPOLLHUP;
				thePending[k] |= e;
				theUndelivered[k] |= e;
				if (theRegistered[k]) osReady = 1;
			}
			break;
		case 'c': vx_visible(); vx_now += 4; break;
		case 'E': if (theCore->WaitEmpty(TimeDuration(0)) == 0) { for (unsigned i = 0; i < TASKS; ++i) vx_assert(!theLive[i], "the core is not empty"); vx_reach("empty"); } break;
		case 'X':
			theCore->Stop();
			theStopped = true;
			for (unsigned i = 0; i < TASKS; ++i) vx_assert(!theRunning[i], "a task is being executed after the stop");
			vx_reach("stopped");
			break;
		}
	}
}
static void UserMain(void* a) { User((const char*)a); }
extern "C" void vx_main()
{
	if (HB) vx_hb_on();
	theCore = new IOCore();
	*(volatile uint32_t*)&theCore->myExecBatchSize = BATCH;
	for (unsigned k = 0; k < TASKS; ++k)
	{
		theTask[k] = new IOTask(*theCore);
		Sub* s = new Sub();
		s->k = k;
		theSubs[k] = IOSubscription::Ptr::Wrap(s);
	}
	User(INIT);
	theCore->Start(WORKERS);
	const unsigned users = sizeof(theScripts) / sizeof(theScripts[0]);
	for (unsigned i = 0; i < users; ++i) vx_thread(UserMain, (void*)theScripts[i]);
	vx_run(ROUNDS);
#ifdef STOP
	for (unsigned i = 0; i < users; ++i) vx_assert(!vx_deadlock() || vx_finished(WORKERS + i), "a thread is stuck for ever");
#endif
	for (unsigned i = 0; i < users; ++i) vx_assume(vx_finished(WORKERS + i));
	if (theStopped)
	{
		for (unsigned i = 0; i < WORKERS; ++i) vx_assert(vx_finished(i), "a worker is not joined");
		vx_reach("end");
		return;
	}
	vx_assume(vx_deadlock()); // the workers sleep
	for (unsigned k = 0; k < TASKS; ++k)
	{
		vx_assert(!theRunning[k], "a worker sleeps in a task");
		if (!theLive[k]) continue;
		vx_assert(!theWoken[k], "a wakeup is lost");
		vx_assert(!theClosing[k], "a close is lost");
		vx_assert(theUndelivered[k] == 0 || !theRegistered[k], "a kernel event is lost");
		vx_assert(theDeadline[k] == MG_TIME_INFINITE, "a deadline is lost");
	}
	vx_reach("end");
}
