#include "vx.h"
#include "mg/box/Coro.h"
// A stack of coroutines up to DEPTH deep. Each of them does steps of any kinds: suspends, calls a new coroutine, creates a one which is not
// called, ends, destroys the whole stack while being suspended. The owner resumes the stack, moves the ownership, destroys it. STEPS steps in total.
using namespace mg::box;
static CoroRef theRoot;
static unsigned theStack[8], theTop, theIds, theRuns, theSteps, theCreated, theDestroyed, theReturns[16];
static bool theSuspended, theGone;
// The first steps are given, the next ones are any.
static char Choose(const char* s)
{
	if (theSteps < sizeof(PREFIX) - 1) return PREFIX[theSteps];
	unsigned n = 0;
	while (s[n]) ++n;
	unsigned v = (unsigned)vx_range(0, n - 1);
	for (unsigned i = 0; i < n; ++i) if (v == i) return s[i];
	return s[0];
}
struct Local
{
	unsigned id;
	Local(unsigned i) : id(i)
	{
		theStack[theTop++] = i;
		++theCreated;
	}
	Local(const Local&) = delete;
	~Local()
	{
		vx_assert(theTop > 0 && theStack[theTop - 1] == id, "frames are destroyed not from the top or twice");
		--theTop;
		++theDestroyed;
	}
};
struct Arg
{
	unsigned* cnt;
	Arg(unsigned* c) : cnt(c) { ++*cnt; }
	Arg(Arg&& o) : cnt(o.cnt) { ++*cnt; }
	~Arg() { --*cnt; }
};
static unsigned theArgs;
struct Suspend : public CoroOpIsNotReady, public CoroOpIsEmptyReturn
{
	unsigned id;
	bool kill;
	Suspend(unsigned i, bool k) : id(i), kill(k) {}
	void await_suspend(CoroHandle)
	{
		theSuspended = true;
		if (!kill) return;
		vx_reach("destroyed by itself");
		theGone = true;
		theRoot.Clear();
	}
};
static Coro Frame(unsigned id, Arg)
{
	Local local(id);
	for (;;)
	{
		vx_assert(!theGone && theTop > 0 && theStack[theTop - 1] == id, "not the top coroutine is executed");
		vx_assert(!theSuspended, "harness");
		char a = theSteps >= STEPS ? 'e' : Choose(theTop < DEPTH ? "sceux" : "sex");
		++theSteps;
		if (a == 's')
		{
			co_await Suspend(id, false);
			theSuspended = false;
		}
		else if (a == 'c')
		{
			unsigned child = ++theIds;
			co_await CoroCall(Frame(child, Arg(&theArgs)));
			vx_assert(theReturns[child] == 1, "the caller is continued before the end of the callee");
			theReturns[child] = 2;
			vx_reach("returned");
		}
		else if (a == 'u')
		{
			CoroOpCall op = CoroCall(Frame(99, Arg(&theArgs)));
			(void)op;
		}
		else if (a == 'x') co_await Suspend(id, true);
		else break;
	}
	vx_assert(theReturns[id] == 0, "ended twice");
	theReturns[id] = 1;
}
extern "C" void vx_main()
{
	int64_t base = vx_live_allocs();
	unsigned id = 0;
	theRoot = CoroRef(Frame(id, Arg(&theArgs)));
	CoroRef other;
	for (; theSteps < STEPS && !theGone && theReturns[0] == 0;)
	{
		char a = Choose("rrmdaob");
		++theSteps;
		if (a == 'r')
		{
			unsigned top = theTop;
			bool was = theSuspended;
			theRoot.ResumeTop();
			if (theGone) break;
			vx_assert(theSuspended != (theReturns[0] == 1), "it must be either suspended or ended");
			if (theReturns[0] == 1) vx_assert(theRoot.Handle().done(), "the root is not done");
			if (top > 1 && was) vx_reach("nested is resumed");
		}
		else if (a == 'm')
		{
			CoroRef tmp(std::move(theRoot));
			vx_assert(tmp && !theRoot, "move");
			theRoot = std::move(tmp);
			vx_assert(theRoot && !tmp, "move");
		}
		else
		{
			if (theTop > 1) vx_reach("nested is destroyed");
			theGone = true;
			if (a == 'd') theRoot.Clear();
			else if (a == 'a') theRoot = CoroRef();
			else if (a == 'o') { CoroRef tmp(std::move(theRoot)); }
			else { other = std::move(theRoot); vx_assert(theTop == theCreated - theDestroyed, "destroyed too early"); other = CoroRef(Frame(77, Arg(&theArgs))); }
		}
	}
	if (theReturns[0] == 1) vx_reach("ended");
	theRoot.Clear();
	other.Clear();
	vx_assert(theTop == 0 && theCreated == theDestroyed, "coroutines are not destroyed");
	vx_assert(theArgs == 0, "arguments are not destroyed");
	vx_assert(vx_live_allocs() == base, "leak");
	vx_reach("end");
}
