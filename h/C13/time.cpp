#include "vx.h"
#include "mg/box/Time.h"
#include <ctime>

// Any clock, any duration, any point.
static uint64_t theSec, theNsec;
static unsigned theCalls;
static int theClock;
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
	++theCalls;
	theClock = c;
	t->tv_sec = theSec;
	t->tv_nsec = theNsec;
	return 0;
}
using namespace mg::box;

extern "C" void vx_main()
{
	theSec = vx_u64();
	theNsec = vx_u64();
	vx_assume(theNsec < 1000000000);
#if WHAT == 0
	// The clock itself.
	vx_assume(theSec <= 9000000000ull); // 285 years of uptime
	vx_assert(GetNanoseconds() == theSec * 1000000000 + theNsec, "nanoseconds");
	uint64_t ms = GetMilliseconds();
	vx_assert(theClock == CLOCK_MONOTONIC || theClock == CLOCK_BOOTTIME, "the clock may go back");
	vx_assert(ms >= theSec * 1000 && ms - theSec * 1000 <= 999, "seconds");
	uint64_t rest = (ms - theSec * 1000) * 1000000;
	vx_assert(rest <= theNsec && theNsec - rest < 1000000, "milliseconds");
#else
	vx_assume(theSec <= UINT64_MAX / 1000 - 1000);
	theNsec = 0;
	// A coarse clock, so that now is any number dividing by 1000: avoids a division in each check.
	uint64_t now = theSec * 1000;
	vx_assert(GetMilliseconds() == now, "now");
	uint64_t x = vx_u64();
#if WHAT == 1
	TimeDuration d(x);
	vx_assert(d.myValue == x, "duration u64");
	TimePoint p = vx_bool() ? d.ToPointFromNow() : TimeLimit(d).ToPointFromNow();
	vx_assert(now <= p.myValue, "the point is in the past");
	if (x == MG_TIME_INFINITE)
		vx_assert(p.myValue == MG_TIME_INFINITE, "infinity is lost");
	if (p.myValue != MG_TIME_INFINITE)
		vx_assert(p.myValue - now == x, "now plus duration");
	else
		vx_assert(x >= UINT64_MAX - now, "infinite too early");
	TimeDuration same = TimeLimit(d).ToDurationFromNow();
	vx_assert(same.myValue == x, "duration out of a duration limit");
#elif WHAT == 2
	TimePoint p(x);
	TimeLimit l(p);
	vx_assert(l.ToPointFromNow().myValue == x, "point out of a point limit");
	TimeDuration d = l.ToDurationFromNow();
	if (x == MG_TIME_INFINITE)
		vx_assert(d.myValue == MG_TIME_INFINITE, "infinity is lost");
	else if (x <= now)
		vx_assert(d.myValue == 0, "passed already");
	else
		vx_assert(d.myValue == x - now, "remaining time");
	uint64_t y = vx_u64();
	vx_assert((TimePoint(x) <= TimePoint(y)) == (x <= y), "comparison");
#else
	int32_t i = (int32_t)x;
	vx_assert(TimeDuration(i).myValue == (i < 0 ? 0 : (uint64_t)i), "int32");
	int64_t j = (int64_t)x;
	vx_assert(TimeDuration(j).myValue == (j < 0 ? 0 : (uint64_t)j), "int64");
	uint32_t u = (uint32_t)x;
	vx_assert(TimeDuration(u).myValue == u, "uint32");
	TimeLimit l = TimeDuration(j);
	vx_assert(l.myType == TIME_LIMIT_DURATION, "type");
	l.Reset();
	vx_assert(l.myType == TIME_LIMIT_NONE, "reset");
	TimeLimit p = TimePoint(x);
	vx_assert(p.myType == TIME_LIMIT_POINT && p.myPoint.myValue == x, "point");
	vx_assert(TimeLimit().myType == TIME_LIMIT_NONE, "default");
#endif
#endif
	vx_reach("end");
}
