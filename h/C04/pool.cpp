#include "vx.h"
#include "mg/box/ThreadLocalPool.h"
#include <new>

// The destructors of the thread-local objects are run by the harness.
struct Dtor { void (*fn)(void*); void* obj; };
static Dtor theDtors[4][4];
static unsigned theDtorCount[4];
extern "C" int __cxa_thread_atexit(void (*fn)(void*), void* obj, void*) noexcept
{
	unsigned t = vx_tid();
	if (t >= 4 || theDtorCount[t] >= 4) vx_fail("bounds of the harness");
	theDtors[t][theDtorCount[t]++] = {fn, obj};
	return 0;
}
static void ThreadExit()
{
	unsigned t = vx_tid();
	while (theDtorCount[t] > 0)
	{
		Dtor& d = theDtors[t][--theDtorCount[t]];
		d.fn(d.obj);
	}
}
struct alignas(ALIGN) Obj : public mg::box::ThreadPooled<Obj, BATCH> { WORD myData[SIZE]; };
#define MAXB 12
static Obj* theLive[MAXB];
static unsigned theStamp[MAXB], theNext = 1, theCount, thePeak;

static unsigned Alloc()
{
	Obj* o = new Obj;
	vx_atomic_begin();
	vx_assert(o != nullptr && ((uintptr_t)o) % ALIGN == 0, "alignment");
	unsigned id = theNext++;
	for (unsigned i = 0; i < SIZE; ++i) o->myData[i] = (WORD)(id * 16 + i);
	unsigned k = 0;
	while (k < MAXB && theLive[k]) ++k;
	vx_assert(k < MAXB, "bounds of the harness");
	theLive[k] = o;
	theStamp[k] = id;
	if (++theCount > thePeak) thePeak = theCount;
	vx_atomic_end();
	return k;
}
static void Check(unsigned k)
{
	for (unsigned i = 0; i < SIZE; ++i)
		vx_assert(theLive[k]->myData[i] == (WORD)(theStamp[k] * 16 + i), "memory of a live object is used by somebody else");
}
static void Free(unsigned k)
{
	vx_atomic_begin();
	Check(k);
	Obj* o = theLive[k];
	theLive[k] = nullptr;
	--theCount;
	vx_atomic_end();
	delete o;
}
static unsigned Blocks() { return (thePeak + BATCH) / (BATCH + 1); }
#if WHAT == 0
extern "C" void vx_main()
{
	for (unsigned i = 0; i < NOPS; ++i)
	{
		if (vx_bool()) { if (theCount < MAXLIVE) Alloc(); }
		else
		{
			unsigned k = vx_range(0, MAXLIVE - 1);
			if (theLive[k]) Free(k);
		}
		vx_assert(vx_live_allocs() <= Blocks(), "memory is not reused");
	}
	if (thePeak > BATCH + 1) vx_reach("middle");
	for (unsigned k = 0; k < MAXLIVE; ++k)
		if (theLive[k]) Check(k);
	// Everything what is free can be taken again.
	unsigned free = vx_live_allocs() * (BATCH + 1) - theCount;
	for (unsigned i = 0; i < free; ++i) Alloc();
	vx_assert(vx_live_allocs() * (BATCH + 1) == theCount, "freed memory is lost");
	for (unsigned k = 0; k < MAXB; ++k)
		if (theLive[k]) Free(k);
	vx_reach("end");
}
#else
// Threads with scripts: a - allocate, f - free own oldest one, g - free any one of others, x - exit.
static const char* const theScripts[] = {SCRIPTS};
static unsigned theOwn[3][6];
static void Run(void* a)
{
	unsigned t = (unsigned)(size_t)a;
	unsigned head = 0, tail = 0;
	for (const char* s = theScripts[t]; *s; ++s)
	{
		if (*s == 'a') { unsigned k = Alloc(); theOwn[t][tail++] = k; }
		else if (*s == 'f') Free(theOwn[t][head++]);
		else if (*s == 'g')
		{
			vx_visible();
			unsigned k = 0;
			while (k < MAXB)
			{
				bool own = false;
				for (unsigned i = head; i < tail; ++i) if (theOwn[t][i] == k) own = true;
				bool others = false;
				for (unsigned u = 0; u < THREADS; ++u)
					if (u != t) for (const char* z = theScripts[u]; *z; ++z) if (*z == 'f') others = true;
				if (theLive[k] && !own && !others) break;
				++k;
			}
			if (k < MAXB) { Free(k); vx_reach("others"); }
		}
	}
	ThreadExit();
}
extern "C" void vx_main()
{
	for (unsigned i = 0; i < PRE; ++i) Alloc();
	for (unsigned i = 0; i < PREFREE; ++i) Free(i);
	for (unsigned t = 0; t < THREADS; ++t) vx_thread(Run, (void*)(size_t)t);
	vx_run(ROUNDS);
	vx_assert(!vx_deadlock(), "deadlock");
	for (unsigned t = 0; t < THREADS; ++t) vx_assume(vx_finished(t));
	for (unsigned k = 0; k < MAXB; ++k)
		if (theLive[k]) Check(k);
	// The threads are over, all of their memory is available to the rest.
	unsigned blocks = vx_live_allocs();
	unsigned free = blocks * (BATCH + 1) - theCount;
	for (unsigned i = 0; i < MAXB; ++i)
		if (i < free) Alloc();
	vx_assert(vx_live_allocs() == blocks && blocks * (BATCH + 1) == theCount, "freed memory is lost");
	vx_reach("end");
}
#endif
