// Native implementation of the harness API: replays the values and the schedule of a trace against
// natively compiled code (the same bitcode the solver worked on, with sanitizers).
#include "vx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <vector>
static std::vector<uint64_t> theIn;
struct Turn { int round, tid; long count; };
static std::vector<Turn> theSchedule;
static size_t thePos = 0;
static long theLive = 0;
static int theFill = 0xBE;
static uint64_t Next()
{
	if (thePos < theIn.size())
		return theIn[thePos++];
	++thePos;
	return 0;
}
struct Thr
{
	void (*fn)(void*);
	void* arg;
	sem_t sem;
	pthread_t th;
	bool started = false, finished = false;
	long budget = 0;
	bool endless = false;
	const uint32_t* awPtr = nullptr; uint32_t awVal = 0; bool awNe = false;
};
static std::vector<Thr*> theThr;
static std::vector<bool> theFin;
static bool theDead = false, theRunning = false;
static sem_t theMainSem;
static thread_local Thr* theCur = nullptr;
static thread_local int theAtomic = 0;
static thread_local int theTid = 0;
static void Wait(sem_t* s) { while (sem_wait(s) != 0) {} }
static void Yield()
{
	sem_post(&theMainSem);
	Wait(&theCur->sem);
}
static void Visible()
{
	if (!theCur || theAtomic > 0)
		return;
	while (theCur->budget == 0)
		Yield();
	--theCur->budget;
	// The last turn of an unwinding violation.
	if (theCur->endless && theCur->budget < 1000000 - 20000)
		vx_fail("endless loop");
}
static void* ThreadMain(void* p)
{
	Thr* t = (Thr*)p;
	theCur = t;
	for (size_t i = 0; i < theThr.size(); ++i) if (theThr[i] == t) theTid = (int)i + 1;
	Wait(&t->sem);
	t->fn(t->arg);
	t->finished = true;
	theCur = nullptr;
	sem_post(&theMainSem);
	return nullptr;
}
// happens-before tokens
struct Know { uint32_t know = 0, rel = 0, pend = 0; };
static std::map<int, Know> theKnow;
static std::map<const void*, uint32_t> theShadow;
extern "C" {
uint64_t vx_u64(void) { return Next(); }
uint32_t vx_u32(void) { return (uint32_t)Next(); }
uint16_t vx_u16(void) { return (uint16_t)Next(); }
uint8_t vx_u8(void) { return (uint8_t)Next(); }
bool vx_bool(void) { return Next() != 0; }
void vx_assume(bool c)
{
	if (!c)
	{
		printf("VX-ASSUME\n");
		fflush(stdout);
		_exit(0);
	}
}
uint64_t vx_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = Next();
	vx_assume(v >= lo && v <= hi);
	return v;
}
void vx_fail(const char* m)
{
	printf("VX-VIOLATION %s\n", m);
	fflush(stdout);
	_exit(1);
}
void vx_assert(bool c, const char* m)
{
	if (!c)
		vx_fail(m);
}
void vx_reach(const char* l) { printf("VX-REACH %s\n", l); fflush(stdout); }
int64_t vx_live_allocs(void) { return theLive; }
int vx_thread(void (*f)(void*), void* a)
{
	Thr* t = new Thr;
	t->fn = f; t->arg = a;
	sem_init(&t->sem, 0, 0);
	theThr.push_back(t);
	theKnow[theThr.size()] = theKnow[0];
	return (int)theThr.size() - 1;
}
void vx_run(unsigned)
{
	theRunning = true;
	sem_init(&theMainSem, 0, 0);
	for (size_t i = 0; i < theThr.size(); ++i)
		theKnow[i + 1] = theKnow[0];
	for (Thr* t : theThr)
		pthread_create(&t->th, nullptr, ThreadMain, t);
	for (const Turn& u : theSchedule)
	{
		if ((size_t)u.tid >= theThr.size()) break;
		Thr* t = theThr[u.tid];
		if (t->finished) continue;
		t->budget = u.count;
		t->endless = u.count == 1000000;
		sem_post(&t->sem);
		Wait(&theMainSem);
	}
	bool all = true, any = false;
	for (Thr* t : theThr)
	{
		theFin.push_back(t->finished);
		bool stuck = !t->finished && t->awPtr != nullptr && (t->awNe ? *t->awPtr == t->awVal : *t->awPtr != t->awVal);
		if (!t->finished && !stuck) all = false;
		if (stuck) any = true;
	}
	theDead = all && any;
	theRunning = false;
	for (size_t i = 0; i < theThr.size(); ++i) theKnow[0].know |= theKnow[i + 1].know;
}
bool vx_finished(int t) { return theFin[t]; }
bool vx_deadlock(void) { return theDead; }
static void Await(const uint32_t* p, uint32_t v, bool ne)
{
	if (!theCur)
	{
		if (ne ? *p == v : *p != v)
			vx_fail("deadlock: the main thread waits for ever");
		return;
	}
	for (;;)
	{
		theCur->awPtr = p; theCur->awVal = v; theCur->awNe = ne;
		while (theAtomic == 0 && theCur->budget == 0)
			Yield();
		theCur->awPtr = nullptr;
		if (ne ? *p != v : *p == v)
			break;
		theCur->awPtr = p; theCur->awVal = v; theCur->awNe = ne;
		Yield();
		theCur->awPtr = nullptr;
	}
	if (theAtomic == 0)
		--theCur->budget;
	Know& k = theKnow[theTid];
	k.know |= theShadow[p];
}
void vx_await(const uint32_t* p, uint32_t v) { Await(p, v, false); }
void vx_await_ne(const uint32_t* p, uint32_t v) { Await(p, v, true); }
void vx_visible(void) { Visible(); }
void vx_visible_(void) { Visible(); }
void vx_atomic_begin(void) { ++theAtomic; }
void vx_atomic_end(void) { --theAtomic; }
int vx_tid(void) { return theTid; }
void vx_hb_on(void) {}
void vx_hb_write(unsigned k) { theKnow[theTid].know |= 1u << k; }
bool vx_hb_read(unsigned k) { return theKnow[theTid].know >> k & 1; }
void vx_hb_op_(const void* p, int ld, int st, int rmw, int acq, int rel)
{
	Know& k = theKnow[theTid];
	uint32_t& sh = theShadow[p];
	uint32_t old = sh;
	if (ld) { if (acq) k.know |= old; else k.pend |= old; }
	if (st) { uint32_t add = rel ? k.know : k.rel; sh = rmw ? (old | add) : add; }
}
void vx_hb_fence_(int acq, int rel)
{
	Know& k = theKnow[theTid];
	if (acq) k.know |= k.pend;
	if (rel) k.rel = k.know;
}
// The heap.
void* vx_rt_malloc(size_t n) { ++theLive; void* p = malloc(n ? n : 1); memset(p, theFill, n); return p; }
void* vx_rt_calloc(size_t a, size_t b) { ++theLive; return calloc(a, b); }
void* vx_rt_realloc(void* p, size_t n) { if (!p) ++theLive; return realloc(p, n); }
void* vx_rt_aligned_alloc(size_t a, size_t n) { ++theLive; void* p = aligned_alloc(a, (n + a - 1) / a * a); memset(p, theFill, n); return p; }
void vx_rt_free(void* p) { if (p) { --theLive; free(p); } }
static bool theStarted = false;
}
int main(int argc, char** argv)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if (argc > 2) theFill = atoi(argv[2]);
	if (argc > 1)
	{
		FILE* f = fopen(argv[1], "r");
		char kind;
		while (f && fscanf(f, " %c", &kind) == 1)
		{
			if (kind == 'i')
			{
				unsigned long long v;
				if (fscanf(f, "%llu", &v) == 1) theIn.push_back(v);
			}
			else if (kind == 's')
			{
				Turn t;
				if (fscanf(f, "%d %d %ld", &t.round, &t.tid, &t.count) == 3) theSchedule.push_back(t);
			}
			else
				break;
		}
		if (f) fclose(f);
	}
	theLive = 0;
	vx_main();
	printf("VX-END\n");
	fflush(stdout);
	_exit(0);
}
