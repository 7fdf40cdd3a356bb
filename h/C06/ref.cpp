#include "vx.h"
#include "mg/box/SharedPtr.h"

// Threads own pointers to one object, copy and drop them in any order.
class Obj
{
	SHARED_PTR_API(Obj, myRef)
public:
	Obj() : myData(7) {}
private:
	~Obj();
public:
	uint32_t myData;
	mg::box::RefCount myRef;
};
static unsigned theDestroyed;
static uint32_t theUsed; // who has used the object
static bool theSeen = true;
Obj::~Obj()
{
	vx_assert(++theDestroyed == 1, "destroyed twice");
	for (unsigned i = 0; i < THREADS; ++i)
		if (theUsed >> i & 1)
			vx_assert(vx_hb_read(i), "a use of the object does not happen before its destruction");
	myData = 0;
}
static Obj::Ptr thePtr[THREADS];
static void Use(Obj::Ptr& p, unsigned t)
{
	vx_assert(p->myData == 7, "used after destruction");
	vx_atomic_begin();
	theUsed |= 1u << t;
	vx_atomic_end();
	vx_hb_write(t);
}
static void Thread(void* a)
{
	unsigned t = (unsigned)(size_t)a;
	Obj::Ptr& p = thePtr[t];
	switch (KINDS[t])
	{
	case 'd': // use and drop
		Use(p, t);
		p.Clear();
		break;
	case 'c': // copy, use, drop both
	{
		Obj::Ptr q = p;
		p.Clear();
		Use(q, t);
		break;
	}
	case 'm': // move, copy back, drop
	{
		Obj::Ptr q(static_cast<Obj::Ptr&&>(p));
		p = q;
		q.Clear();
		Use(p, t);
		p.Set(nullptr);
		break;
	}
	case 'n': // replace by a new one
	{
		Use(p, t);
		p = Obj::Ptr();
		break;
	}
	}
}
extern "C" void vx_main()
{
	vx_hb_on();
	{
		Obj::Ptr p = Obj::NewShared();
		for (unsigned i = 0; i < THREADS; ++i) thePtr[i] = p;
	}
	for (unsigned i = 0; i < THREADS; ++i) vx_thread(Thread, (void*)(size_t)i);
	vx_run(ROUNDS);
	for (unsigned i = 0; i < THREADS; ++i) vx_assume(vx_finished(i));
	vx_assert(theDestroyed == 1, "not destroyed");
	vx_assert(vx_live_allocs() == 0, "leaked");
	vx_reach("end");
}
