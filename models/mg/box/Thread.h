// Threads of the harness instead of the ones of the system.
#pragma once
#include "vx.h"
#include "mg/box/Atomic.h"
#include "mg/box/ConditionVariable.h"
#include "mg/box/Mutex.h"
#include <string>
#include <thread>
#define MG_THREADLOCAL thread_local
namespace mg { namespace box {
	using ThreadId = uint32_t;
	class Thread
	{
	public:
		Thread(const char* = "anon_thread") : myIsStopRequested(false), myIsOver(1) {}
		void Start() { myIsOver = 0; vx_thread(Main, this); }
		void Stop() { myIsStopRequested.StoreRelease(true); }
		void BlockingStop() { Stop(); vx_await(&myIsOver, 1); }
		void StopAndDelete() { BlockingStop(); delete this; }
		bool StopRequested() { return myIsStopRequested.LoadAcquire(); }
		bool IsRunning() { return myIsOver == 0; }
	protected:
		virtual ~Thread() { vx_assert(myIsOver != 0, "a running thread is deleted"); }
	private:
		static void Main(void* aThread)
		{
			((Thread*)aThread)->Run();
			__atomic_store_n(&((Thread*)aThread)->myIsOver, 1u, __ATOMIC_RELEASE);
		}
		virtual void Run() = 0;
		AtomicBool myIsStopRequested;
		uint32_t myIsOver;
	};
	void Sleep(uint64_t aDuration);
	ThreadId GetCurrentThreadId();
} }
