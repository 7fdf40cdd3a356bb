// Abstraction of mg::box::InterruptibleMutex by its specification (see the check C11).
#pragma once
#include "vx.h"
#include "mg/box/DoublyList.h"
#include "mg/box/Signal.h"
#include <functional>
namespace mg { namespace box {
	using InterruptibleMutexWakeupCallback = std::function<void()>;
	class InterruptibleMutex
	{
	public:
		InterruptibleMutex() : myOwner(0), myCount(0) {}
		~InterruptibleMutex() { vx_assert(myOwner == 0, "a locked mutex is destroyed"); }
		void Lock(const InterruptibleMutexWakeupCallback& aWakeup)
		{
			if (TryLock())
				return;
			if (myCount == 0)
			{
				vx_atomic_begin();
				aWakeup();
				vx_atomic_end();
			}
			vx_assert(myCount < 4, "bounds of the model");
			myWaiters[myCount++] = vx_tid() + 1;
			vx_await(&myOwner, vx_tid() + 1);
		}
		bool TryLock()
		{
			uint32_t e = 0;
			return __atomic_compare_exchange_n(&myOwner, &e, (uint32_t)vx_tid() + 1, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
		}
		void Unlock()
		{
			vx_assert(myOwner == (uint32_t)vx_tid() + 1, "unlock of a mutex which is not locked by this thread");
			vx_visible();
			uint32_t next = 0;
			if (myCount > 0)
			{
				next = myWaiters[0];
				--myCount;
				for (uint32_t i = 0; i < 3; ++i)
					myWaiters[i] = myWaiters[i + 1];
			}
			vx_atomic_begin();
			__atomic_store_n(&myOwner, next, __ATOMIC_RELEASE);
			vx_atomic_end();
		}
	private:
		uint32_t myOwner;
		uint32_t myCount;
		uint32_t myWaiters[4] = {};
	};
} }
