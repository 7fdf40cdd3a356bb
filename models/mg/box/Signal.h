// Abstraction of mg::box::Signal by its specification (what the check C10 shows about the real one).
#pragma once
#include "vx.h"
#include "mg/box/Atomic.h"
#include "mg/box/ConditionVariable.h"
#include "mg/box/Mutex.h"
#include "mg/box/Time.h"
extern "C" uint64_t vx_now; // milliseconds
namespace mg { namespace box {
	class Signal
	{
	public:
		Signal() : myState(0) {}
		void Send() { __atomic_exchange_n(&myState, 1u, __ATOMIC_RELEASE); }
		bool Receive()
		{
			uint32_t e = 1;
			return __atomic_compare_exchange_n(&myState, &e, 0u, false, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED);
		}
		void ReceiveBlocking()
		{
			vx_await(&myState, 1);
			myState = 0;
		}
		bool ReceiveTimed(TimeLimit aLimit)
		{
			uint64_t deadline = aLimit.ToPointFromNow().myValue;
			if (Receive())
				return true;
			if (deadline == MG_TIME_INFINITE)
			{
				ReceiveBlocking();
				return true;
			}
			if (Receive())
				return true;
			if (vx_now < deadline)
				vx_now = deadline;
			return false;
		}
	private:
		uint32_t myState;
	};
} }
