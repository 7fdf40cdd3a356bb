// Abstraction of mg::box::MultiConsumerQueue by its specification (see the checks C08, C09).
#pragma once
#include "vx.h"
#include <cstdint>
#ifndef VX_MCQ_MAX
#define VX_MCQ_MAX 8
#endif
namespace mg { namespace box {
	template<typename T> class MultiConsumerQueueConsumer;
	template<typename T>
	class MultiConsumerQueue
	{
	public:
		MultiConsumerQueue(uint32_t) : myPushed(0), myFlushed(0), myPopped(0), myConsumers(0) {}
		bool Push(T* aItem) { PushPending(aItem); return FlushPending(); }
		bool PushPending(T* aItem)
		{
			vx_assert(myPushed < MAX, "bounds of the model");
			for (uint32_t i = 0; i < MAX; ++i) // with constant indexes it is easier for the solver
				myItems[i] = i == myPushed ? aItem : myItems[i];
			++myPushed;
			return true;
		}
		bool FlushPending()
		{
			if (myFlushed == myPushed)
				return false;
			__atomic_store_n(&myFlushed, myPushed, __ATOMIC_RELEASE);
			return true;
		}
		void Reserve(uint32_t) {}
		uint32_t ConsumerCount() { return myConsumers; }
		// The real counter is decreased a bit later than the item is taken. It is not modeled: in this
		// moment the other workers can only spin till it is done.
		uint32_t Count()
		{
			uint32_t n = __atomic_load_n(&myFlushed, __ATOMIC_RELAXED);
			return n - myPopped;
		}
	private:
		enum { MAX = VX_MCQ_MAX };
		T* myItems[MAX] = {};
		uint32_t myPushed, myFlushed, myPopped, myConsumers;
		friend class MultiConsumerQueueConsumer<T>;
	};
	template<typename T>
	class MultiConsumerQueueConsumer
	{
	public:
		MultiConsumerQueueConsumer() : myQueue(nullptr) {}
		MultiConsumerQueueConsumer(MultiConsumerQueue<T>* aQueue) : myQueue(nullptr) { Attach(aQueue); }
		~MultiConsumerQueueConsumer() { Detach(); }
		T* Pop()
		{
			uint32_t n = __atomic_load_n(&myQueue->myFlushed, __ATOMIC_ACQUIRE);
			if (myQueue->myPopped == n)
				return nullptr;
			T* r = nullptr;
			for (uint32_t i = 0; i < MultiConsumerQueue<T>::MAX; ++i)
				r = i == myQueue->myPopped ? myQueue->myItems[i] : r;
			++myQueue->myPopped;
			return r;
		}
		void Attach(MultiConsumerQueue<T>* aQueue) { myQueue = aQueue; ++myQueue->myConsumers; }
		void Detach() { if (myQueue) { --myQueue->myConsumers; myQueue = nullptr; } }
	private:
		MultiConsumerQueue<T>* myQueue;
	};
} }
