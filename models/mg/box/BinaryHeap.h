// The intrusive heap is replaced by its specification (see the check C03) where it is asked for.
#pragma once
#ifndef VX_HEAP_MODEL
#include_next "mg/box/BinaryHeap.h"
#else
#include "vx.h"
#include <cstdint>
namespace mg { namespace box {
	template<typename T, int32_t T::*myIndex = &T::myIndex>
	class BinaryHeapMinIntrusive
	{
	public:
		void Push(T* aItem)
		{
			vx_assert(aItem->*myIndex == -1 && myCount < VX_HEAP_MODEL, "push into the heap");
			bool done = false;
			for (int32_t i = 0; i < VX_HEAP_MODEL; ++i)
			{
				bool here = !done && myItems[i] == nullptr;
				aItem->*myIndex = here ? i : aItem->*myIndex;
				myItems[i] = here ? aItem : myItems[i];
				done = done || here;
			}
			++myCount;
		}
		void Remove(T* aItem)
		{
			int32_t idx = aItem->*myIndex;
			bool found = false;
			for (int32_t i = 0; i < VX_HEAP_MODEL; ++i)
			{
				found = found || (i == idx && myItems[i] == aItem);
				myItems[i] = i == idx ? nullptr : myItems[i];
			}
			vx_assert(found, "the removed item is not in the heap");
			aItem->*myIndex = -1;
			--myCount;
		}
		bool RemoveTop()
		{
			if (myCount == 0)
				return false;
			Remove(GetTop());
			return true;
		}
		T* GetTop()
		{
			T* r = nullptr;
			for (int32_t i = 0; i < VX_HEAP_MODEL; ++i)
				if (myItems[i] != nullptr && (r == nullptr || !(*r <= *myItems[i])))
					r = myItems[i];
			return r;
		}
		uint32_t Count() const { return myCount; }
	private:
		T* myItems[VX_HEAP_MODEL] = {};
		uint32_t myCount = 0;
	};
} }
#endif
