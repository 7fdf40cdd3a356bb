// A model of the kernel for the IO core: epoll (edge-triggered), eventfd, poll, and one connection.
#pragma once
#define EPFD 100
#define EVFD 101
#define OS_OTHER(fd) ((fd) == EPFD || (fd) == EVFD)
#include "../sio/sock.h"
#include <sys/epoll.h>
#include <sys/eventfd.h>
static bool osSignal; // the eventfd was written
static void* osTaskOf[MAXFD]; // registered descriptors
static bool osRegistered[MAXFD];
extern "C" { extern uint64_t vx_now; uint64_t vx_now = 1000; }
static bool AnyRegistered()
{
	for (unsigned i = 0; i < MAXFD; ++i)
		if (osRegistered[i]) return true;
	return false;
}
static uint32_t osEvents; // of the registered descriptor to be returned by the next epoll_wait()
static bool osPolled, osBlocked;
extern "C" {
int epoll_create1(int) noexcept { return EPFD; }
int eventfd(unsigned, int) noexcept { return EVFD; }
int eventfd_write(int fd, eventfd_t) { vx_assert(fd == EVFD, "eventfd"); osSignal = true; return 0; }
int epoll_ctl(int ep, int op, int fd, struct epoll_event* e) noexcept
{
	vx_assert(ep == EPFD, "epoll descriptor");
	if (fd == EVFD)
	{
		vx_assert(op == EPOLL_CTL_ADD && e->events == (EPOLLIN | EPOLLET) && e->data.ptr == nullptr, "registration of the eventfd");
		return 0;
	}
	vx_assert(IsOpen(fd), "a wrong descriptor is given to epoll");
	for (unsigned i = 0; i < MAXFD; ++i)
		if (fd == 3 + (int)i)
		{
			vx_assert(osRegistered[i] == (op == EPOLL_CTL_DEL), "epoll registration");
			osRegistered[i] = op == EPOLL_CTL_ADD;
			if (op == EPOLL_CTL_ADD)
			{
				vx_assert((e->events & (EPOLLIN | EPOLLOUT | EPOLLET)) == (EPOLLIN | EPOLLOUT | EPOLLET), "not all events are listened for");
				osTaskOf[i] = e->data.ptr;
			}
		}
	return 0;
}
int epoll_wait(int ep, struct epoll_event* evs, int max, int timeout)
{
	vx_assert(ep == EPFD && max >= 2 && timeout == 0, "epoll_wait arguments");
	int n = 0;
	if (osSignal)
	{
		evs[0].events = EPOLLIN;
		evs[0].data.ptr = nullptr;
		osSignal = false;
		n = 1;
	}
	for (unsigned i = 0; i < MAXFD; ++i)
		if (osRegistered[i] && osEvents != 0)
		{
			evs[n].events = osEvents;
			evs[n].data.ptr = osTaskOf[i];
			osEvents = 0;
			++n;
		}
	return n;
}
static int osTimeout;
static int OsPoll(struct pollfd* fds, nfds_t n, int timeout)
{
	vx_assert(n == 1 && fds->fd == EPFD && fds->events == POLLIN, "poll arguments");
	osPolled = true;
	osTimeout = timeout;
	return 0;
}
}
