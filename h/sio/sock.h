// A model of the system for plain non-blocking sockets: any outcome of each call.
#pragma once
#include "vx.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#ifndef MAXFD
#define MAXFD 4
#endif
static unsigned osFdCount; // descriptors given out, 3 + index
static bool osOpen[MAXFD];
static int osErr; // the last error of a call
static bool osErrors = true; // calls can fail
static int AnyErr()
{
	osErr = (int)vx_range(1, 133);
	vx_assume(osErr != EAGAIN && osErr != EINPROGRESS);
	errno = osErr;
	return -1;
}
static bool Fails() { errno = 0; return osErrors && vx_bool(); }
static int NewFd()
{
	vx_assert(osFdCount < MAXFD, "bounds of the harness");
	osOpen[osFdCount] = true;
	return 3 + (int)osFdCount++;
}
static bool IsOpen(int fd)
{
	for (unsigned i = 0; i < MAXFD; ++i)
		if (fd == 3 + (int)i && osOpen[i]) return true;
	return false;
}
static bool NothingOpen()
{
	for (unsigned i = 0; i < MAXFD; ++i)
		if (osOpen[i]) return false;
	return true;
}
#ifndef OS_OTHER
#define OS_OTHER(fd) false // descriptors which are not sockets
#endif
extern "C" int close(int fd)
{
	if (OS_OTHER(fd)) return 0;
	vx_assert(IsOpen(fd), "a wrong descriptor is closed");
	for (unsigned i = 0; i < MAXFD; ++i)
		if (fd == 3 + (int)i) osOpen[i] = false;
	return 0;
}
