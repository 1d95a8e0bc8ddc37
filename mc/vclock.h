// Virtual clock: every reading of time by the code under test is answered by the harness.
#pragma once
#include <cstdint>
#include <ctime>
#include <sys/time.h>

namespace vclock
{
	inline bool active = false;
	inline std::int64_t wall_us = 1600000000000000ll; // CLOCK_REALTIME, may step back
	inline std::int64_t mono_us = 1000000000ll; // CLOCK_MONOTONIC, never steps back
	inline void reset()
	{
		wall_us = 1600000000000000ll;
		mono_us = 1000000000ll;
	}
	inline void advance(std::int64_t us)
	{
		wall_us += us;
		mono_us += us;
	}
} // namespace vclock

#ifdef VERIF_VCLOCK
#include <sys/syscall.h>
#include <unistd.h>
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
	if (!vclock::active) return (int) syscall(SYS_clock_gettime, id, ts);
	std::int64_t us = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? vclock::wall_us : vclock::mono_us;
	ts->tv_sec = us / 1000000;
	ts->tv_nsec = (us % 1000000) * 1000;
	return 0;
}
extern "C" time_t time(time_t *t) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
#endif
