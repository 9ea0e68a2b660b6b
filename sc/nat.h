// Helpers for programs run natively under ASan + UBSan.
#pragma once
#include "h.h"
#include <cstdlib>
#include <exception>
#include <sys/wait.h>
#include <unistd.h>
extern "C" void vrt_child();
namespace h {
	// Exit status of a child process that runs f: 42 if std::terminate was called, 0 if f returned,
	// whatever f passed to _exit otherwise, 1000 + signal if it was killed.
	template<class F>
	int in_child(F&& f) {
		fflush(nullptr);
		pid_t p = fork();
		if (p == 0) {
			vrt_child();
			alarm(20);
			std::set_terminate([]() { _exit(42); });
			if (!freopen("/dev/null", "w", stderr)) _exit(99);
			f();
			_exit(0);
		}
		if (p < 0) return -1;
		int st = 0;
		while (waitpid(p, &st, 0) < 0) {}
		return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
	}
} // namespace h
