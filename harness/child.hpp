// Runs a function in a forked process whose standard streams are under control of the check.
#pragma once

#include "pbt.hpp"

#include <csignal>
#include <fcntl.h>
#include <functional>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace child {
struct result {
	int status = 0;
	std::string out;
	std::string err;

	bool aborted() const
	{
		return WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT;
	}

	bool survived() const
	{
		return WIFEXITED(status) && WEXITSTATUS(status) == 77;
	}

	std::string how() const
	{
		return WIFSIGNALED(status) ? pbt::cat("signal ", WTERMSIG(status)) : pbt::cat("exit ", WEXITSTATUS(status));
	}
};

// memory shared with the child
template <typename T>
class shared_area
{
	T* p;

public:
	shared_area() :
		p(static_cast<T*>(mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)))
	{
		new (p) T();
	}

	shared_area(const shared_area&) = delete;

	~shared_area()
	{
		munmap(static_cast<void*>(p), sizeof(T));
	}

	T* operator->()
	{
		return p;
	}

	T& operator*()
	{
		return *p;
	}
};

// The function runs with standard output and error connected to pipes. After it the child ends without flushing
// anything.
inline result run(const std::function<void()>& f)
{
	int po[2];
	int pe[2];
	if (pipe2(po, O_CLOEXEC) != 0 || pipe2(pe, O_CLOEXEC) != 0) {
		throw std::runtime_error("harness: pipe");
	}
	auto pid = fork();
	if (pid < 0) {
		throw std::runtime_error("harness: fork");
	}
	if (pid == 0) {
		signal(SIGABRT, SIG_DFL);
		dup2(po[1], 1);
		dup2(pe[1], 2);
		try {
			f();
		} catch (...) {
			_exit(78);
		}
		_exit(77);
	}
	close(po[1]);
	close(pe[1]);
	result r;
	bool open_o = true;
	bool open_e = true;
	while (open_o || open_e) {
		pollfd fds[2] = {{open_o ? po[0] : -1, POLLIN, 0}, {open_e ? pe[0] : -1, POLLIN, 0}};
		if (poll(fds, 2, -1) < 0) {
			continue;
		}
		auto take = [](pollfd& p, std::string& s, bool& is_open) {
			if (p.revents != 0) {
				char b[4096];
				auto n = read(p.fd, b, sizeof(b));
				if (n <= 0) {
					is_open = false;
				} else {
					s.append(b, size_t(n));
				}
			}
		};
		take(fds[0], r.out, open_o);
		take(fds[1], r.err, open_e);
	}
	close(po[0]);
	close(pe[0]);
	waitpid(pid, &r.status, 0);
	return r;
}
} // namespace child
