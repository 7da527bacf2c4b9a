// C31: what the standard streams are connected to
#include "child.hpp"
#include "pbt.hpp"

#include <cstdlib>
#include <sys/socket.h>

#include <utki/debug.hpp>
#include <utki/utility.hpp>

const char* const pbt::rule = "the streams are connected to different kinds of things, at least one of them a terminal";

namespace {
enum kind : uint8_t {
	terminal,
	pipe_end,
	file,
	null_device,
	socket_end,
	closed,
	enum_size
};

const char* const kind_name[] = {"terminal", "pipe", "file", "null device", "socket", "closed"};

struct resources {
	int master = -1;
	int slave = -1;
	int second_master = -1;
	int second_slave = -1;
	int pipe[2] = {-1, -1};
	int file_fd = -1;
	int null = -1;
	int sock[2] = {-1, -1};

	static void open_terminal(int& m, int& s)
	{
		m = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
		if (m < 0 || grantpt(m) != 0 || unlockpt(m) != 0) {
			s = -1;
			return;
		}
		char name[128];
		if (ptsname_r(m, name, sizeof(name)) != 0) {
			return;
		}
		s = open(name, O_RDWR | O_NOCTTY | O_CLOEXEC);
	}

	resources()
	{
		open_terminal(master, slave);
		open_terminal(second_master, second_slave);
		if (pipe2(pipe, O_CLOEXEC) != 0) {
			throw std::runtime_error("harness: pipe");
		}
		file_fd = memfd_create("c31", MFD_CLOEXEC);
		null = open("/dev/null", O_RDWR | O_CLOEXEC);
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sock) != 0) {
			sock[0] = pipe[0];
		}
	}

	int get(kind k, int stream, bool second)
	{
		switch (k) {
			case terminal:
				return second ? second_slave : slave;
			case pipe_end:
				return stream == 0 ? pipe[0] : pipe[1];
			case file:
				return file_fd;
			case null_device:
				return null;
			case socket_end:
				return sock[0];
			default:
				return -1;
		}
	}
};

resources& res()
{
	static resources r;
	return r;
}

void connect(kind k, int stream, bool second)
{
	if (k == closed) {
		close(stream);
	} else {
		dup2(res().get(k, stream, second), stream);
	}
}

struct answers {
	int n = 0;
	bool a[16][6];
};

struct step {
	kind k[3];
	bool second[3];
};
} // namespace

PROPERTY("streams", 3)
{
	auto& r = res();
	if (r.slave < 0 || r.second_slave < 0) {
		g.label("no terminals can be made here");
	}
	auto n = 1 + g.choice(3);
	std::vector<step> steps;
	bool mixed = false;
	for (size_t i = 0; i != n; ++i) {
		step s;
		bool has_terminal = false;
		bool has_other = false;
		for (int k = 0; k != 3; ++k) {
			s.k[k] = kind(g.choice(1) ? g.choice(enum_size - 1) : size_t(terminal));
			if (s.k[k] == terminal && r.second_slave < 0) {
				s.k[k] = pipe_end;
			}
			s.second[k] = g.boolean();
			has_terminal = has_terminal || s.k[k] == terminal;
			has_other = has_other || s.k[k] != terminal;
		}
		mixed = mixed || (has_terminal && has_other);
		steps.push_back(s);
	}
	if (mixed) {
		g.nontrivial();
	}
	g.say([&] {
		std::string s;
		for (auto& x : steps) {
			s += pbt::cat("input ", kind_name[x.k[0]], ", output ", kind_name[x.k[1]], ", error ", kind_name[x.k[2]], "; ");
		}
		return s;
	});
	child::shared_area<answers> a;
	auto out = child::run([&] {
		for (auto& s : steps) {
			for (int k = 0; k != 3; ++k) {
				connect(s.k[k], k, s.second[k]);
			}
			auto& x = a->a[a->n];
			x[0] = utki::is_terminal_cin();
			x[1] = utki::is_terminal_cout();
			x[2] = utki::is_terminal_cerr();
			x[3] = utki::is_cin_terminal();
			x[4] = utki::is_cout_terminal();
			x[5] = utki::is_cerr_terminal();
			++a->n;
		}
	});
	CHECK(out.survived(), "asking ends the program: ", out.how());
	const char* const names[] = {"input", "output", "error"};
	for (size_t i = 0; i != steps.size(); ++i) {
		for (int k = 0; k != 3; ++k) {
			CHECK_EQ(a->a[i][k], steps[i].k[k] == terminal, " terminal as standard ", names[k], " in step ", i);
			CHECK_EQ(a->a[i][k + 3], steps[i].k[k] == terminal, " terminal as standard ", names[k], " in step ", i, " by old name");
		}
	}
}

// the message of a failed assertion is coloured exactly when standard error is a terminal
PROPERTY("assertion_colour", 1)
{
	auto& r = res();
	kind k[3];
	for (int i = 0; i != 3; ++i) {
		k[i] = kind(g.choice(enum_size - 1));
		if (k[i] == terminal && r.slave < 0) {
			k[i] = pipe_end;
		}
	}
	bool to_terminal = g.boolean() && r.slave >= 0;
	if (to_terminal) {
		g.nontrivial();
	}
	g.say([&] {
		return pbt::cat("input ", kind_name[k[0]], ", output ", kind_name[k[1]], ", error ", to_terminal ? "terminal" : "pipe");
	});
	auto text = g.text(10, "abc ");
	std::string got;
	if (to_terminal) {
		int m = -1;
		int s = -1;
		resources::open_terminal(m, s);
		if (s < 0) {
			return;
		}
		auto out = child::run([&] {
			connect(k[0], 0, false);
			connect(k[1], 1, false);
			dup2(s, 2);
			utki::assert_always(false, [&](std::ostream& o) { o << text; }, utki::source_location(7, 0, "file"));
		});
		CHECK(out.aborted(), "failed assertion does not abort ", out.how());
		fcntl(m, F_SETFL, O_NONBLOCK);
		// the terminal is ours alone, its output is there once the child has ended
		for (int i = 0; i != 200 && got.find(text + "\r\n", got.find("failed")) == std::string::npos; ++i) {
			char b[1024];
			auto nr = read(m, b, sizeof(b));
			if (nr > 0) {
				got.append(b, size_t(nr));
			} else {
				usleep(1000);
			}
		}
		close(s);
		close(m);
		CHECK(got.find("\x1b[") != std::string::npos, "no colour on terminal in ", pbt::quote(got));
		// without the colour sequences it is ordinary text
		std::string plain;
		for (size_t i = 0; i < got.size(); ++i) {
			if (got[i] == '\x1b' && i + 1 < got.size() && got[i + 1] == '[') {
				auto e = got.find_first_not_of("0123456789;:", i + 2);
				if (e != std::string::npos && got[e] == 'm') {
					i = e;
					continue;
				}
			}
			plain += got[i];
		}
		for (auto c : plain) {
			CHECK((c >= ' ' && c <= '~') || c == '\r' || c == '\n' || c == '\t', "broken colour sequence in ", pbt::quote(got));
		}
	} else {
		auto out = child::run([&] {
			connect(k[0], 0, false);
			connect(k[1], 1, false);
			utki::assert_always(false, [&](std::ostream& o) { o << text; }, utki::source_location(7, 0, "file"));
		});
		CHECK(out.aborted(), "failed assertion does not abort ", out.how());
		got = out.err;
		CHECK(got.find("\x1b[") == std::string::npos, "colour outside of terminal in ", pbt::quote(got));
	}
	CHECK(got.find("file:7") != std::string::npos && got.find("assertion failed") != std::string::npos && got.find(text) != std::string::npos, "message ", pbt::quote(got));
}
