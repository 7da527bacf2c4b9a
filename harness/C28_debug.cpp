// C28: assertions and logging
#include "child.hpp"
#include "pbt.hpp"

#include <iostream>
#include <memory>
#include <sstream>

#include <utki/debug.hpp>
#include <utki/log.hpp>

const char* const pbt::rule = "a violated assertion, or at least two log messages";

#ifdef DEBUG
constexpr bool debug_build = true;
#else
constexpr bool debug_build = false;
#endif

namespace {
struct counters {
	int condition = 0;
	int print = 0;
	int argument = 0;
};

const std::string_view alphabet("abc %\\\n\t:\x1b[0m\xc3\xa9");
} // namespace

PROPERTY("assertion", 3)
{
	bool holds = g.chance(2, 5);
	auto kind = g.choice(14);
	bool with_print = g.boolean();
	auto message = g.text(20, alphabet);
	auto file = g.text(10, "abc./_-%");
	auto line = uint32_t(g.bits(32));
	bool null_print = with_print && g.chance(1, 10);
	child::shared_area<counters> c;
	auto print = null_print ? std::function<void(std::ostream&)>() : std::function<void(std::ostream&)>([&](std::ostream& o) {
		++c->print;
		o << message;
	});
	auto checker = std::function<bool()>([&] {
		++c->condition;
		return holds;
	});
	auto sl = utki::source_location(line, 3, file.c_str());
	int object = 5;
	int* raw = holds ? &object : nullptr;
	const int* craw = raw;
	std::shared_ptr<int> shared = holds ? std::make_shared<int>(1) : nullptr;
	std::unique_ptr<std::string> unique = holds ? std::make_unique<std::string>("a") : nullptr;
	std::function<int(int)> function = holds ? std::function<int(int)>([](int i) { return i; }) : nullptr;
	bool always = false;
	int condition_evaluated = -1; // expected
	bool message_expected = with_print && !null_print;
	std::string here_file = __FILE__;
	int here_line = 0;

	std::function<void()> f;
	std::string name;
	switch (kind) {
		case 0:
		case 1:
			name = "assert_always(bool)";
			always = true;
			f = [&] {
				if (with_print) {
					utki::assert_always(holds, print, sl);
				} else {
					utki::assert_always(holds, sl);
				}
			};
			break;
		case 2:
			name = "assert(bool)";
			f = [&] {
				if (with_print) {
					utki::assert(holds, print, sl);
				} else {
					utki::assert(holds, sl);
				}
			};
			break;
		case 3:
			name = "assert(function)";
			condition_evaluated = debug_build ? 1 : 0;
			f = [&] {
				if (with_print) {
					utki::assert(checker, print, sl);
				} else {
					utki::assert(checker, sl);
				}
			};
			break;
		case 4:
			name = "assert(pointer)";
			f = [&] {
				if (with_print) {
					utki::assert(raw, print, sl);
				} else {
					utki::assert(raw, sl);
				}
			};
			break;
		case 5:
			name = "assert(const pointer)";
			f = [&] {
				if (with_print) {
					utki::assert(craw, print, sl);
				} else {
					utki::assert(craw, sl);
				}
			};
			break;
		case 6:
			name = "assert(shared_ptr)";
			f = [&] {
				if (with_print) {
					utki::assert(shared, print, sl);
				} else {
					utki::assert(shared, sl);
				}
			};
			break;
		case 7:
			name = "assert(unique_ptr)";
			f = [&] {
				if (with_print) {
					utki::assert(unique, print, sl);
				} else {
					utki::assert(unique, sl);
				}
			};
			break;
		case 8:
			name = "assert(std::function which returns int)";
			f = [&] {
				if (with_print) {
					utki::assert(function, print, sl);
				} else {
					utki::assert(function, sl);
				}
			};
			break;
		case 9:
			name = "ASSERT(condition)";
			with_print = false;
			message_expected = false;
			file = here_file;
			condition_evaluated = debug_build ? 1 : 0;
			here_line = __LINE__ + 2;
			f = [&] {
				ASSERT(checker())
			};
			break;
		case 10:
			name = "ASSERT(condition, print)";
			message_expected = true;
			with_print = true;
			null_print = false;
			file = here_file;
			condition_evaluated = debug_build ? 1 : 0;
			here_line = __LINE__ + 2;
			f = [&] {
				ASSERT(checker(), [&](auto& o) { ++c->print; o << message; })
			};
			break;
		case 11:
			name = "assert_always with SL";
			always = true;
			with_print = false;
			message_expected = false;
			file = here_file;
			here_line = __LINE__ + 2;
			f = [&] {
				utki::assert_always(holds, SL);
			};
			break;
		case 12:
			name = "assert with lambda condition";
			with_print = false;
			message_expected = false;
			condition_evaluated = debug_build ? 1 : 0;
			f = [&] {
				utki::assert([&] { ++c->condition; return holds; }, sl);
			};
			break;
		case 13:
			name = "assert(pointer) with SL and print";
			with_print = true;
			message_expected = true;
			file = here_file;
			here_line = __LINE__ + 2;
			f = [&] {
				utki::assert(raw, [&](auto& o) { ++c->print; o << message; }, SL);
			};
			break;
		default:
#if __cplusplus >= 202002L
			with_print = false;
			message_expected = false;
			file = here_file;
			{
				auto with = [&](auto& o) {
					++c->print;
					o << message;
				};
				const auto form = g.choice(11);
				name = pbt::cat("default location, form ", form);
				always = form < 2;
				message_expected = form % 2 == 1;
				null_print = false;
				switch (form) {
					case 0:
						here_line = __LINE__ + 1;
						f = [&] { utki::assert_always(holds); };
						break;
					case 1:
						here_line = __LINE__ + 1;
						f = [&, with] { utki::assert_always(holds, with); };
						break;
					case 2:
						here_line = __LINE__ + 1;
						f = [&] { utki::assert(holds); };
						break;
					case 3:
						here_line = __LINE__ + 1;
						f = [&, with] { utki::assert(holds, with); };
						break;
					case 4:
						here_line = __LINE__ + 1;
						f = [&] { utki::assert(raw); };
						break;
					case 5:
						here_line = __LINE__ + 1;
						f = [&, with] { utki::assert(raw, with); };
						break;
					case 6:
						here_line = __LINE__ + 1;
						f = [&] { utki::assert(shared); };
						break;
					case 7:
						here_line = __LINE__ + 1;
						f = [&, with] { utki::assert(shared, with); };
						break;
					case 8:
						here_line = __LINE__ + 1;
						f = [&] { utki::assert(unique); };
						break;
					case 9:
						here_line = __LINE__ + 1;
						f = [&, with] { utki::assert(unique, with); };
						break;
					case 10:
						here_line = __LINE__ + 1;
						f = [&] { utki::assert(function); };
						break;
					default:
						here_line = __LINE__ + 1;
						f = [&, with] { utki::assert(function, with); };
						break;
				}
			}
#else
			name = "ASSERT(pointer)";
			with_print = false;
			message_expected = false;
			file = here_file;
			here_line = __LINE__ + 2;
			f = [&] {
				ASSERT(raw)
			};
#endif
			break;
	}
	if (here_line) {
		line = uint32_t(here_line);
	}
	bool must_abort = !holds && (always || debug_build);
	g.say([&] {
		return pbt::cat(name, holds ? " holds" : " violated", ", location ", pbt::quote(file), ":", line, ", message ", message_expected ? pbt::quote(message) : "none");
	});
	if (must_abort) {
		g.nontrivial();
		g.label("violated");
	}
	auto r = child::run(f);
	CHECK_EQ(r.out, std::string(), " standard output");
	if (must_abort) {
		CHECK(r.aborted(), "violated assertion does not abort: ", r.how(), " ", pbt::quote(r.err));
		auto location = file + ":" + std::to_string(line);
		auto p = r.err.find(location);
		CHECK(p != std::string::npos, "no location in ", pbt::quote(r.err));
		auto q = r.err.find("assertion failed", p + location.size());
		CHECK(q != std::string::npos, "no failure in ", pbt::quote(r.err));
		CHECK(r.err.substr(p, q - p).find("error") != std::string::npos, "not called an error in ", pbt::quote(r.err));
		if (message_expected) {
			CHECK(r.err.find(message, q) != std::string::npos, "no message in ", pbt::quote(r.err));
		}
		CHECK(r.err.find('\x1b') == std::string::npos || message.find('\x1b') != std::string::npos, "colours in ", pbt::quote(r.err));
		CHECK_EQ(c->print, message_expected ? 1 : 0, " calls of the message function");
	} else {
		CHECK(r.survived(), "assertion which holds or is off ends the program: ", r.how(), " ", pbt::quote(r.err));
		CHECK_EQ(r.err, std::string(), " standard error");
		CHECK_EQ(c->print, 0, " calls of the message function");
	}
	if (condition_evaluated >= 0) {
		CHECK_EQ(c->condition, condition_evaluated, " evaluations of the condition");
	}
}

namespace {
// keeps what is flushed apart from what is not
class flush_buf : public std::streambuf
{
public:
	std::string pending;
	std::string flushed;

	int overflow(int c) override
	{
		pending.push_back(char(c));
		return c;
	}

	std::streamsize xsputn(const char* s, std::streamsize n) override
	{
		pending.append(s, size_t(n));
		return n;
	}

	int sync() override
	{
		flushed += pending;
		pending.clear();
		return 0;
	}
};

struct redirect {
	std::ostream& s;
	std::streambuf* old;

	redirect(std::ostream& s, std::streambuf* b) :
		s(s),
		old(s.rdbuf(b))
	{}

	~redirect()
	{
		s.rdbuf(old);
	}
};

struct streamable {
	int v;

	friend std::ostream& operator<<(std::ostream& o, const streamable& s)
	{
		return o << '{' << s.v << '}';
	}
};

// does random logging, reports how many expressions were evaluated, appends expected output
struct logger {
	pbt::gen& g;
	std::string expected;
	int evaluated = 0;
	int expected_evaluated = 0;
	unsigned messages = 0;
	std::string transcript;
	bool wrong = false;

	template <typename T>
	const T& eval(const T& v)
	{
		++evaluated;
		return v;
	}

	void one()
	{
		auto m = g.text(10, alphabet);
		int n = g.integer<int>();
		double d = double(g.choice(16)) / 4;
		auto kind = g.choice(9);
		std::string e;
		bool on = true;
		auto print = [&](std::ostream& o) {
			++evaluated;
			o << m << n;
		};
		int before = evaluated;
		switch (kind) {
			case 0:
				utki::log(print);
				e = m + std::to_string(n);
				break;
			case 1:
				utki::log(nullptr);
				break;
			case 2:
				utki::logcat(eval(m), n, 'c', d, std::string_view("x"), streamable{n});
				{
					std::ostringstream ss;
					ss << m << n << 'c' << d << "x" << streamable{n};
					e = ss.str();
				}
				break;
			case 3:
				utki::logcat(eval(m));
				e = m;
				break;
			case 4:
				on = debug_build;
				utki::log_debug(print);
				e = m + std::to_string(n);
				break;
			case 5:
				on = debug_build;
				utki::logcat_debug(m, "-", n, true);
				e = m + "-" + std::to_string(n) + "1";
				break;
			case 6:
				on = debug_build;
				LOG(print)
				e = m + std::to_string(n);
				break;
			case 7:
				on = debug_build;
				LOG([&](auto& o) { o << eval(m); })
				e = m;
				break;
			case 8:
				on = debug_build;
				{
					int run = 0;
					utki::run_debug([&] { ++run; });
					if (run != (debug_build ? 1 : 0)) {
						wrong = true;
					}
					utki::run_debug(nullptr);
				}
				break;
			default:
				utki::log([&](std::ostream& o) {
					++evaluated;
					o << m;
					utki::log([&](std::ostream& i) { i << n; });
					o << "after";
				});
				e = m + std::to_string(n) + "after";
				break;
		}
		if (on) {
			expected += e;
			++messages;
		} else if (evaluated != before) {
			wrong = true;
		}
		if (on && !e.empty() && kind != 5 && evaluated != before + 1) {
			wrong = true;
		}
		transcript += pbt::cat(" kind ", kind, " ", pbt::quote(m), ";");
	}
};
} // namespace

PROPERTY("log", 4)
{
	flush_buf out;
	flush_buf err;
	logger l{g};
	auto n = g.size(12);
	{
		redirect ro(std::cout, &out);
		redirect re(std::cerr, &err);
		for (size_t i = 0; i != n; ++i) {
			l.one();
			if (!out.pending.empty() || out.flushed != l.expected || l.wrong) {
				break;
			}
		}
	}
	g.say([&] {
		return l.transcript;
	});
	if (l.messages >= 2) {
		g.nontrivial();
	}
	CHECK(!l.wrong, "a message or procedure is evaluated a wrong number of times");
	CHECK_EQ(out.flushed, l.expected, " flushed standard output");
	CHECK_EQ(out.pending, std::string(), " not flushed standard output");
	CHECK_EQ(err.flushed + err.pending, std::string(), " standard error");
}

// the program ends without flushing anything after the last message
PROPERTY("log_then_die", 1)
{
	auto n = 1 + g.size(5);
	std::vector<std::string> m;
	std::string e;
	for (size_t i = 0; i != n; ++i) {
		m.push_back(g.text(20, alphabet));
		e += m.back();
	}
	bool cat = g.boolean();
	bool die = g.boolean();
	g.say([&] {
		return pbt::cat(cat ? "logcat " : "log ", m, die ? " then abort" : "");
	});
	if (n >= 2) {
		g.nontrivial();
	}
	auto r = child::run([&] {
		for (auto& s : m) {
			if (cat) {
				utki::logcat(s);
			} else {
				utki::log([&](std::ostream& o) { o << s; });
			}
		}
		if (die) {
			abort();
		}
	});
	CHECK_EQ(r.out, e, " standard output of process which died");
	CHECK_EQ(r.err, std::string(), " standard error");
	CHECK(die ? r.aborted() : r.survived(), "process ended by ", r.how());
}
