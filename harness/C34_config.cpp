// C34: configuration macros against what is known about the compilation target.
// Each case runs a preprocessor for a generated target, compiler, language standard and options.
#include "pbt.hpp"

#include <cstdio>
#include <map>
#include <sstream>

const char* const pbt::rule = "the target, compiler or language standard is not the one this check itself is built for";

namespace {
struct arch {
	const char* name;
	const char* cpu;
	int bits;
	bool big;
	int version; // -1 is not checked
	int thumb; // 0 is none
};

const arch x86s[] = {
	{"i386", "x86", 32, false, -1, 0},
	{"i486", "x86", 32, false, -1, 0},
	{"i586", "x86", 32, false, -1, 0},
	{"i686", "x86", 32, false, -1, 0},
	{"x86_64", "x86_64", 64, false, 0, 0},
};

const arch arms[] = {
	{"armv4t", "arm", 32, false, 4, 0},
	{"armv5t", "arm", 32, false, 5, 0},
	{"armv5te", "arm", 32, false, 5, 0},
	{"armv6", "arm", 32, false, 6, 0},
	{"armv6k", "arm", 32, false, 6, 0},
	{"armv6t2", "arm", 32, false, 6, 0},
	{"armv7a", "arm", 32, false, 7, 0},
	{"armv7r", "arm", 32, false, 7, 0},
	{"armv8a", "arm", 32, false, -1, 0},
	{"thumbv4t", "arm", 32, false, 4, 1},
	{"thumbv5te", "arm", 32, false, 5, 1},
	{"thumbv6", "arm", 32, false, 6, 1},
	{"thumbv6t2", "arm", 32, false, 6, 2},
	{"thumbv7a", "arm", 32, false, 7, 2},
	{"thumbv7m", "arm", 32, false, 7, 2},
	{"armebv7a", "arm", 32, true, 7, 0},
	{"armebv6", "arm", 32, true, 6, 0},
	{"thumbebv7a", "arm", 32, true, 7, 2},
	{"aarch64", "arm", 64, false, 8, 0},
	{"aarch64_be", "arm", 64, true, 8, 0},
};

const arch others[] = {
	{"mips", "unknown", 0, true, 0, 0},
	{"mipsel", "unknown", 0, false, 0, 0},
	{"mips64", "unknown", 0, true, 0, 0},
	{"mips64el", "unknown", 0, false, 0, 0},
	{"powerpc", "unknown", 0, true, 0, 0},
	{"powerpc64", "unknown", 0, true, 0, 0},
	{"powerpc64le", "unknown", 0, false, 0, 0},
	{"riscv32", "unknown", 0, false, 0, 0},
	{"riscv64", "unknown", 0, false, 0, 0},
	{"sparc", "unknown", 0, true, 0, 0},
	{"sparcel", "unknown", 0, false, 0, 0},
	{"sparcv9", "unknown", 0, true, 0, 0},
	{"s390x", "unknown", 0, true, 0, 0},
	{"loongarch64", "unknown", 0, false, 0, 0},
	{"m68k", "unknown", 0, true, 0, 0},
	{"hexagon", "unknown", 0, false, 0, 0},
	{"avr", "unknown", 0, false, 0, 0},
	{"msp430", "unknown", 0, false, 0, 0},
	{"bpfel", "unknown", 0, false, 0, 0},
	{"bpfeb", "unknown", 0, true, 0, 0},
	{"lanai", "unknown", 0, true, 0, 0},
};

const arch wasms[] = {
	{"wasm32", "wasm", 32, false, -1, 0},
	{"wasm64", "wasm", 64, false, -1, 0},
};

template <class... A>
std::string text(const A&... a)
{
	std::ostringstream ss;
	(ss << ... << a);
	return ss.str();
}

using result = std::multimap<std::string, std::string>;

std::string output_of(const std::string& cmd, int& status)
{
	std::string out;
	auto f = popen(cmd.c_str(), "r");
	if (!f) {
		throw std::runtime_error("harness: popen");
	}
	char buf[4096];
	while (auto n = fread(buf, 1, sizeof(buf), f)) {
		out.append(buf, n);
	}
	status = pclose(f);
	return out;
}

struct expectation {
	pbt::gen& g;
	result r;
	std::string what;

	std::string get(const char* key)
	{
		auto n = r.count(key);
		if (n == 0) {
			return "(none)";
		}
		std::string s;
		for (auto i = r.lower_bound(key); i != r.upper_bound(key); ++i) {
			s += (s.empty() ? "" : " and ") + i->second;
		}
		return s;
	}

	void is(const char* key, const std::string& v)
	{
		CHECK_EQ(this->get(key), v, " ", key, " of ", this->what);
	}

	// what is not known now can be known one day, but it cannot be wrong
	void is_or_unknown(const char* key, const std::string& v, const std::string& unknown)
	{
		auto x = this->get(key);
		CHECK(x == v || x == unknown, key, " is ", x, " and not ", v, ", of ", this->what);
	}
};
} // namespace

PROPERTY("target", 9)
{
	arch a{};
	std::string vendor_os;
	std::string os;
	std::string name = "unknown";
	bool msvc = false;
	bool windows = false;
	bool apple = false;
	int ios = 0;
	int macosx = 0;
	bool wasm = false;
	auto any = [&]() -> const arch& {
		switch (g.choice(2)) {
			case 0:
				return x86s[g.choice(std::size(x86s) - 1)];
			case 1:
				return arms[g.choice(std::size(arms) - 1)];
			default:
				return others[g.choice(std::size(others) - 1)];
		}
	};
	// architectures of BSD systems
	auto bsd = [&]() -> arch {
		return g.pick<arch>({x86s[4], x86s[0], x86s[3], arms[18], arms[6], others[2], others[4], others[8], others[11]});
	};
	auto none = [&](const arch& a) {
		// these have no operating systems
		std::string n(a.name);
		return n == "hexagon" || n == "avr" || n == "msp430" || n == "bpfel" || n == "bpfeb" || n == "lanai";
	};
	std::string flags;
	switch (g.weighted({4, 2, 2, 2, 2, 1, 1, 1, 2, 2})) {
		case 0:
			a = any();
			vendor_os = g.pick<const char*>({"-unknown-linux-gnu", "-unknown-linux-musl", "-linux"});
			os = "linux";
			break;
		case 1:
			a = g.boolean() ? g.pick<arch>({x86s[3], x86s[4]}) : g.pick<arch>({arms[6], arms[18]});
			vendor_os = g.pick<const char*>({"-linux-android21", "-unknown-linux-android", "-linux-androideabi16"});
			os = "linux";
			name = "android";
			break;
		case 2:
			a = g.pick<arch>({x86s[3], x86s[4], arms[13], arms[18]});
			vendor_os = "-pc-windows-msvc";
			os = "windows";
			windows = msvc = true;
			break;
		case 3:
			a = g.pick<arch>({x86s[3], x86s[4], arms[18]});
			vendor_os = "-w64-windows-gnu";
			os = "windows";
			windows = true;
			break;
		case 4:
			{
				a = g.pick<arch>({x86s[4], arms[18], arms[6]});
				bool arm32 = a.bits == 32;
				os = "macosx";
				apple = true;
				flags += " -fdefine-target-os-macros";
				if (arm32 || g.boolean()) {
					name = "ios";
					int major = arm32 ? 7 + int(g.choice(3)) : 11 + int(g.choice(6));
					int minor = int(g.choice(6));
					ios = major * 10000 + minor * 100;
					vendor_os = text("-apple-ios", major, ".", minor);
					if (arm32) {
						// code for iOS is thumb by default
						a.thumb = 2;
					} else if (std::string(a.name) == "x86_64") {
						vendor_os += "-simulator";
					}
				} else {
					name = "macosx";
					int major = 11 + int(g.choice(3));
					int minor = int(g.choice(6));
					macosx = major * 10000 + minor * 100;
					vendor_os = text("-apple-macosx", major, ".", minor);
				}
			}
			break;
		case 5:
			a = g.boolean() ? g.pick<arch>({x86s[3], x86s[4]}) : g.pick<arch>({others[9], others[11]});
			vendor_os = "-sun-solaris2.11";
			os = "unix";
			name = "solaris";
			break;
		case 6:
			a = bsd();
			vendor_os = g.pick<const char*>({"-unknown-freebsd13", "-unknown-freebsd"});
			os = "unix";
			name = "freebsd";
			break;
		case 7:
			a = wasms[g.choice(1)];
			wasm = true;
			vendor_os = "-unknown-emscripten";
			os = "unix";
			name = "emscripten";
			break;
		case 8:
			a = bsd();
			vendor_os = g.pick<const char*>({"-unknown-openbsd", "-unknown-netbsd"});
			os = "unix";
			break;
		default:
			a = any();
			vendor_os = "-none-elf";
			os = "unknown";
			break;
	}
	if (none(a)) {
		vendor_os = "-none";
		os = "unknown";
		name = "unknown";
	}
	if (!msvc && a.bits == 32 && std::string(a.cpu) == "arm") {
		flags += a.thumb ? " -mthumb" : " -marm";
	}
	std::string triple = a.name + vendor_os;

	auto std_n = msvc ? g.pick<int>({14, 17, 20}) : g.pick<int>({98, 11, 14, 17, 20, 23});
	auto std_flag = text(g.boolean() ? "c++" : "gnu++", std_n == 23 ? "2b" : std::to_string(std_n));

	std::string compiler = "clang";
	int major = 0;
	int minor = 0;
	int patch = 0;
	int msc = 0;
	int usr_dll = 0;
	if (msvc) {
		compiler = "msvc";
		msc = g.pick<int>({1900, 1909, 1910, 1911, 1915, 1916, 1917, 1919, 1920, 1921, 1928, 1929, 1930, 1931, 1939, 1944});
		flags += text(" -fms-compatibility-version=19.", msc / 10 % 10, msc % 10);
		if (g.boolean()) {
			usr_dll = 1;
			flags += " -D_USRDLL";
		}
	} else if (!wasm) {
		switch (g.choice(3)) {
			case 0:
				break;
			case 3:
				// neither
				compiler = "unknown";
				flags += " -U__clang__ -U__GNUC__ -U__GNUG__";
				break;
			default:
				compiler = "gcc";
				major = 4 + int(g.choice(12));
				minor = int(g.choice(9));
				patch = int(g.choice(9));
				flags += text(
					" -U__clang__ -U__GNUC__ -D__GNUC__=",
					major,
					" -U__GNUG__ -D__GNUG__=",
					major,
					" -U__GNUC_MINOR__ -D__GNUC_MINOR__=",
					minor,
					" -U__GNUC_PATCHLEVEL__ -D__GNUC_PATCHLEVEL__=",
					patch
				);
				break;
		}
	}
	auto cmd = text(
		"clang++ -x c++ -w -target ",
		triple,
		" -std=",
		std_flag,
		flags,
		" -E -P -I" VERIF_HERE "/harness/apple -I" VERIF_REPO_SRC " " VERIF_HERE "/harness/config_probe.inc 2>/dev/null"
	);
	g.say([&] {
		return text(triple, " ", std_flag, flags);
	});
	g.nontrivial();
	g.label(("os " + os + " " + name).c_str());
	g.label(("compiler " + compiler).c_str());
	g.label((std::string("cpu ") + a.cpu).c_str());
	int status = 0;
	auto out = output_of(cmd, status);
	auto b = out.find("@begin\n");
	auto e = out.find("@end");
	if (b == std::string::npos || e == std::string::npos || status != 0) {
		// is it the preprocessor which does not know the target
		int s = 0;
		output_of(text("clang++ -x c++ -w -target ", triple, " -std=", std_flag, flags, " -E -P /dev/null 2>/dev/null"), s);
		if (s != 0) {
			g.label("target is not supported by preprocessor");
			return;
		}
		CHECK(false, "header is not preprocessed for ", triple);
	}
	expectation x{g, {}, text(triple, " ", std_flag, flags)};
	for (size_t i = b + 7; i < e;) {
		auto n = out.find('\n', i);
		auto line = out.substr(i, n - i);
		i = n + 1;
		auto c = line.find(':');
		if (c == std::string::npos) {
			continue;
		}
		auto v = line.substr(c + 1);
		v.erase(0, v.find_first_not_of(' '));
		if (v.compare(0, 2, "t_") == 0) {
			v.erase(0, 2);
		}
		x.r.insert({line.substr(0, c), v});
	}
	x.is("os", os);
	x.is("name", name);
	x.is("compiler", compiler);
	x.is("endianness", a.big ? "big" : "little");
	if (std_n == 98) {
		x.is("cpp", "3");
	} else if (std_n <= 20) {
		x.is("cpp", std::to_string(std_n));
	} else {
		x.is_or_unknown("cpp", std::to_string(std_n), "20");
	}
	bool known = !(compiler == "unknown" || (msvc && std::string(a.cpu) == "arm") || std::string(a.cpu) == "unknown");
	if (known) {
		x.is("cpu", a.cpu);
		x.is("bits", std::to_string(a.bits));
		if (a.version >= 0) {
			x.is("version", std::to_string(a.version));
		}
		CHECK(x.r.count("version") == 1, "no version of processor of ", x.what);
		if (a.thumb) {
			x.is("thumb", std::to_string(a.thumb));
		} else {
			x.is("thumb", "(none)");
		}
	} else {
		// not told, but not wrong either
		x.is_or_unknown("cpu", a.cpu, "unknown");
		if (x.get("cpu") == "unknown") {
			CHECK(x.get("bits") == "0" && x.get("version") == "0", "bits and version of unknown processor of ", x.what);
		}
	}
	if (compiler == "gcc") {
		x.is("major", std::to_string(major));
		x.is("minor", std::to_string(minor));
		x.is("patch", std::to_string(patch));
	}
	if (msvc) {
		x.is("tools", msc < 1910 ? "140" : msc < 1920 ? "141" : msc < 1930 ? "142" : "143");
		x.is("export", usr_dll ? "__declspec(dllexport)" : "__declspec(dllimport)");
	} else {
		x.is("tools", "(none)");
		x.is("export", "");
	}
	if (apple) {
		x.is("ios", ios ? std::to_string(ios) : "(none)");
		x.is("macosx", macosx ? std::to_string(macosx) : "(none)");
	} else {
		x.is("ios", "(none)");
		x.is("macosx", "(none)");
	}
}

// the compilers which are here, as they are
PROPERTY("native", 1)
{
	bool gcc = g.boolean();
	auto m = g.pick<const char*>({"-m64", "-m32", "-mx32"});
	auto std_n = g.pick<int>({98, 11, 14, 17, 20, 23});
	auto std_flag = text(g.boolean() ? "c++" : "gnu++", std_n == 23 ? "2b" : std::to_string(std_n));
	bool bits32 = std::string(m) == "-m32";
	int version = 0;
	std::string flags;
	if (bits32) {
		version = -1;
		if (gcc) {
			version = 3 + int(g.choice(3));
			flags = text(" -march=i", version, "86");
		}
	}
	g.say([&] {
		return text(gcc ? "g++ " : "clang++ ", m, " ", std_flag, flags);
	});
	if (!gcc || bits32 || std_n != 17) {
		g.nontrivial();
	}
	int status = 0;
	auto out = output_of(
		text(
			gcc ? "g++" : "clang++",
			" -x c++ -w ",
			m,
			" -std=",
			std_flag,
			flags,
			" -E -P -I" VERIF_REPO_SRC " " VERIF_HERE "/harness/config_probe.inc 2>/dev/null"
		),
		status
	);
	auto b = out.find("@begin\n");
	auto e = out.find("@end");
	CHECK(status == 0 && b != std::string::npos && e != std::string::npos, "header is not preprocessed");
	expectation x{g, {}, text(gcc ? "g++ " : "clang++ ", m, " ", std_flag, flags)};
	for (size_t i = b + 7; i < e;) {
		auto n = out.find('\n', i);
		auto line = out.substr(i, n - i);
		i = n + 1;
		auto c = line.find(':');
		if (c != std::string::npos) {
			auto v = line.substr(c + 1);
			v.erase(0, v.find_first_not_of(' '));
		if (v.compare(0, 2, "t_") == 0) {
			v.erase(0, 2);
		}
			x.r.insert({line.substr(0, c), v});
		}
	}
	x.is("os", "linux");
	x.is("name", "unknown");
	x.is("compiler", gcc ? "gcc" : "clang");
	x.is("endianness", "little");
	x.is("cpu", bits32 ? "x86" : "x86_64");
	x.is("bits", bits32 ? "32" : "64");
	if (version >= 0) {
		x.is("version", std::to_string(version));
	}
	if (gcc) {
		x.is("major", std::to_string(__GNUC__));
		x.is("minor", std::to_string(__GNUC_MINOR__));
		x.is("patch", std::to_string(__GNUC_PATCHLEVEL__));
	}
	if (std_n == 98) {
		x.is("cpp", "3");
	} else if (std_n <= 20) {
		x.is("cpp", std::to_string(std_n));
	} else {
		x.is_or_unknown("cpp", std::to_string(std_n), "20");
	}
	x.is("export", "");
}

// <windows.h> is included without winsock, whose guards stay as they were, and without macros which clash with names
PROPERTY("windows_header", 1)
{
	auto target = g.pick<const char*>(
		{"x86_64-pc-windows-msvc",
		 "i686-pc-windows-msvc",
		 "aarch64-pc-windows-msvc",
		 "x86_64-w64-windows-gnu",
		 "i686-w64-windows-gnu",
		 "x86_64-unknown-linux-gnu",
		 "x86_64-unknown-freebsd",
		 "aarch64-linux-android21"}
	);
	bool windows = std::string(target).find("windows") != std::string::npos;
	std::string before;
	// winsock header is included before or not: the guard is not defined, empty or some value
	auto guard = [&](const char* name, bool defined) {
		if (!defined) {
			return std::string("undefined");
		}
		auto v = g.pick<const char*>({"", "1", "0", "2"});
		before += text(" -D", name, "=", v);
		return text("defined(", v, ")");
	};
	// winsock2.h of Windows defines only one of them, that of MinGW the other one too
	auto which = g.choice(3);
	auto api = guard("_WINSOCKAPI_", which == 1 || which == 3);
	auto sock = guard("_WINSOCK_H", which == 2 || which == 3);
	if (g.boolean()) {
		before += " -DNOMINMAX";
	}
	if (g.chance(1, 3)) {
		before += g.boolean() ? " -include utki/windows.hpp" : " -include utki/utility.hpp";
	}
	g.say([&] {
		return text(target, before);
	});
	if (windows) {
		g.nontrivial();
	}
	g.label(windows ? "windows header" : "windows header elsewhere");
	int status = 0;
	auto out = output_of(
		text(
			"clang++ -x c++ -w -target ",
			target,
			" -nostdinc -nostdinc++ -std=c++17 ",
			before,
			" -E -P -I" VERIF_HERE "/harness/windows -I" VERIF_REPO_SRC " " VERIF_HERE "/harness/windows_probe.inc 2>/dev/null"
		),
		status
	);
	auto b = out.find("@begin\n");
	auto e = out.find("@end");
	CHECK(b != std::string::npos && e != std::string::npos, "header is not preprocessed");
	auto state = out.substr(b + 7, e - b - 7);
	state.erase(std::remove(state.begin(), state.end(), ' '), state.end());
	auto expected = text("header:", windows ? "there" : "notthere", "\napi:", api, "\nsock:", sock, "\n");
	CHECK_EQ(state, expected, " after <utki/windows.hpp>, ", target, before);
	CHECK(out.find("winsock: included") == std::string::npos, "winsock is included, ", target, before);
}
