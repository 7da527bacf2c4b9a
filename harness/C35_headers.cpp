// C35: generated programs which include public headers in any combination, order and number of translation units
#include "pbt.hpp"

#include <cstdio>
#include <filesystem>
#include <fstream>
#include <sstream>

#include <unistd.h>

const char* const pbt::rule = "the program uses at least one header";

namespace {
namespace fs = std::filesystem;

struct use {
	const char* header;
	const char* code; // body of function
	const char* outside; // before the function
};

// A use relies on its own header only.
const use uses[] = {
	{"base64.hpp", "auto v = utki::base64_decode(\"QUJD\"); (void)v.size();", ""},
	{"config.hpp", "int i = CFG_OS + CFG_OS_NAME + CFG_COMPILER + CFG_CPU + CFG_CPU_BITS + CFG_ENDIANNESS + CFG_CPP; (void)i;", ""},
	{"debug.hpp",
	 "ASSERT(true) ASSERT(true, [](auto& o) { o << 1; }) utki::assert_always(true, SL); utki::log_debug([](auto& o) { o << 1; }); "
	 "utki::logcat_debug(1, \"a\"); LOG([&](auto& o) { o << 2; })"
	 "\n#if __cplusplus >= 202002L\n"
	 "auto m = [](auto& o) { o << 1; }; int n = 0; std::shared_ptr<int> s; std::unique_ptr<int> u; std::function<int()> f; "
	 "utki::assert_always(n == 0); utki::assert_always(n == 0, m); (utki::assert)(n == 0); (utki::assert)(n == 0, m); (utki::assert)(&n); (utki::assert)(&n, m); "
	 "(utki::assert)(s); (utki::assert)(s, m); (utki::assert)(u); (utki::assert)(u, m); (utki::assert)(f); (utki::assert)(f, m);"
	 "\n#endif\n",
	 ""},
	{"deserializer.hpp",
	 "static const uint8_t b[64] = {}; utki::deserializer d(utki::span<const uint8_t>(b, 64)); d.read_uint8(); d.read_float_le(); "
	 "d.read_uint64_be(); d.skip(1); (void)d.read_string(2).size(); (void)d.empty();",
	 ""},
	{"destructable.hpp", "utki::destructable* p = nullptr; delete p;", ""},
	{"enum_array.hpp",
	 "utki::enum_array<int, e_array> a; a[e_array::b] = 1; for (auto i : utki::enum_iterable_v<e_array>) { a[i] = 2; } (void)a.size();",
	 "enum class e_array { a, b, enum_size };"},
	{"enum_iterable.hpp",
	 "int n = 0; for (auto i : utki::enum_iterable_v<e_iter>) { n += int(i); } (void)n;",
	 "enum class e_iter { a, b, enum_size };"},
	{"exception.hpp",
	 "try { try { throw std::bad_alloc(); } catch (...) { utki::throw_with_nested(std::bad_alloc()); } } catch (...) { "
	 "(void)utki::current_exception_to_string().size(); } utki::exception e; (void)e.to_string().size();",
	 ""},
	{"flags.hpp",
	 "utki::flags<e_flags> f; f.set(e_flags::a); f = ~f | (f & f) ^ f; f.invert(); (void)f.is_clear(); (void)f.get(e_flags::a); "
	 "auto g = utki::make_flags<e_flags>({e_flags::a}); (void)(f == g);",
	 "enum class e_flags { a, b, enum_size };"},
	{"linq.hpp",
	 "std::vector<an_item> v(3); auto r = utki::linq(v).where([](const auto& i) { return i.n > 1; }).select([](const auto& i) { return i.n * 2; "
	 "}).get(); auto m = utki::linq(v).group_by([](const auto& i) { return i.n % 2; }).get(); auto o = utki::linq(v).order_by([](const auto& i) "
	 "-> const int& { return i.n; }).get(); (void)r.size(); (void)m.size(); (void)o.size();",
	 "struct an_item { int n = 0; };"},
	{"log.hpp", "utki::log([](auto& o) { o << 1; }); utki::logcat(1, 'a');", ""},
	{"macros.hpp", "int a2 = UTKI_GET_MACRO(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); (void)a2;", ""},
	{"math.hpp", "(void)utki::sign(-2); (void)utki::pow2(3); (void)utki::pow6(2.0f); (void)utki::deg_to_rad(3.0); (void)utki::rad_to_deg(1.0f);", ""},
	{"shared.hpp", "auto s = utki::make_shared<a_shared>(); (void)utki::make_shared_from(s.get());", "struct a_shared : public utki::shared {};"},
	{"shared_ref.hpp",
	 "auto r = utki::make_shared<d_ref>(); utki::shared_ref<b_ref> b = r; auto d = utki::dynamic_reference_cast<d_ref>(b); (void)d.get().i; "
	 "(void)b.to_shared_ptr();",
	 "struct b_ref { virtual ~b_ref() = default; int i = 0; }; struct d_ref : public b_ref {};"},
	{"signal.hpp", "utki::signal<int> s; auto c = s.connect([](int) {}); s.emit(1); s.disconnect(c); (void)s.size();", ""},
	{"singleton.hpp",
	 "a_single s; (void)a_single::inst().i; (void)a_single::is_created();",
	 "class a_single : public utki::singleton<a_single> { public: int i = 1; };"},
	{"sort.hpp", "int a[] = {3, 1, 2}; utki::sort(a, a + 3); utki::sort(a, a + 3, [](int x, int y) { return x > y; });", ""},
	{"span.hpp",
	 "std::vector<int> v(3); auto s = utki::make_span(v); (void)s.subspan(1, 1).size(); (void)utki::make_span(\"abc\").size(); "
	 "(void)utki::make_vector(s).size(); (void)utki::deep_equals(s, s); (void)utki::deep_less_than(s, s); (void)utki::overlaps(s, v.data()); "
	 "uint8_t b[2] = {}; (void)utki::to_char(utki::span<const uint8_t>(b, 2)).size();",
	 ""},
	{"spin_lock.hpp", "utki::spin_lock l; l.lock(); l.unlock();", ""},
	{"string.hpp",
	 "(void)utki::make_string(\"%d\", 1).size(); (void)utki::split(\"a b\").size(); (void)utki::split(\"a,b\", ',').size(); "
	 "(void)utki::join(utki::split(\"a b\"), ',').size(); (void)utki::cat(1, \"a\", 'c').size(); (void)utki::word_wrap(\"a b\", 1).size(); "
	 "(void)utki::to_string(5, utki::integer_base::hex).size(); utki::string_parser p(\"12 3.5 a\"); (void)p.read_number<int>(); "
	 "p.skip_whitespaces(); (void)p.read_number<double>(); (void)utki::trim(std::string_view(\" a \")).size(); "
	 "(void)utki::trim(\" a \").size(); (void)utki::starts_with(\"ab\", \"a\"); (void)utki::ends_with(\"ab\", \"a\"); "
	 "(void)utki::make_indentation(2).size();",
	 ""},
	{"time.hpp", "uint32_t t = utki::get_ticks_ms(); (void)t;", ""},
	{"tree.hpp",
	 "utki::tree<int> t(1, {utki::tree<int>(2)}); utki::tree<int>::container_type c = {t}; auto tr = utki::make_traversal(c); for (auto& n : tr) { "
	 "n.value = 3; } auto i = tr.begin(); (void)i.index().size(); i = tr.insert(i, t); i = tr.erase(i); (void)tr.is_valid({0, 0}); (void)(t == t);",
	 ""},
	{"type_traits.hpp",
	 "utki::uint_size<sizeof(int)>::type i = 0; (void)i; (void)utki::is_specialization_of_v<std::variant, std::variant<int>>; "
	 "utki::remove_const_reference_t<const int&> j = 0; (void)j;",
	 ""},
	{"types.hpp", "utki::uint_size<2>::type i = 0; (void)i;", ""},
	{"unicode.hpp",
	 "auto s = utki::to_utf32(\"abc\"); (void)utki::to_utf8(s).size(); (void)utki::to_utf8(U'a').size(); for (utki::utf8_iterator i(\"a\"); "
	 "!i.is_end(); ++i) { (void)i.character(); }",
	 ""},
	{"unique_ref.hpp",
	 "auto r = utki::make_unique<d_uref>(); utki::unique_ref<b_uref> b = std::move(r); (void)b.get().i;",
	 "struct b_uref { virtual ~b_uref() = default; int i = 0; }; struct d_uref : public b_uref {};"},
	{"util.hpp", "utki::scope_exit e([]() {}); e.release();", ""},
	{"utility.hpp",
	 "utki::scope_exit e([]() {}); (void)utki::contains(std::map<int, int>(), 1); (void)utki::contains(std::unordered_map<int, int>(), 1); "
	 "(void)utki::flip_map(std::map<int, char>()).size(); uint8_t b[8] = {}; utki::serialize32le(1, b); (void)utki::deserialize16be(b); "
	 "(void)utki::is_terminal_cout(); (void)utki::end_pointer(b); const int a[] = {1}; (void)utki::next(&a[0], 1);",
	 ""},
	{"variant.hpp",
	 "std::variant<int, char> v = 'a'; std::visit(utki::overloaded{[](int) {}, [](char) {}}, v);",
	 ""},
	{"version.hpp", "utki::version_duplet v{1, 2}; (void)(v < v); (void)v.to_uint32_t();", ""},
	{"views.hpp",
	 "int a[] = {1, 2}; std::map<int, int> m; for (auto& e : utki::views::reverse(m)) { (void)e; } for (auto t : utki::views::zip(m, m)) { (void)t; } "
	 "m[1] = 1; for (auto& e : utki::skip_front<1>(m)) { (void)e; } (void)a;",
	 ""},
	{"windows.hpp", "", ""},
};

// what the program may include besides
const char* const std_headers[] = {
	"cassert", "algorithm", "vector", "string", "iostream", "memory", "map", "cstring", "cmath", "climits", "assert.h", "math.h", "unistd.h", "ctime"};

std::string output_of(const std::string& cmd, int& status)
{
	std::string out;
	auto f = popen(cmd.c_str(), "r");
	if (!f) {
		throw std::runtime_error("harness: popen");
	}
	char buf[4096];
	while (auto n = fread(buf, 1, sizeof(buf), f)) {
		out.append(buf, n);
	}
	status = pclose(f);
	return out;
}

struct scratch {
	fs::path dir;

	scratch()
	{
		auto t = (fs::temp_directory_path() / "c35.XXXXXX").string();
		if (!mkdtemp(t.data())) {
			throw std::runtime_error("harness: mkdtemp");
		}
		dir = t;
	}

	~scratch()
	{
		std::error_code e;
		fs::remove_all(dir, e);
	}

	scratch(const scratch&) = delete;
	scratch& operator=(const scratch&) = delete;
};

std::vector<std::string> public_headers()
{
	std::vector<std::string> ret;
	for (auto& e : fs::directory_iterator(VERIF_REPO_SRC "/utki")) {
		if (e.path().extension() == ".hpp") {
			ret.push_back(e.path().filename().string());
		}
	}
	std::sort(ret.begin(), ret.end());
	return ret;
}

const use* use_of(const std::string& h)
{
	for (auto& u : uses) {
		if (h == u.header) {
			return &u;
		}
	}
	return nullptr;
}

// the first lines of what compiler tells
std::string brief(const std::string& s)
{
	auto e = s.find("error:");
	auto b = e == std::string::npos ? 0 : s.rfind('\n', e);
	return s.substr(b == std::string::npos ? 0 : b, 600);
}

void program(pbt::gen& g, size_t max_units, size_t max_headers)
{
	static const auto headers = public_headers();
	const auto cxx = g.pick<std::string>({"g++", "clang++"});
	const auto std_flag = g.pick<std::string>({"c++17", "c++20", "gnu++17", "gnu++20", "c++2b"});
	const auto mode = g.pick<std::string>({"-DDEBUG", "", "-DNDEBUG", "-O2", "-fno-inline -DDEBUG", "-funsigned-char"});
	auto num_units = 1 + g.choice(max_units - 1);
	std::vector<std::string> sources;
	bool any = false;
	for (size_t u = 0; u != num_units; ++u) {
		std::string src;
		std::string code;
		auto n = 1 + g.choice(max_headers - 1);
		std::set<std::string> included;
		bool late = g.boolean(); // uses go after all of the headers
		for (size_t i = 0; i != n; ++i) {
			if (max_headers > 1 && g.chance(1, 4)) {
				src += "#include <" + std::string(std_headers[g.choice(std::size(std_headers) - 1)]) + ">\n";
			}
			auto& h = headers[g.choice(headers.size() - 1)];
			src += "#include <utki/" + h + ">\n";
			any = true;
			auto us = use_of(h);
			if (us && included.insert(h).second) {
				auto c = std::string("namespace {\n") + us->outside + "\n}\nvoid use" + std::to_string(u) + "_" + std::to_string(i) + "()\n{\n" +
					us->code + "\n}\n";
				(late ? code : src) += c;
			}
		}
		sources.push_back(src + code);
	}
	g.say([&] {
		std::string s = cxx + " -std=" + std_flag + " " + mode;
		for (auto& x : sources) {
			s += "\n--- translation unit\n" + x;
		}
		return s;
	});
	if (any) {
		g.nontrivial();
	}
	g.label(cxx == "g++" ? "g++" : "clang++");
	g.label(num_units > 1 ? "several units" : "one unit");
	scratch sc;
	std::string objects;
	for (size_t u = 0; u != num_units; ++u) {
		auto file = (sc.dir / ("u" + std::to_string(u))).string();
		{
			std::ofstream f(file + ".cpp");
			f << sources[u];
		}
		auto cmd = cxx + " -w -std=" + std_flag + " " + mode + " -I" VERIF_REPO_SRC " -isystem " VERIF_REPO_SRC "_deps " +
			(num_units == 1 ? " -fsyntax-only " : " -c -o " + file + ".o ") + file + ".cpp 2>&1";
		int status = 0;
		std::string out;
		for (unsigned attempt = 0; attempt != 2; ++attempt) {
			out = output_of(cmd, status);
			if (status == 0 || out.find("error:") != std::string::npos) {
				break;
			}
		}
		CHECK(status == 0, "translation unit ", u, " does not compile with ", cxx, " ", std_flag, " ", mode, ": ", brief(out));
		objects += " " + file + ".o";
	}
	if (num_units > 1) {
		int status = 0;
		auto out = output_of(cxx + " -nostdlib -r -o " + (sc.dir / "all.o").string() + objects + " 2>&1", status);
		CHECK(status == 0, "translation units do not link together: ", brief(out));
	}
}
} // namespace

// each header on its own
PROPERTY("alone", 5)
{
	program(g, 1, 1);
}

PROPERTY("combination", 2)
{
	program(g, 1, 6);
}

PROPERTY("several_units", 1)
{
	program(g, 3, 4);
}
