// C27: description of nested exceptions
#include "pbt.hpp"

#include <cxxabi.h>
#include <optional>
#include <stdexcept>

#include <utki/exception.hpp>

const char* const pbt::rule = "at least two exceptions in the chain";

namespace {
std::string demangled(const std::type_info& t)
{
	int status = 0;
	char* n = abi::__cxa_demangle(t.name(), nullptr, nullptr, &status);
	std::string r(status == 0 ? n : t.name());
	free(n);
	return r;
}

class own_error : public std::exception
{
	std::string m;

public:
	own_error(std::string m) :
		m(std::move(m))
	{}

	const char* what() const noexcept override
	{
		return m.c_str();
	}
};

class utki_error : public utki::exception
{
	std::string m;

public:
	utki_error(std::string m) :
		m(std::move(m))
	{}

	const char* what() const noexcept override
	{
		return m.c_str();
	}
};

template <typename T, int N>
class template_error : public own_error
{
public:
	using own_error::own_error;
};

// may have nothing nested
class has_nested : public own_error, public std::nested_exception
{
public:
	using own_error::own_error;
};

class foreign
{
public:
	std::string m;

	foreign(std::string m) :
		m(std::move(m))
	{}
};

class foreign_nested : public foreign, public std::nested_exception
{
public:
	using foreign::foreign;
};

enum class way {
	plain,
	std_nested,
	utki_nested
};

struct level {
	way w = way::plain;
	size_t type = 0;
	std::string message;
	// found when thrown
	std::string thrown_name; // of the object thrown
	std::string name; // of the exception given by user
	bool is_std = false;
};

constexpr size_t num_std_types = 8;
constexpr size_t num_types = 13;

template <typename E>
[[noreturn]] void throw_it(level& l, E e)
{
	l.name = demangled(typeid(E));
	l.is_std = std::is_base_of_v<std::exception, E>;
	switch (l.w) {
		case way::plain:
			l.thrown_name = l.name;
			throw e;
		case way::std_nested:
			if constexpr (std::is_class_v<E>) {
				std::throw_with_nested(std::move(e));
			}
			break;
		case way::utki_nested:
			if constexpr (std::is_base_of_v<std::exception, E> && !std::is_base_of_v<std::nested_exception, E>) {
				utki::throw_with_nested(std::move(e));
			}
			break;
	}
	throw std::runtime_error("harness: not reached");
}

[[noreturn]] void throw_level(level& l)
{
	switch (l.type) {
		case 0:
			throw_it(l, std::runtime_error(l.message));
		case 1:
			throw_it(l, std::logic_error(l.message));
		case 2:
			throw_it(l, std::out_of_range(l.message));
		case 3:
			throw_it(l, own_error(l.message));
		case 4:
			throw_it(l, utki_error(l.message));
		case 5:
			throw_it(l, template_error<int, 5>(l.message));
		case 6:
			throw_it(l, template_error<std::vector<own_error>, -1>(l.message));
		case 7:
			throw_it(l, std::invalid_argument(l.message));
		// the following ones are not for utki::throw_with_nested()
		case 8:
			throw_it(l, has_nested(l.message));
		case 9:
			throw_it(l, foreign(l.message));
		case 10:
			throw_it(l, foreign_nested(l.message));
		// the following ones cannot nest others
		case 11:
			throw_it(l, 42);
		case 12:
			throw_it(l, std::string(l.message));
		default:
			throw_it(l, static_cast<const char*>("text"));
	}
}

// chain[0] is the innermost
[[noreturn]] void throw_chain(std::vector<level>& chain, size_t i)
{
	if (i == 0) {
		throw_level(chain[0]);
	}
	try {
		throw_chain(chain, i - 1);
	} catch (...) {
		chain[i - 1].thrown_name = demangled(*abi::__cxa_current_exception_type());
		throw_level(chain[i]);
	}
}

std::string entry(const level& l, bool user_name)
{
	auto n = user_name ? l.name : l.thrown_name;
	return l.is_std ? n + ": " + l.message : n;
}

void check_order(pbt::gen& g, const std::string& s, const std::vector<level>& chain, const char* what)
{
	size_t pos = 0;
	for (size_t i = chain.size(); i != 0; --i) {
		const auto& l = chain[i - 1];
		auto p = s.find(l.name, pos);
		CHECK(p != std::string::npos, what, ": no type name of exception ", chain.size() - i, " in ", pbt::quote(s));
		pos = p + l.name.size();
		if (l.is_std) {
			p = s.find(l.message, pos);
			CHECK(p != std::string::npos, what, ": no message of exception ", chain.size() - i, " in ", pbt::quote(s));
			pos = p + l.message.size();
		}
	}
}
} // namespace

PROPERTY("chain", 9)
{
	auto n = 1 + g.large(8, 80, 60);
	auto style = g.choice(4); // 0 std only, 1 utki only, 2 utki over std, others any mix
	std::vector<level> chain(n);
	const std::string_view alphabet("ab:-<>% \n\t\xc3\xa9");
	auto mixed_from = g.choice(n);
	for (size_t i = 0; i != n; ++i) {
		auto& l = chain[i];
		l.message = g.text(12, alphabet);
		if (g.chance(1, 60)) {
			// long message; the ends of it stay as generated
			l.message += std::string(g.wide(17, 4), 'm') + g.text(4, alphabet);
		}
		if (i == 0) {
			l.type = g.choice(num_types);
			continue;
		}
		bool utki_way;
		switch (style) {
			case 0:
				utki_way = false;
				break;
			case 1:
				utki_way = true;
				break;
			case 2:
				utki_way = i >= mixed_from;
				break;
			default:
				utki_way = g.boolean();
				break;
		}
		l.w = utki_way ? way::utki_nested : way::std_nested;
		l.type = utki_way ? g.choice(num_std_types - 1) : g.choice(10);
	}
	auto indentation = g.text(4, " \t-*>");
	if (g.chance(1, 100)) {
		indentation += std::string(g.wide(12, 4), '.');
	}
	g.say([&] {
		std::string s = pbt::cat("indentation ", pbt::quote(indentation));
		for (auto& l : chain) {
			s += pbt::cat(
				"; type ",
				l.type,
				l.w == way::plain ? "" : l.w == way::std_nested ? " std nesting" : " utki nesting",
				" ",
				pbt::quote(l.message)
			);
		}
		return s;
	});
	if (n >= 2) {
		g.nontrivial();
	}

	// is the chain some utki nestings, then standard nestings
	bool seen_std = false;
	bool layered = true;
	bool any_utki = false;
	for (size_t i = n; i != 0; --i) {
		if (chain[i - 1].w == way::utki_nested) {
			any_utki = true;
			if (seen_std) {
				layered = false;
			}
		} else {
			seen_std = true;
		}
	}

	CHECK((pbt::throws<std::logic_error>([&] { utki::current_exception_to_string(indentation); })), "no logic error when there is no exception");

	std::exception_ptr ptr;
	try {
		throw_chain(chain, n - 1);
	} catch (...) {
		chain.back().thrown_name = demangled(*abi::__cxa_current_exception_type());
		ptr = std::current_exception();
	}
	const auto& top = chain.back();

	auto flat = [&](const std::string& ind) {
		std::string s;
		for (size_t i = n; i != 0; --i) {
			auto& l = chain[i - 1];
			s += ind + entry(l, l.w != way::std_nested);
			if (i != 1) {
				s += "\n";
			}
		}
		return s;
	};

	// results are taken inside of handlers, but checked outside: nothing of it may end the program
	std::optional<std::string> by_to_string;
	std::optional<std::string> by_default;
	std::optional<std::string> by_member;
	std::optional<std::string> by_member_default;
	std::optional<std::string> by_what;
	std::optional<std::string> by_current;
	std::string trouble;
	try {
		std::rethrow_exception(ptr);
	} catch (const utki::exception& e) {
		by_to_string = utki::to_string(static_cast<const std::exception&>(e), indentation);
		by_default = utki::to_string(static_cast<const std::exception&>(e));
		by_member = e.to_string(indentation);
		by_member_default = e.to_string();
		auto first = e.what();
		by_what = first;
		auto again = e.what();
		if (*by_what != again) {
			trouble = "what() differs when called again";
		}
		// the text stays where it is as long as the exception exists
		auto member = e.to_string(indentation);
		if (*by_what != first || *by_what != again) {
			trouble = "the text given by what() does not stay valid";
		}
		by_current = utki::current_exception_to_string(indentation);
	} catch (const std::exception& e) {
		by_to_string = utki::to_string(e, indentation);
		by_default = utki::to_string(e);
		by_current = utki::current_exception_to_string(indentation);
	} catch (...) {
		by_current = utki::current_exception_to_string(indentation);
	}
	CHECK(trouble.empty(), trouble);

	if (!any_utki) {
		if (by_to_string) {
			CHECK_EQ(*by_to_string, flat(indentation), " to_string");
			CHECK_EQ(*by_default, flat(""), " to_string without indentation");
			if (by_member) {
				CHECK_EQ(*by_member, flat(indentation), " member to_string");
				CHECK_EQ(*by_member_default, flat(""), " member to_string without indentation");
			}
			g.label("exact to_string");
		} else {
			CHECK_EQ(*by_current, flat(indentation), " current_exception_to_string");
			g.label("exact current");
		}
	} else if (top.w == way::utki_nested) {
		if (layered) {
			CHECK_EQ(*by_member, flat(indentation), " to_string of stacked exception");
			CHECK_EQ(*by_member_default, flat(""), " to_string of stacked exception");
			CHECK_EQ(*by_what, "exception stack:\n" + flat("- "), " what of stacked exception");
			g.label("exact stacked");
		} else {
			check_order(g, *by_member, chain, "to_string of stacked exception");
			check_order(g, *by_what, chain, "what of stacked exception");
			g.label("order stacked");
		}
		check_order(g, *by_to_string, chain, "to_string");
	} else if (by_to_string) {
		check_order(g, *by_to_string, chain, "to_string");
		check_order(g, *by_default, chain, "to_string");
		g.label("order to_string");
	} else {
		check_order(g, *by_current, chain, "current_exception_to_string");
		g.label("order current");
	}
	// the description of the current exception starts with the type of it
	CHECK(by_current->compare(0, indentation.size() + top.thrown_name.size(), indentation + top.thrown_name) == 0,
		"current_exception_to_string starts with ", pbt::quote(*by_current));
}

PROPERTY("demangle", 1)
{
	auto n = g.choice(6);
	const std::type_info* t[] = {
		&typeid(int),
		&typeid(std::string),
		&typeid(own_error),
		&typeid(template_error<const std::vector<int*>&, 7>),
		&typeid(void (*)(int, const char*)),
		&typeid(utki::exception),
		&typeid(std::nullptr_t)};
	g.say([&] {
		return demangled(*t[n]);
	});
	CHECK_EQ(utki::demangle(*t[n]), demangled(*t[n]));
}
