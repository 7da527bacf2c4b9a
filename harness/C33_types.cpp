// C33: compile time utilities on types. The type lists are generated at compile time from the seed of the run.
#include "pbt.hpp"

#include <array>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <variant>

#include <utki/type_traits.hpp>
#include <utki/variant.hpp>

const char* const pbt::rule = "the list has at least two types";

#ifndef VERIF_SEED
#	define VERIF_SEED 1
#endif

namespace {
struct no_default {
	int v;
	explicit no_default(int v) :
		v(v)
	{}
};

struct move_only {
	std::unique_ptr<int> p;
	move_only(int v = 0) :
		p(std::make_unique<int>(v))
	{}
};

// convertible from and to about everything
struct greedy {
	int v = 0;
	greedy() = default;
	template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>>
	greedy(T t) :
		v(int(t))
	{}
	operator int() const
	{
		return v;
	}
};

struct derived : public greedy {
	derived(int v = 0) :
		greedy(v)
	{}
};

template <int n>
struct numbered {
	int v = n;
	numbered(int x = n) :
		v(x)
	{}
};

enum plain_enum {
	plain_0,
	plain_1
};
enum class scoped_enum {
	s0,
	s1
};

using pool = std::tuple<
	int,
	bool,
	char,
	double,
	float,
	unsigned,
	long,
	long long,
	const char*,
	std::string,
	no_default,
	move_only,
	greedy,
	derived,
	plain_enum,
	scoped_enum,
	std::vector<int>,
	std::vector<bool>,
	std::variant<int, bool>,
	std::shared_ptr<int>,
	numbered<0>,
	numbered<1>,
	int*,
	const int*,
	void*,
	std::monostate,
	std::nullptr_t,
	unsigned char,
	signed char,
	short,
	std::tuple<int, bool>>;

constexpr size_t pool_size = std::tuple_size_v<pool>;

// make a value of any type of the pool from a number
template <typename T>
T make(int n)
{
	if constexpr (std::is_same_v<T, const char*>) {
		static const char text[] = "some text of sufficient length";
		return text + n % 20;
	} else if constexpr (std::is_same_v<T, std::string>) {
		return std::to_string(n);
	} else if constexpr (std::is_pointer_v<T>) {
		static int data[32];
		return T(data + n % 32);
	} else if constexpr (std::is_same_v<T, std::shared_ptr<int>>) {
		return std::make_shared<int>(n);
	} else if constexpr (std::is_same_v<T, std::monostate> || std::is_same_v<T, std::nullptr_t>) {
		return T{};
	} else if constexpr (std::is_same_v<T, std::vector<int>>) {
		return T(size_t(n % 5), n);
	} else if constexpr (std::is_same_v<T, std::vector<bool>>) {
		return T(size_t(n % 5), n % 2 == 0);
	} else if constexpr (std::is_same_v<T, std::variant<int, bool>>) {
		return n % 2 ? T(n) : T(true);
	} else if constexpr (std::is_same_v<T, std::tuple<int, bool>>) {
		return T(n, n % 2 == 0);
	} else if constexpr (std::is_enum_v<T>) {
		return T(n % 2);
	} else {
		return T(n);
	}
}

// compile time random numbers
constexpr uint64_t next(uint64_t& s)
{
	s += 0x9e3779b97f4a7c15ull;
	uint64_t z = s;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

constexpr size_t num_lists = 40;
constexpr size_t max_len = 12;

struct list_desc {
	size_t size = 0;
	std::array<size_t, max_len> item{};
};

constexpr std::array<list_desc, num_lists> make_lists()
{
	std::array<list_desc, num_lists> r{};
	uint64_t s = uint64_t(VERIF_SEED) * 7919u + 13u;
	for (size_t i = 0; i != num_lists; ++i) {
		std::array<size_t, pool_size> p{};
		for (size_t k = 0; k != pool_size; ++k) {
			p[k] = k;
		}
		r[i].size = 1 + i % max_len;
		for (size_t k = 0; k != r[i].size; ++k) {
			auto j = k + size_t(next(s) % (pool_size - k));
			auto t = p[k];
			p[k] = p[j];
			p[j] = t;
			r[i].item[k] = p[k];
		}
	}
	return r;
}

constexpr auto lists = make_lists();

template <size_t list, typename seq>
struct variant_of;

template <size_t list, size_t... index>
struct variant_of<list, std::index_sequence<index...>> {
	using type = std::variant<std::tuple_element_t<lists[list].item[index], pool>...>;
};

template <size_t list>
using variant_of_t = typename variant_of<list, std::make_index_sequence<lists[list].size>>::type;

template <typename V, size_t... index>
void list_indices(pbt::gen& g, std::index_sequence<index...>)
{
	std::vector<size_t> got{utki::index_of_v<std::variant_alternative_t<index, V>, V>...};
	std::vector<size_t> got_struct{utki::index_of<std::variant_alternative_t<index, V>, V>::value...};
	std::vector<size_t> want{index...};
	CHECK_EQ(got, want, " indices of types of list");
	CHECK_EQ(got_struct, want, " indices of types of list");
}

template <typename V, size_t i>
void put(V& v, int n)
{
	using T = std::variant_alternative_t<i, V>;
	v.template emplace<i>(make<T>(n));
}

template <typename V, size_t... index>
void put_any(V& v, size_t which, int n, std::index_sequence<index...>)
{
	((which == index ? put<V, index>(v, n) : void()), ...);
}

template <typename V, size_t... index>
size_t index_by_visit(const V& v, std::index_sequence<index...>)
{
	// one handler per alternative, each by exact type
	return std::visit(
		utki::overloaded{[](const std::variant_alternative_t<index, V>&) -> size_t {
			return index;
		}...},
		v
	);
}

template <size_t list>
void run_list(pbt::gen& g)
{
	using V = variant_of_t<list>;
	constexpr size_t n = lists[list].size;
	constexpr auto seq = std::make_index_sequence<n>();
	list_indices<V>(g, seq);
	if (n >= 2) {
		g.nontrivial();
	}
	auto which = size_t(g.choice(n - 1));
	auto value = int(g.choice(1000));
	g.say([&] {
		std::string s = pbt::cat("list ", list, " of ", n, " types (numbers in the pool:");
		for (size_t i = 0; i != n; ++i) {
			s += pbt::cat(" ", lists[list].item[i]);
		}
		return s + pbt::cat("), holds ", which, " made of ", value);
	});
	std::optional<V> holder;
	if constexpr (std::is_default_constructible_v<V>) {
		holder.emplace();
	} else {
		using T = std::variant_alternative_t<0, V>;
		holder.emplace(std::in_place_index<0>, make<T>(0));
	}
	V& v = *holder;
	put_any(v, which, value, seq);
	CHECK_EQ(v.index(), which, " harness: index");
	CHECK_EQ(index_by_visit(v, seq), which, " handler called");
	// the index names the alternative
	auto by_index = std::visit(
		[&](const auto& x) {
			return utki::index_of_v<std::decay_t<decltype(x)>, V>;
		},
		v
	);
	CHECK_EQ(by_index, which, " index of the type held");
	// generic handler takes everything which has no exact one, state of handlers is kept
	int generic = 0;
	int exact = 0;
	using first = std::variant_alternative_t<0, V>;
	auto handler = utki::overloaded{
		[&generic](const auto&) {
			++generic;
			return 1;
		},
		[&exact](const first&) {
			++exact;
			return 2;
		}};
	auto r = std::visit(handler, v);
	CHECK_EQ(r, which == 0 ? 2 : 1, " result of handler");
	CHECK_EQ(generic, which == 0 ? 0 : 1, " calls of generic handler");
	CHECK_EQ(exact, which == 0 ? 1 : 0, " calls of exact handler");
}

template <size_t... list>
void run_lists(pbt::gen& g, size_t which, std::index_sequence<list...>)
{
	((which == list ? run_list<list>(g) : void()), ...);
}
} // namespace

PROPERTY("variants", 3)
{
	run_lists(g, size_t(g.choice(num_lists - 1)), std::make_index_sequence<num_lists>());
}

// several variants visited together
PROPERTY("two_variants", 1)
{
	using A = variant_of_t<4>;
	using B = variant_of_t<6>;
	constexpr auto sa = std::make_index_sequence<lists[4].size>();
	constexpr auto sb = std::make_index_sequence<lists[6].size>();
	if constexpr (std::is_default_constructible_v<A> && std::is_default_constructible_v<B>) {
		A a;
		B b;
		auto ia = size_t(g.choice(lists[4].size - 1));
		auto ib = size_t(g.choice(lists[6].size - 1));
		put_any(a, ia, 1, sa);
		put_any(b, ib, 2, sb);
		g.nontrivial();
		g.say([&] {
			return pbt::cat("alternatives ", ia, " and ", ib);
		});
		using fa = std::variant_alternative_t<0, A>;
		using fb = std::variant_alternative_t<0, B>;
		auto r = std::visit(
			utki::overloaded{
				[](const auto&, const auto&) {
					return 0;
				},
				[](const fa&, const fb&) {
					return 3;
				}},
			a,
			b
		);
		CHECK_EQ(r, ia == 0 && ib == 0 ? 3 : 0, " handler");
	}
}

namespace {
template <size_t n, typename T>
void check_size(pbt::gen& g)
{
	using u = typename utki::uint_size<n>::type;
	using s = typename utki::int_size<n>::type;
	CHECK((std::is_unsigned_v<u> && std::is_integral_v<u>), "unsigned type of ", n, " bytes");
	CHECK((std::is_signed_v<s> && std::is_integral_v<s>), "signed type of ", n, " bytes");
	CHECK_EQ(sizeof(u), sizeof(T), " size of unsigned type for ", n, " bytes");
	CHECK_EQ(sizeof(s), sizeof(T), " size of signed type for ", n, " bytes");
	// holds every value of n bytes
	auto v = g.bits(n * 8);
	CHECK_EQ(uint64_t(u(v)), v, " value in unsigned type of ", n, " bytes");
	auto shift = 64 - n * 8;
	auto sv = int64_t(v << shift) >> shift;
	CHECK_EQ(int64_t(s(sv)), sv, " value in signed type of ", n, " bytes");
	g.say([&] {
		return pbt::cat(n, " bytes, value ", v);
	});
}

enum unscoped_sized : uint8_t {
	us_a
};
enum class scoped_sized : int64_t {
	ss_a
};
enum class scoped_bool : bool {
	f
};
enum unscoped_signed : long long {
	ul_a = -5
};

struct convertible_to_int {
	operator int() const
	{
		return 1;
	}
};

template <typename T>
struct with_type {
	using type = T;
};

struct without_type {
	int type;
};

struct private_free {};
} // namespace

PROPERTY("integer_sizes", 1)
{
	g.nontrivial();
	switch (g.choice(7)) {
		case 0:
			return check_size<1, uint8_t>(g);
		case 1:
			return check_size<2, uint16_t>(g);
		case 2:
			return check_size<3, uint32_t>(g);
		case 3:
			return check_size<4, uint32_t>(g);
		case 4:
			return check_size<5, uint64_t>(g);
		case 5:
			return check_size<6, uint64_t>(g);
		case 6:
			return check_size<7, uint64_t>(g);
		default:
			return check_size<8, uint64_t>(g);
	}
}

namespace {
template <size_t i>
void traits_of(pbt::gen& g)
{
	using T = std::tuple_element_t<i, pool>;
	g.say([&] {
		return pbt::cat("type ", i, " of the pool");
	});
	CHECK((std::is_same_v<utki::remove_const_reference_t<const T&>, T>), "remove_const_reference of const reference");
	CHECK((std::is_same_v<utki::remove_const_reference_t<T&>, T>), "remove_const_reference of reference");
	CHECK((std::is_same_v<utki::remove_const_reference_t<T&&>, T>), "remove_const_reference of r-value reference");
	CHECK((std::is_same_v<utki::remove_const_reference_t<const T>, T>), "remove_const_reference of const");
	CHECK((std::is_same_v<utki::remove_const_reference_t<T>, T>), "remove_const_reference of type itself");
	CHECK((std::is_same_v<utki::remove_const_pointer_t<const T*>, T>), "remove_const_pointer of pointer to const");
	CHECK((std::is_same_v<utki::remove_const_pointer_t<T*>, T>), "remove_const_pointer of pointer");
	CHECK((std::is_same_v<utki::remove_const_pointer_t<const T* const>, T>), "remove_const_pointer of const pointer to const");
	CHECK((std::is_same_v<utki::type_or_void_t<with_type<T>>, T>), "type_or_void with type");
	CHECK((utki::is_type_defined<with_type<T>>::value), "is_type_defined with type");
	CHECK((std::is_same_v<utki::type_or_void_t<with_type<const T&>>, const T&>), "type_or_void with reference");
	CHECK_EQ((utki::is_specialization_of_v<std::vector, T>), (std::is_same_v<T, std::vector<int>> || std::is_same_v<T, std::vector<bool>>), " specialization of vector");
	CHECK_EQ((utki::is_specialization_of_v<std::variant, T>), (std::is_same_v<T, std::variant<int, bool>>), " specialization of variant");
	CHECK_EQ((utki::is_specialization_of_v<std::tuple, T>), (std::is_same_v<T, std::tuple<int, bool>>), " specialization of tuple");
	CHECK((utki::is_specialization_of_v<std::vector, std::vector<T>>), "specialization of vector");
	CHECK((utki::is_specialization_of_v<std::map, std::map<int, T>>), "specialization of map");
	CHECK((utki::is_specialization_of_v<std::tuple, std::tuple<T, T, int>>), "specialization of tuple");
	CHECK((utki::is_specialization_of_v<std::tuple, std::tuple<>>), "specialization of tuple without arguments");
	CHECK((!utki::is_specialization_of_v<std::set, std::vector<T>>), "not a specialization");
	CHECK((!utki::is_specialization_of_v<std::vector, std::vector<T>&>), "reference is not a specialization");
	CHECK_EQ((utki::is_scoped_enum_v<T>), (std::is_same_v<T, scoped_enum>), " scoped enum");
}

template <size_t... i>
void traits_any(pbt::gen& g, size_t which, std::index_sequence<i...>)
{
	((which == i ? traits_of<i>(g) : void()), ...);
}
} // namespace

PROPERTY("traits", 1)
{
	g.nontrivial();
	traits_any(g, size_t(g.choice(pool_size - 1)), std::make_index_sequence<pool_size>());
	CHECK((utki::is_scoped_enum_v<scoped_sized> && utki::is_scoped_enum_v<scoped_bool> && utki::is_scoped_enum<scoped_enum>::value), "scoped enums");
	CHECK((!utki::is_scoped_enum_v<unscoped_sized> && !utki::is_scoped_enum_v<unscoped_signed> && !utki::is_scoped_enum_v<plain_enum>), "unscoped enums");
	CHECK((!utki::is_scoped_enum_v<convertible_to_int> && !utki::is_scoped_enum_v<without_type> && !utki::is_scoped_enum_v<int>), "not enums");
	CHECK((std::is_same_v<utki::type_or_void_t<without_type>, void> && std::is_same_v<utki::type_or_void_t<private_free>, void>), "type_or_void without type");
	CHECK((!utki::is_type_defined<without_type>::value && !utki::is_type_defined<private_free>::value), "is_type_defined without type");
	CHECK((utki::byte_bits == 8 && utki::nibble_bits == 4 && utki::byte_mask == 0xff && utki::lower_nibble_mask == 0xf && utki::upper_nibble_mask == 0xf0), "bit constants");
	const int masks[] = {utki::bit_0_mask, utki::bit_1_mask, utki::bit_2_mask, utki::bit_3_mask, utki::bit_4_mask, utki::bit_5_mask, utki::bit_6_mask, utki::bit_7_mask};
	for (int i = 0; i != 8; ++i) {
		CHECK_EQ(masks[i], 1 << i, " mask of bit ", i);
	}
}
