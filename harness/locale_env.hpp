#pragma once
// Locales with decimal comma and digit grouping, for locale independence checks.
#include <clocale>
#include <locale>

namespace env {

struct weird_punct : public std::numpunct<char> {
	char do_decimal_point() const override
	{
		return ',';
	}

	char do_thousands_sep() const override
	{
		return '.';
	}

	std::string do_grouping() const override
	{
		return "\1";
	}
};

// C locale of the process and global C++ locale
struct scoped_locale {
	bool c_switched = false;
	bool on;
	std::locale old;

	scoped_locale(bool c, bool cpp) :
		on(c || cpp)
	{
		if (cpp) {
			this->old = std::locale::global(std::locale(std::locale::classic(), new weird_punct));
		}
		if (c) {
			// made by the driver with localedef, LOCPATH is set by the driver
			this->c_switched = setlocale(LC_ALL, "de_DE.UTF-8") != nullptr;
		}
	}

	~scoped_locale()
	{
		if (this->on) {
			std::locale::global(std::locale::classic());
			setlocale(LC_ALL, "C");
		}
	}
};

} // namespace env
