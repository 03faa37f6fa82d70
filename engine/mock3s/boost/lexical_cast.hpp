// stand-in for boost::lexical_cast: the whole text must be a value of the type
#pragma once
#include <sstream>
#include <string>
#include <typeinfo>
#include <type_traits>
namespace boost {
struct bad_lexical_cast : std::bad_cast { const char *what() const noexcept override { return "bad lexical cast"; } };
template <class T, class F> T lexical_cast(const F &v) {
  if constexpr (std::is_same_v<T, std::string>) { if constexpr (std::is_convertible_v<F, std::string>) return v; else { std::ostringstream s; if constexpr (std::is_floating_point_v<F>) s.precision(17); s << v; return s.str(); } }
  else if constexpr (std::is_same_v<T, bool>) { std::string s(v); if (s == "1" || s == "+1") return true; if (s == "0" || s == "+0" || s == "-0") return false; throw bad_lexical_cast(); }
  else { std::string s(v); if (s.empty() || isspace((unsigned char)s[0]) || isspace((unsigned char)s.back())) throw bad_lexical_cast();
    if constexpr (std::is_unsigned_v<T>) if (s[0] == '-') s = s.substr(1) == "0" ? "0" : s;
    std::istringstream f(s); T x; f >> x; if (f.fail()) throw bad_lexical_cast(); char c; if (f.get(c)) throw bad_lexical_cast(); return x; }
}
}
