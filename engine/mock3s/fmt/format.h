// stand-in for {fmt} when encoding: formats into text that may carry symbolic numbers
#pragma once
#include <bits/mockfmt.h>
#include <cstdio>
#include <string>
namespace fmt {
template <class... A> using format_string = std::string_view;
template <class T> struct named { const char *n; const T &v; };
namespace literals { struct udl { const char *n; template <class T> named<T> operator=(const T &v) const { return {n, v}; } }; inline udl operator""_a(const char *s, std::size_t) { return {s}; } }
inline std::string strip(std::string_view f, const std::vector<std::string> &names) { // {x:>{width}} -> {0:>{1}}
  std::string o; for (size_t i = 0; i < f.size();) { if (f[i] == '{') { o += '{'; i++; size_t j = i; while (j < f.size() && (isalnum(f[j]) || f[j] == '_')) j++; if (j > i && !(f[i] >= '0' && f[i] <= '9')) { std::string w(f.substr(i, j - i)); for (size_t k = 0; k < names.size(); k++) if (names[k] == w) o += std::to_string(k); i = j; } } else o += f[i++]; }
  return o;
}
template <class T> struct isnamed { static constexpr bool v = false; static const char *n(const T &) { return ""; } static const T &g(const T &x) { return x; } };
template <class T> struct isnamed<named<T>> { static constexpr bool v = true; static const char *n(const named<T> &x) { return x.n; } static const T &g(const named<T> &x) { return x.v; } };
template <class... A> std::string format(std::string_view f, const A &...a) {
  if constexpr ((isnamed<A>::v || ...)) return mockfmt::format(strip(f, {std::string(isnamed<A>::n(a))...}), isnamed<A>::g(a)...);
  else return mockfmt::format(f, a...);
}
enum class emphasis { bold = 1 }; struct text_style { text_style() {} text_style(emphasis) {} };
template <class... A> void print(std::string_view f, const A &...a) { std::cout << format(f, a...); }
template <class... A> void print(std::FILE *o, std::string_view f, const A &...a) { (o == stderr ? std::cerr : std::cout) << format(f, a...); }
template <class... A> void print(std::FILE *, const text_style &, std::string_view f, const A &...a) { std::cout << format(f, a...); }
template <class... A> void print(std::ostream &o, std::string_view f, const A &...a) { o << format(f, a...); }
template <class R> mockfmt::Joined<R> join(const R &r, std::string_view s) { return {r, std::string(s)}; }
template <class I> mockfmt::JoinedIt<I> join(I b, I e, std::string_view s) { return {b, e, std::string(s)}; }
enum class color { red, yellow, green, blue };
inline text_style fg(color) { return {}; }
inline text_style operator|(emphasis, text_style) { return {}; }
template <class T> auto streamed(const T &v) { return mockfmt::Streamed<T>{v}; }
}
#define FMT_STRING(s) s
