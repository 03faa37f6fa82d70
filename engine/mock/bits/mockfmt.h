// small model of std::format / {fmt}: "{}", "{:spec}", "{0}" with width/precision/type
#pragma once
#include <bits/mockio.h>
#include <string>
#include <string_view>
#include <type_traits>
#include <complex>
namespace mockfmt {
struct Spec { char fill = ' ', align = 0, type = 0, sign = 0; bool alt = false, zero = false; int width = 0, prec = -1; };
inline void pad(std::string &o, const std::string &t, const Spec &s, bool num) { long p = s.width - (long)t.size(); if (p <= 0) { o += t; return; } char a = s.align ? s.align : num ? '>' : '<'; if (num && s.zero && !s.align) { size_t k = (t[0] == '-' || t[0] == '+') ? 1 : 0; o.append(t, 0, k); o.append(p, '0'); o.append(t, k, std::string::npos); return; } long l = a == '<' ? 0 : a == '>' ? p : p / 2; o.append(l, s.fill); o += t; o.append(p - l, s.fill); }
inline void put(std::string &o, double v, const Spec &s) { char b[700]; char t = s.type; int mode = (t == 'f' || t == 'F') ? 1 : (t == 'e' || t == 'E') ? 2 : 0; int prec = s.prec; bool shortest = !t && prec < 0; if (prec < 0) prec = shortest ? 17 : 6; int n = __rt_fmt_double(b, v, prec, mode, (s.sign == '+' ? 1 : 0) | (s.alt ? 2 : 0) | ((t == 'E' || t == 'G') ? 4 : 0)); pad(o, std::string(b, n), s, true); }
template <class I> void puti(std::string &o, I v, const Spec &s) {
  if (s.type == 'c') { pad(o, std::string(1, (char)v), s, false); return; }
  bool neg = v < 0; unsigned long long m = neg ? 0ull - (unsigned long long)(long long)v : (unsigned long long)v; unsigned base = (s.type == 'x' || s.type == 'X') ? 16 : s.type == 'o' ? 8 : s.type == 'b' ? 2 : 10; std::string t; do { t.insert(t.begin(), "0123456789abcdef"[m % base]); m /= base; } while (m); if (neg) t.insert(t.begin(), '-'); else if (s.sign) t.insert(t.begin(), s.sign); pad(o, t, s, true); }
template <class T> struct Streamed { const T &v; };
template <class R> struct Joined { const R &r; std::string sep; };
template <class I> struct JoinedIt { I b, e; std::string sep; };
template <class T> void any(std::string &o, const T &v, const Spec &s);
template <class T> concept StrLike = std::is_convertible_v<const T &, std::string_view>;
template <class T> concept RangeLike = requires(const T &v) { v.begin(); v.end(); };
template <class T> concept HasStream = requires(std::ostream &os, const T &v) { os << v; };
template <class T> void any(std::string &o, const T &v, const Spec &s) {
  if constexpr (std::is_same_v<T, bool>) pad(o, v ? "true" : "false", s, false);
  else if constexpr (std::is_same_v<T, char>) pad(o, std::string(1, v), s, false);
  else if constexpr (std::is_floating_point_v<T>) put(o, (double)v, s);
  else if constexpr (std::is_integral_v<T>) { if (s.type == 'f' || s.type == 'e' || s.type == 'g') put(o, (double)v, s); else puti(o, v, s); }
  else if constexpr (StrLike<T>) { std::string t{std::string_view(v)}; if (s.prec >= 0 && (int)t.size() > s.prec) t.resize(s.prec); pad(o, t, s, false); }
  else if constexpr (HasStream<T>) { std::ostringstream ss; ss << v; pad(o, ss.str(), s, false); }
  else if constexpr (requires { v.sep; v.r; }) { bool f = true; for (const auto &x : v.r) { if (!f) o += v.sep; f = false; any(o, x, s); } }
  else if constexpr (requires { v.sep; v.b; }) { bool f = true; for (auto i = v.b; i != v.e; ++i) { if (!f) o += v.sep; f = false; any(o, *i, s); } }
  else if constexpr (requires { v.v; }) { std::ostringstream ss; ss << v.v; pad(o, ss.str(), s, false); }
  else if constexpr (RangeLike<T>) { o += '['; bool f = true; for (const auto &x : v) { if (!f) o += ", "; f = false; any(o, x, s); } o += ']'; }
  else if constexpr (std::is_pointer_v<T>) { std::ostringstream ss; ss << (const void *)v; o += ss.str(); }
  else if constexpr (std::is_enum_v<T>) puti(o, (long)v, s);
  else o += "?";
}
struct Arg { const void *p; void (*f)(std::string &, const void *, const Spec &); long (*i)(const void *); };
template <class T> Arg mk(const T &v) { return {&v, [](std::string &o, const void *p, const Spec &s) { any(o, *(const T *)p, s); }, [](const void *p) -> long { if constexpr (std::is_integral_v<T>) return (long)*(const T *)p; else return 0; }}; }
template <class C, size_t N> Arg mk(const C (&v)[N]) { return {&v, [](std::string &o, const void *p, const Spec &s) { std::string t((const char *)p); pad(o, t, s, false); }, nullptr}; }
inline std::string vformat(std::string_view f, const Arg *a, int n) {
  std::string o; size_t i = 0; int next = 0;
  while (i < f.size()) {
    char c = f[i];
    if (c == '{') {
      if (i + 1 < f.size() && f[i + 1] == '{') { o += '{'; i += 2; continue; }
      i++; int id = -1; if (i < f.size() && f[i] >= '0' && f[i] <= '9') { id = 0; while (f[i] >= '0' && f[i] <= '9') id = id * 10 + (f[i++] - '0'); } else id = next++;
      Spec s;
      if (i < f.size() && f[i] == ':') {
        i++;
        auto isal = [](char x) { return x == '<' || x == '>' || x == '^'; };
        if (i + 1 < f.size() && isal(f[i + 1])) { s.fill = f[i]; s.align = f[i + 1]; i += 2; } else if (isal(f[i])) s.align = f[i++];
        if (f[i] == '+' || f[i] == '-' || f[i] == ' ') { if (f[i] != '-') s.sign = f[i]; i++; }
        if (f[i] == '#') { s.alt = true; i++; }
        if (f[i] == '0') { s.zero = true; i++; }
        auto num = [&](int &v) { if (f[i] == '{') { i++; int k = 0; if (f[i] >= '0' && f[i] <= '9') { while (f[i] != '}') k = k * 10 + (f[i++] - '0'); } else k = next++; i++; v = k < n && a[k].i ? (int)a[k].i(a[k].p) : 0; } else { v = 0; while (f[i] >= '0' && f[i] <= '9') v = v * 10 + (f[i++] - '0'); } };
        if ((f[i] >= '0' && f[i] <= '9') || f[i] == '{') num(s.width);
        if (f[i] == '.') { i++; num(s.prec); }
        while (i < f.size() && f[i] != '}') s.type = f[i++];
      }
      if (i < f.size()) i++;
      if (id >= 0 && id < n) a[id].f(o, a[id].p, s);
    } else if (c == '}') { o += '}'; i += (i + 1 < f.size() && f[i + 1] == '}') ? 2 : 1; }
    else { o += c; i++; }
  }
  return o;
}
template <class... A> std::string format(std::string_view f, const A &...a) { if constexpr (sizeof...(A) == 0) return vformat(f, nullptr, 0); else { Arg v[] = {mk(a)...}; return vformat(f, v, sizeof...(A)); } }
}
