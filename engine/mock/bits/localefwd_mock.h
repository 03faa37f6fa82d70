#pragma once
#include <cctype>
#include <cwctype>
#include <string>
#include <bits/localefwd.h>
namespace std {
class locale { public: typedef int category; static constexpr category none = 0, collate = 1, ctype = 2, monetary = 4, numeric = 8, time = 16, messages = 32, all = 63; class facet { public: virtual ~facet() {} protected: explicit facet(size_t = 0) {} }; class id {};
  locale() noexcept {} explicit locale(const char *) {} explicit locale(const string &) {} template <class F> locale(const locale &, F *) {} locale(const locale &, const char *, category) {} static const locale &classic() { static locale l; return l; } static locale global(const locale &l) { return l; } string name() const { return "C"; } bool operator==(const locale &) const { return true; } };
inline bool isspace(char c, const locale &) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool isdigit(char c, const locale &) { return c >= '0' && c <= '9'; }
inline bool isupper(char c, const locale &) { return c >= 'A' && c <= 'Z'; }
inline bool islower(char c, const locale &) { return c >= 'a' && c <= 'z'; }
inline bool isalpha(char c, const locale &l) { return isupper(c, l) || islower(c, l); }
inline bool isalnum(char c, const locale &l) { return isalpha(c, l) || isdigit(c, l); }
inline char tolower(char c, const locale &l) { return isupper(c, l) ? c + 32 : c; }
inline char toupper(char c, const locale &l) { return islower(c, l) ? c - 32 : c; }
class ctype_base { public: typedef unsigned short mask; static constexpr mask space = 1, print = 2, cntrl = 4, upper = 8, lower = 16, alpha = 32, digit = 64, punct = 128, xdigit = 256, alnum = alpha | digit, graph = alnum | punct, blank = 512; };
template <class C> class ctype;
template <> class ctype<char> : public locale::facet, public ctype_base { public: static locale::id id; char widen(char c) const { return c; } char narrow(char c, char) const { return c; } char toupper(char c) const { return std::toupper(c, locale()); } char tolower(char c) const { return std::tolower(c, locale()); } bool is(mask m, char c) const { return ((m & space) && isspace(c, locale())) || ((m & digit) && isdigit(c, locale())); } };
template <class C> class numpunct : public locale::facet { public: static locale::id id; C decimal_point() const { return '.'; } C thousands_sep() const { return ','; } string grouping() const { return ""; } };
template <class F> const F &use_facet(const locale &) { static F f; return f; }
template <class F> bool has_facet(const locale &) { return true; }
class codecvt_base { public: enum result { ok, partial, error, noconv }; };
template <class I, class E, class S> class codecvt : public locale::facet, public codecvt_base { public: static locale::id id; typedef I intern_type; typedef E extern_type; typedef S state_type; explicit codecvt(size_t r = 0) : locale::facet(r) {} 
protected: virtual result do_out(S &, const I *, const I *, const I *&, E *, E *, E *&) const { return noconv; } virtual result do_in(S &, const E *, const E *, const E *&, I *, I *, I *&) const { return noconv; } virtual result do_unshift(S &, E *, E *, E *&) const { return noconv; } virtual int do_encoding() const throw() { return 1; } virtual bool do_always_noconv() const throw() { return true; } virtual int do_length(S &, const E *, const E *, size_t) const { return 0; } virtual int do_max_length() const throw() { return 1; } };
template <class C> class collate : public locale::facet { public: static locale::id id; };
}
