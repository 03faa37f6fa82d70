// stand-in for boost::archive binary archives: raw bytes, containers with a count
#pragma once
#include <complex>
#include <iostream>
#include <list>
#include <map>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>
namespace boost { namespace serialization { struct access { template <class A, class T> static void go(A &a, T &t) { t.serialize(a, 0u); } }; }
namespace archive {
class archive_exception : public std::runtime_error { public: enum exception_code { input_stream_error }; archive_exception() : std::runtime_error("input stream error") {} };
template <class T> struct isvec : std::false_type {}; template <class T> struct isvec<std::vector<T>> : std::true_type {};
template <class T> struct iscplx : std::false_type {}; template <class T> struct iscplx<std::complex<T>> : std::true_type {};
class binary_oarchive {
  std::ostream &f;
public:
  explicit binary_oarchive(std::ostream &o, unsigned = 0) : f(o) { f.write("BOOSTARC", 8); }
  template <class T> binary_oarchive &operator<<(const T &x) {
    if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) f.write((const char *)&x, sizeof x);
    else if constexpr (iscplx<T>::value) *this << x.real() << x.imag();
    else if constexpr (isvec<T>::value) { *this << x.size(); for (const auto &y : x) *this << y; }
    else if constexpr (std::is_same_v<T, std::string>) { *this << x.size(); f.write(x.data(), x.size()); }
    else serialization::access::go(*this, const_cast<T &>(x));
    return *this;
  }
  template <class T> binary_oarchive &operator&(const T &x) { return *this << x; }
};
class binary_iarchive {
  std::istream &f;
  void rd(char *p, size_t n) { f.read(p, n); if ((size_t)f.gcount() != n) throw archive_exception(); }
public:
  explicit binary_iarchive(std::istream &i, unsigned = 0) : f(i) { char b[8]; rd(b, 8); }
  template <class T> binary_iarchive &operator>>(T &x) {
    if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) rd((char *)&x, sizeof x);
    else if constexpr (iscplx<T>::value) { typename T::value_type r, i; *this >> r >> i; x = {r, i}; }
    else if constexpr (isvec<T>::value) { size_t n; *this >> n; x.clear(); x.resize(n); for (auto &y : x) *this >> y; }
    else if constexpr (std::is_same_v<T, std::string>) { size_t n; *this >> n; x.resize(n); rd(x.data(), n); }
    else serialization::access::go(*this, x);
    return *this;
  }
  template <class T> binary_iarchive &operator&(T &x) { return *this >> x; }
};
} }
