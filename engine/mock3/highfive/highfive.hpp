// stand-in for HighFive (not installed): records what is written, in memory
#pragma once
#include <map>
#include <string>
#include <vector>
#include <complex>
#include <memory>
namespace HighFive {
struct DataSet { std::vector<size_t> dims; std::vector<std::complex<double>> v; std::vector<std::string> s; };
class File {
public:
  enum AccessMode : unsigned { ReadOnly = 0, ReadWrite = 1, Truncate = 2, Excl = 4, Create = 8, OpenOrCreate = 9, Overwrite = 2 };
  std::string fn; std::map<std::string, DataSet> d; bool open = true;
  File(const std::string &f, unsigned = 0) : fn(f) {}
  void flush() {}
};
template <class T> void h5put(DataSet &d, const T &x) {
  if constexpr (std::is_convertible_v<T, std::string>) d.s.push_back(x);
  else if constexpr (std::is_arithmetic_v<T>) d.v.push_back((double)x);
  else d.v.push_back(x);
}
}
