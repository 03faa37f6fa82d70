#pragma once
#include "eigen.hpp"
namespace H5Easy {
using HighFive::File;
enum class DumpMode { Create, Overwrite };
template <class T> void dump(File &f, const std::string &p, const std::vector<T> &v, DumpMode = DumpMode::Create) { auto &d = f.d[p]; d = {}; d.dims = {v.size()}; for (const auto &x : v) HighFive::h5put(d, x); }
template <class D> void dump(File &f, const std::string &p, const Eigen::MatrixBase<D> &m, DumpMode = DumpMode::Create) { auto &d = f.d[p]; d = {}; d.dims = {(size_t)m.rows(), (size_t)m.cols()}; for (long i = 0; i < m.rows(); i++) for (long j = 0; j < m.cols(); j++) d.v.push_back(m(i, j)); }
}
