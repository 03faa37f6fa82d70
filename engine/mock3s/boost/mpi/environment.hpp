// stand-in for Boost.MPI: messages between ranks that the harness plays one after the other
#pragma once
#include <any>
#include <boost/optional.hpp>
#include <complex>
#include <deque>
#include <functional>
#include <optional>
#include <string>
#include <vector>
#include <stdexcept>
#ifdef SYM_MPI
#include SYM_MPI
#else
namespace boost {

namespace mpi {
constexpr int any_source = -1, any_tag = -1;
struct environment { environment() {} environment(int &, char **&) {} static void abort(int) { std::exit(1); } };
struct status { int s = 0, t = 0; int source() const { return s; } int tag() const { return t; } };
struct communicator {
  int rank() const { return 0; } int size() const { return 1; }
  template <class... A> void send(A &&...) const { throw std::runtime_error("mpi"); }
  template <class... A> status recv(A &&...) const { throw std::runtime_error("mpi"); }
  boost::optional<status> iprobe(int, int) const { return {}; }
  status probe(int, int) const { throw std::runtime_error("mpi"); }
};
template <class T> void broadcast(const communicator &, T &, int) {}
} }
#endif
