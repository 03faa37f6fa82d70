#include <boost/mpi/environment.hpp>
