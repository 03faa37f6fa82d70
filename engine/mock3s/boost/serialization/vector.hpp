#include <boost/archive/binary_oarchive.hpp>
