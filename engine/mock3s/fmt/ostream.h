#include <fmt/format.h>
