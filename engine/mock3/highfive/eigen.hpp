#pragma once
#include <Eigen/Dense>
#include "highfive.hpp"
