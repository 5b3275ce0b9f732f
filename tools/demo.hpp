// Shared helpers of the demonstrations.
#pragma once
#include <cosim/algorithm.hpp>
#include <cosim/execution.hpp>
#include <cosim/function/linear_transformation.hpp>
#include <cosim/function/vector_sum.hpp>
#include <cosim/log/simple.hpp>
#include <cosim/observer.hpp>
#include <cosim/manipulator.hpp>
#include <cosim/observer/file_observer.hpp>
#include "mock_slave.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#define REQUIRE(c) do { if (!(c)) { std::printf("%s:%d: violated: %s\n", __FILE__, __LINE__, #c); std::exit(1); } } while (0)
constexpr cosim::time_point T0;
inline cosim::duration ms(int n) { return std::chrono::milliseconds(n); }
