#pragma once
#include <cmath>
#include <cstdlib>
#include <limits>
#include <tuple>
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include "common.hpp"
namespace bwslv {
namespace ba = bwsl::accumulators;
#define KAHAN bwsl::accumulators::KahanAccumulator
#define NEUM bwsl::accumulators::NeumaierAccumulator
#define KNUTH bwsl::accumulators::KnuthWelfordAccumulator
#define WEST bwsl::accumulators::WestAccumulator
#define NAIVE bwsl::NaiveInteger
}
