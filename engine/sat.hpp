#pragma once
#include "expr.hpp"
// Decides a conjunction of bit-vector constraints; Unknown when a construct is not supported.
Res satCheck(const std::vector<Val>& pc, const Val& extra, double secs, Model* m);
