// The names that Ceres 2.2 gave to what this repository calls by the names of Ceres < 2.2.
// (Ceres 2.1 deprecated LocalParameterization in favour of Manifold and 2.2 removed it; the constructor of the subset
// parameterization, the class of parameters that it holds constant and the ownership are the same.)
#pragma once
#include <ceres/manifold.h>
#include <ceres/problem.h>
#define LocalParameterization Manifold
#define SubsetParameterization SubsetManifold
#define SetParameterization SetManifold
