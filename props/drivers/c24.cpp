// instantiates nothing: addSubsetParameterization is a plain function of the header
#include <rct_optimizations/local_parameterization.h>
