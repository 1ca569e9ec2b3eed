#pragma once
// Offline stand-in for the uni-algo library (not installed here), over ICU. Only the functions
// the sources under check use.
#include "case.h"
#include "conv.h"
#include "norm.h"
