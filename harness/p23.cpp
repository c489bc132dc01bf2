// one-mode reliabilities: SPARSE
#define VF_SHARED_TABLE
#include "samp.hpp"
#define MODELS SPARSE
#include "samp_cases.hpp"
