// one-mode reliabilities: PLAIN
#define VF_SHARED_TABLE
#include "samp.hpp"
#define MODELS PLAIN
#include "samp_cases.hpp"
