// one-mode reliabilities: AND,OR,OD
#define VF_SHARED_TABLE
#include "samp.hpp"
#define MODELS AND,OR,OD
#include "samp_cases.hpp"
