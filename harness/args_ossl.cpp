#include "ossl.h"
#include "op_args.cpp"
