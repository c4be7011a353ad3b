#include "sha_stub.h"
void sx_scrypt(const char* input, char* output) { for (int k = 0; k < 32; k++) output[k] = input[k % 80] ^ k; }
#include "op_args.cpp"
