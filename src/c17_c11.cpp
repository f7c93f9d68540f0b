// The generators of C11 under the sanitizers.
#define property property_C11
#include "c11.cpp"
