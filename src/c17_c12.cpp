// The generators of C12 under the sanitizers.
#define property property_C12
#include "c12.cpp"
