// The generators of C13 under the sanitizers.
#define property property_C13
#include "c13.cpp"
