// The generators of C19 under the sanitizers.
#define property property_C19
#include "c19.cpp"
