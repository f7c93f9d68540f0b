// The generators of C20 under the sanitizers.
#define property property_C20
#include "c20.cpp"
