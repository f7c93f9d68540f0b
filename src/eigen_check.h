/* Eigen's run-time bound and size checks abort the process instead of being compiled out. */
#ifndef VERIF_EIGEN_CHECK_H
#define VERIF_EIGEN_CHECK_H
#ifdef __cplusplus
#include <cstdio>
#include <cstdlib>
inline void verif_eigen_check_failed(const char* e, const char* f, int l) {
  std::fprintf(stderr, "Eigen check failed: %s (%s:%d)\n", e, f, l);
  std::abort();
}
#define eigen_assert(x) ((x) ? (void)0 : verif_eigen_check_failed(#x, "", 0))
#endif
#endif
