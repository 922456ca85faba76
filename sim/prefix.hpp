// Force-included into every translation unit that goes into the simulator,
// the solver sources of /repo among them: assertions of Eigen and of the
// standard library report to the simulator instead of aborting.
#pragma once
#ifdef __cplusplus
namespace rt {
[[noreturn]] void assert_fail(const char* expr, const char* file, int line);
}
#define eigen_assert(x)                                     \
  do {                                                      \
    if (!(x)) ::rt::assert_fail(#x, __FILE__, __LINE__);    \
  } while (false)
#endif
