// forced include: Eigen's own index checks become reported failures instead of abort()
#pragma once
#ifdef __cplusplus
extern "C" void __sym_assert(const char*);
#define eigen_assert(x) ((x) ? (void)0 : __sym_assert(#x))
#endif
