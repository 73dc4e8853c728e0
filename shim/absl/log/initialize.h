#ifndef SHIM_ABSL_LOG_INITIALIZE_H_
#define SHIM_ABSL_LOG_INITIALIZE_H_
namespace absl { inline void InitializeLog() {} }
#endif
