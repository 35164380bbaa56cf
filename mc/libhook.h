// Forced into every C++ file of the library: ending the process becomes a call the driver can observe.
#ifdef __cplusplus
#include <stdlib.h>
#include <cstdlib>
[[noreturn]] void mc_exit(int);
namespace std { using ::mc_exit; }
#define exit mc_exit
#endif
