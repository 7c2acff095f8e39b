// Linked into every checked shared object.
#include "mc.h"
#include "mg/box/Log.h"
#include <stdarg.h>
extern "C" {
extern char __start_mcoracle[] __attribute__((weak));
extern char __stop_mcoracle[] __attribute__((weak));
__attribute__((visibility("default"))) void mc_glue_oracle(void** a, void** b)
{
	*a = __start_mcoracle;
	*b = __stop_mcoracle;
}
}
namespace mg {
namespace box {
// The project requires its user to define the log sink. Here it is silent.
void LogV(LogLevel, const char*, int, const char*, const char*, va_list) {}
}
}
