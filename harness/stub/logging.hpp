#ifndef LOGGING_HDR
#define LOGGING_HDR
// logging statements are not part of any property; they are compiled out
#define TRACE(p) do {} while (0)
#define DEBUG(p) do {} while (0)
#define INFO(p)  do {} while (0)
#define WARN(p)  do {} while (0)
#define ERROR(p) do {} while (0)
#define FATAL(p) do {} while (0)
#define FLUSH do {} while (0)
#define DEBUG_NOFLUSH(p) do {} while (0)
#endif
