#pragma once
#include "logging.h"
namespace vp
{
inline bool log_enabled()
{
    static const bool enabled = getenv("VP_NATIVE_LOG") != nullptr;
    return enabled;
}
} // namespace vp
#define VP_RAW_LOG(LEVEL, ...)                                                                                         \
    do                                                                                                                 \
    {                                                                                                                  \
        if (::vp::log_enabled())                                                                                       \
        {                                                                                                              \
            fprintf(stderr, LEVEL " ");                                                                                \
            fprintf(stderr, __VA_ARGS__);                                                                              \
            fprintf(stderr, "\n");                                                                                     \
        }                                                                                                              \
    } while (0)
#define RAW_LOG_INFO(...) VP_RAW_LOG("I", __VA_ARGS__)
#define RAW_LOG_WARNING(...) VP_RAW_LOG("W", __VA_ARGS__)
#define RAW_LOG_ERROR(...) VP_RAW_LOG("E", __VA_ARGS__)
// The real one logs and aborts. Data errors reach this point too, tell them apart from other aborts by the exit code.
#define RAW_LOG_FATAL(...)                                                                                             \
    do                                                                                                                 \
    {                                                                                                                  \
        fprintf(stderr, "F ");                                                                                         \
        fprintf(stderr, __VA_ARGS__);                                                                                  \
        fprintf(stderr, "\n");                                                                                         \
        abort();                                                                                                       \
    } while (0)
#define RAW_VLOG(...)
#define RAW_CHECK(cond, msg)                                                                                           \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond))                                                                                                   \
            RAW_LOG_FATAL("%s", msg);                                                                                  \
    } while (0)
