/* Logging has empty bodies (formatting is not the subject). */
#include "vp.h"
#include <stdarg.h>
#include <stdio.h>
#include "lib/log.h"
#include "lib/rrr_config.h"
struct rrr_global_config rrr_config_global = { .log_prefix = "main", .run_directory = "/run" };
const char *rrr_default_log_prefix = "main";
void rrr_log_printf_nolock (const char *file, int line, uint8_t l, uint8_t lo, const char *prefix, const char *__restrict fmt, ...) { }
void rrr_log_printf_plain (const char *__restrict fmt, ...) { }
void rrr_log_printn_plain (const char *value, unsigned long long value_size) { }
void rrr_log_printf (const char *file, int line, uint8_t loglevel, const char *prefix, const char *__restrict fmt, ...) { }
void rrr_log_vprintf (const char *file, int line, uint8_t loglevel, const char *prefix, const char *__restrict fmt, va_list args) { }
void rrr_log_fprintf (FILE *f, const char *file, int line, uint8_t loglevel, const char *prefix, const char *__restrict fmt, ...) { }
