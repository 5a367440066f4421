// the library's log goes nowhere unless a test looks at it
#ifndef QUIET_H_
#define QUIET_H_
#ifndef KEEP_LOG
#define ST_ASIO_NO_UNIFIED_OUT
#endif
#endif
