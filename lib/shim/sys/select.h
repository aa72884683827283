// The system's <sys/select.h>, with FD_ZERO as one assignment instead of a loop.
#include_next <sys/select.h>
#undef FD_ZERO
#define FD_ZERO(s) memset((s), 0, sizeof(fd_set))
