/* faultio.h - file-system faults at the system-call boundary.
 * A seccomp filter traps every file system call of this process; the SIGSYS handler carries it out, makes it fail,
 * cuts it short, or kills the process, as armed.  Only calls made between fio_arm and fio_disarm are counted; calls
 * on stdin/stdout/stderr are never touched. */
#ifndef FAULTIO_H
#define FAULTIO_H
#include <stdbool.h>
enum { FIO_NONE, FIO_ERR, FIO_SHORT, FIO_PERSIST, FIO_EOF, FIO_KILL, FIO_KILL_TORN, FIO_KILL_AFTER, FIO_MODES };
bool fio_available(void);              /* installs the filter on first use */
void fio_arm(long at, int mode, int err); /* from now on count; the at-th call (1..) is hit */
long fio_disarm(void);                 /* number of counted calls */
int  fio_hit(void);                    /* the fault was injected */
const char *fio_what(void);            /* the call that was hit */
bool fio_was_rw(void);                 /* the hit call was a read or write (so "short" made sense) */
int  fio_open_fds(void);               /* open descriptors of this process */
bool fio_seek(void);        /* one of the failed calls was lseek or fcntl */
#endif
