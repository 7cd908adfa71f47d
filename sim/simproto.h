/* Wire protocol between an actor (code under test + simrt.c) and the
 * simulator kernel (simk.cc).  One request is outstanding per channel; the
 * actor is parked until the kernel answers, so the kernel alone decides which
 * actor makes the next step. */
#ifndef SIMPROTO_H
#define SIMPROTO_H
#include <stdint.h>

#define SIM_OPS(X) \
 X(HELLO) X(YIELD) X(EXITNOTE) X(STEPLIMIT) X(HEAPBAD) X(NOTE) \
 X(OPEN) X(READ) X(WRITE) X(PREAD) X(PWRITE) X(LSEEK) X(CLOSE) \
 X(FSTAT) X(STAT) X(LSTAT) X(ACCESS) X(MKDIR) X(RMDIR) X(RENAME) X(LINK) \
 X(SYMLINK) X(READLINK) X(UNLINK) X(CHMOD) X(FTRUNCATE) X(TRUNCATE) \
 X(FSYNC) X(READDIR) X(GETCWD) X(CHDIR) X(DUP) X(DUP2) X(PIPE) X(LOCK) \
 X(ISATTY) X(GETFL) X(UMASK) \
 X(FORK) X(FORKED) X(WAITPID) X(KILL) X(GETPID) X(GETPPID) \
 X(TIME) X(SLEEP) X(MPROTECT) X(MMAP) X(DLOPEN) \
 X(SEMINIT) X(SEMWAIT) X(SEMTRY) X(SEMPOST) X(MUTEXLOCK) X(MUTEXUNLOCK) \
 X(THREAD) X(THREADEXIT) X(THREADJOIN) X(REALPATH) X(FDCOUNT) X(UTIMES) \
 X(ALLOCFAIL) X(RANDOM) X(POLL) X(SETFL) X(FIONREAD)

enum {
#define X(n) OP_##n,
  SIM_OPS(X)
#undef X
  OP__N
};

#define SIM_KEEPTURN 0x10000 /* in op: no other thread before this one */
struct sim_req { uint32_t op, len; int64_t a[6]; };
struct sim_rep { int64_t ret; int32_t err; uint32_t len; };

struct sim_stat { uint32_t type; /* S_IFxxx */ uint32_t mode; uint64_t size, ino, nlink; int64_t mtime; };

#define SIM_COVBITS (1<<16)
#endif
