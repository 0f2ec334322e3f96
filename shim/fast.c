// Preallocating log files on a memory file system touches every page; it is only a hint.
#define _GNU_SOURCE
#include <fcntl.h>
int fallocate(int fd, int mode, off_t off, off_t len) { (void)fd; (void)mode; (void)off; (void)len; return 0; }
int fallocate64(int fd, int mode, off64_t off, off64_t len) { (void)fd; (void)mode; (void)off; (void)len; return 0; }
int posix_fallocate(int fd, off_t off, off_t len) { (void)fd; (void)off; (void)len; return 0; }
