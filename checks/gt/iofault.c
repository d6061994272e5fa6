// LD_PRELOAD: fails the EMF_K-th operation on files below EMF_DIR; without EMF_K it only counts into EMF_LOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <unistd.h>
static char dir[4096]; static int k = -1, err, mode, count, inited; static FILE *files[64]; static unsigned char fds[4096];
static void init(void) { if(inited) return; inited = 1; const char *d = getenv("EMF_DIR"); if(d) strncpy(dir, d, 4095); const char *s = getenv("EMF_K"); k = s ? atoi(s) : -1;
  s = getenv("EMF_ERR"); err = s ? atoi(s) : ENOSPC; s = getenv("EMF_MODE"); mode = s ? atoi(s) : 0; }
static int under(const char *p) { init(); return dir[0] && p && strncmp(p, dir, strlen(dir)) == 0; }
static const char *names[4096]; 
static int hit(const char *op) { if(count < 4096) names[count] = op; return count++ == k; }
#define REAL(t, n) static t real; if(!real) real = (t)dlsym(RTLD_NEXT, n)
static int track(FILE *f) { int i; for(i = 0; i < 64; i++) if(files[i] == f) return i; return -1; }
typedef FILE *(*fopen_t)(const char *, const char *);
static FILE *do_fopen(fopen_t real, const char *p, const char *m) { if(!under(p)) return real(p, m); if(hit("fopen")) { errno = err; return 0; } FILE *f = real(p, m); if(f) { int i = track(0); if(i >= 0) files[i] = f; int fd = fileno(f); if(fd >= 0 && fd < 4096) fds[fd] = 1; } return f; }
FILE *fopen(const char *p, const char *m) { REAL(fopen_t, "fopen"); return do_fopen(real, p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(fopen_t, "fopen64"); return do_fopen(real, p, m); }
typedef int (*open_t)(const char *, int, ...);
static int do_open(open_t real, const char *p, int fl, int mo) { if(!under(p) || (fl & O_ACCMODE) == O_RDONLY) return real(p, fl, mo); if(hit("open")) { errno = err; return -1; } int fd = real(p, fl, mo); if(fd >= 0 && fd < 4096) fds[fd] = 1; return fd; }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int mo = va_arg(a, int); va_end(a); REAL(open_t, "open"); return do_open(real, p, fl, mo); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int mo = va_arg(a, int); va_end(a); REAL(open_t, "open64"); return do_open(real, p, fl, mo); }
typedef int (*openat_t)(int, const char *, int, ...);
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int mo = va_arg(a, int); va_end(a); REAL(openat_t, "openat"); if(!under(p) || (fl & O_ACCMODE) == O_RDONLY) return real(d, p, fl, mo); if(hit("openat")) { errno = err; return -1; } int fd = real(d, p, fl, mo); if(fd >= 0 && fd < 4096) fds[fd] = 1; return fd; }
typedef int (*creat_t)(const char *, mode_t);
int creat(const char *p, mode_t m) { REAL(creat_t, "creat"); if(!under(p)) return real(p, m); if(hit("creat")) { errno = err; return -1; } int fd = real(p, m); if(fd >= 0 && fd < 4096) fds[fd] = 1; return fd; }
typedef ssize_t (*write_t)(int, const void *, size_t);
ssize_t write(int fd, const void *b, size_t n) { REAL(write_t, "write"); if(fd < 0 || fd >= 4096 || !fds[fd]) return real(fd, b, n);
  if(hit("write")) { if(mode == 1 && n > 1) { return real(fd, b, n / 2); } if(mode == 2 && n > 1) { real(fd, b, n / 2); } errno = err; return -1; } return real(fd, b, n); }
typedef ssize_t (*writev_t)(int, const struct iovec *, int);
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev_t, "writev"); if(fd < 0 || fd >= 4096 || !fds[fd]) return real(fd, v, n); if(hit("writev")) { errno = err; return -1; } return real(fd, v, n); }
typedef size_t (*fwrite_t)(const void *, size_t, size_t, FILE *);
static size_t do_fwrite(fwrite_t real, const void *p, size_t s, size_t n, FILE *f) { if(!f || track(f) < 0) return real(p, s, n, f);
  if(hit("fwrite")) { size_t part = mode == 2 && n > 1 ? real(p, s, n / 2, f) : 0; errno = err; return part; } return real(p, s, n, f); }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { REAL(fwrite_t, "fwrite"); return do_fwrite(real, p, s, n, f); }
size_t fwrite_unlocked(const void *p, size_t s, size_t n, FILE *f) { REAL(fwrite_t, "fwrite_unlocked"); return do_fwrite(real, p, s, n, f); }
typedef int (*fputs_t)(const char *, FILE *);
int fputs(const char *p, FILE *f) { REAL(fputs_t, "fputs"); if(f && track(f) >= 0 && hit("fputs")) { errno = err; return EOF; } return real(p, f); }
typedef int (*fputc_t)(int, FILE *);
int fputc(int ch, FILE *f) { REAL(fputc_t, "fputc"); if(f && track(f) >= 0 && hit("fputc")) { errno = err; return EOF; } return real(ch, f); }
int putc(int ch, FILE *f) { REAL(fputc_t, "putc"); if(f && track(f) >= 0 && hit("putc")) { errno = err; return EOF; } return real(ch, f); }
typedef int (*vfprintf_t)(FILE *, const char *, va_list);
int vfprintf(FILE *f, const char *fmt, va_list a) { REAL(vfprintf_t, "vfprintf"); if(f && track(f) >= 0 && hit("vfprintf")) { errno = err; return -1; } return real(f, fmt, a); }
int fprintf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vfprintf(f, fmt, a); va_end(a); return r; }
typedef int (*vfprintf_chk_t)(FILE *, int, const char *, va_list);
int __vfprintf_chk(FILE *f, int fl, const char *fmt, va_list a) { REAL(vfprintf_chk_t, "__vfprintf_chk"); if(f && track(f) >= 0 && hit("vfprintf")) { errno = err; return -1; } return real(f, fl, fmt, a); }
int __fprintf_chk(FILE *f, int fl, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = __vfprintf_chk(f, fl, fmt, a); va_end(a); return r; }
typedef int (*ff_t)(FILE *);
int fflush(FILE *f) { REAL(ff_t, "fflush"); if(f && track(f) >= 0 && hit("fflush")) { errno = err; return EOF; } return real(f); }
int fclose(FILE *f) { REAL(ff_t, "fclose"); int i = f ? track(f) : -1; if(i < 0) return real(f); files[i] = 0; { int fd = fileno(f); if(fd >= 0 && fd < 4096) fds[fd] = 0; } if(hit("fclose")) { real(f); errno = err; return EOF; } return real(f); }
typedef int (*c_t)(int);
int close(int fd) { REAL(c_t, "close"); if(fd < 0 || fd >= 4096 || !fds[fd]) return real(fd); fds[fd] = 0; if(hit("close")) { real(fd); errno = err; return -1; } return real(fd); }
int fsync(int fd) { REAL(c_t, "fsync"); if(fd >= 0 && fd < 4096 && fds[fd] && hit("fsync")) { errno = err; return -1; } return real(fd); }
typedef int (*ren_t)(const char *, const char *);
int rename(const char *a, const char *b) { REAL(ren_t, "rename"); if(under(b) && hit("rename")) { errno = err; return -1; } return real(a, b); }
__attribute__((destructor)) static void fini(void) { init(); const char *l = getenv("EMF_LOG"); if(!l) return; int i; FILE *f = fopen(l, "w"); if(!f) return; for(i = 0; i < count && i < 4096; i++) fprintf(f, "%s\n", names[i]); fclose(f); }
