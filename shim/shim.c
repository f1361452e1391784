/* LD_PRELOAD shim used by the checks (never part of nzbget).
 *
 *  VP_CTL   path of a control page (see struct ctl), mmapped shared with the driver
 *  VP_ROOT  path prefix inside which mutating file operations are allowed; any other
 *           mutating operation is refused with EACCES and recorded (containment)
 *  VP_OPLOG path of a log of mutating file operations (one line per operation)
 *
 * Provided: controllable clock (time/gettimeofday), counting of mutating file operations,
 * "crash" (immediate process death, as SIGKILL: nothing of the C library buffers is flushed)
 * before or in the middle of the N-th mutating operation, containment, statvfs override.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

struct ctl
{
	volatile int64_t time_mode;   /* 0 real, 1 real+time_val, 2 frozen at time_val */
	volatile int64_t time_val;
	volatile int64_t op_count;    /* mutating operations so far (incremented atomically) */
	volatile int64_t crash_at;    /* die at that operation (1-based), 0 = never */
	volatile int64_t crash_mode;  /* 0 before the operation, 1 half of a write reaches the disk first */
	volatile int64_t arm;         /* count operations only when non zero */
	volatile int64_t free_mb;     /* statvfs override (MB), -1 = real */
	volatile int64_t fail_at;     /* that operation fails (ENOSPC/EIO), 0 = never */
	volatile int64_t denied;      /* number of refused operations */
};

static struct ctl* C;
static char root[PATH_MAX];
static size_t rootlen;
static int logfd = -1;
static pid_t mainpid;
static pthread_mutex_t logmx = PTHREAD_MUTEX_INITIALIZER;

static time_t (*r_time)(time_t*);
static int (*r_gettimeofday)(struct timeval*, void*);
static FILE* (*r_fopen)(const char*, const char*);
static size_t (*r_fwrite)(const void*, size_t, size_t, FILE*);
static int (*r_fclose)(FILE*);
static int (*r_fflush)(FILE*);
static int (*r_rename)(const char*, const char*);
static int (*r_remove)(const char*);
static int (*r_unlink)(const char*);
static int (*r_mkdir)(const char*, mode_t);
static int (*r_rmdir)(const char*);
static int (*r_truncate)(const char*, off_t);
static int (*r_open)(const char*, int, ...);
static int (*r_statvfs)(const char*, struct statvfs*);
static int (*r_vfprintf)(FILE*, const char*, va_list);

static int resolved, inited;
static void resolve(void)
{
	if (resolved) return;
	r_time = dlsym(RTLD_NEXT, "time");
	r_gettimeofday = dlsym(RTLD_NEXT, "gettimeofday");
	r_fopen = dlsym(RTLD_NEXT, "fopen");
	r_fwrite = dlsym(RTLD_NEXT, "fwrite");
	r_fclose = dlsym(RTLD_NEXT, "fclose");
	r_fflush = dlsym(RTLD_NEXT, "fflush");
	r_rename = dlsym(RTLD_NEXT, "rename");
	r_remove = dlsym(RTLD_NEXT, "remove");
	r_unlink = dlsym(RTLD_NEXT, "unlink");
	r_mkdir = dlsym(RTLD_NEXT, "mkdir");
	r_rmdir = dlsym(RTLD_NEXT, "rmdir");
	r_truncate = dlsym(RTLD_NEXT, "truncate");
	r_open = dlsym(RTLD_NEXT, "open");
	r_statvfs = dlsym(RTLD_NEXT, "statvfs");
	r_vfprintf = dlsym(RTLD_NEXT, "vfprintf");
	resolved = 1;
}

static void init(void) __attribute__((constructor));
static void init(void)
{
	resolve();
	if (inited) return;
	inited = 1;
	mainpid = getpid();
	const char* p = getenv("VP_CTL");
	if (p)
	{
		int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDWR, 0);
		if (fd >= 0)
		{
			void* m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (m != MAP_FAILED) C = m;
			close(fd);
		}
	}
	p = getenv("VP_ROOT");
	if (p)
	{
		strncpy(root, p, sizeof(root) - 1);
		rootlen = strlen(root);
	}
	p = getenv("VP_OPLOG");
	if (p)
	{
		logfd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
		if (logfd >= 0)
		{
			int hi = fcntl(logfd, F_DUPFD_CLOEXEC, 200);
			if (hi >= 0) { close(logfd); logfd = hi; }
		}
	}
}

static void oplog(const char* op, const char* a, const char* b, const char* verdict)
{
	if (logfd < 0) return;
	char buf[3 * PATH_MAX];
	int n = snprintf(buf, sizeof buf, "%s\t%s\t%s\t%s\n", op, verdict, a ? a : "", b ? b : "");
	if (n > (int)sizeof buf) n = sizeof buf;
	pthread_mutex_lock(&logmx);
	syscall(SYS_write, logfd, buf, n);
	pthread_mutex_unlock(&logmx);
}

/* lexical absolute normalisation (no symlinks are used inside the scratch directories) */
static void normalise(const char* in, char* out, size_t cap)
{
	char tmp[2 * PATH_MAX];
	if (in[0] == '/')
		snprintf(tmp, sizeof tmp, "%s", in);
	else
	{
		char cwd[PATH_MAX];
		if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
		snprintf(tmp, sizeof tmp, "%s/%s", cwd, in);
	}
	char* parts[1024];
	int n = 0;
	char* save = 0;
	for (char* t = strtok_r(tmp, "/", &save); t; t = strtok_r(0, "/", &save))
	{
		if (!strcmp(t, ".")) continue;
		if (!strcmp(t, "..")) { if (n) n--; continue; }
		if (n < 1024) parts[n++] = t;
	}
	size_t l = 0;
	out[0] = 0;
	for (int i = 0; i < n; i++)
	{
		l += snprintf(out + l, l < cap ? cap - l : 0, "/%s", parts[i]);
		if (l >= cap) { out[cap - 1] = 0; return; }
	}
	if (!n) snprintf(out, cap, "/");
}

static int inside(const char* path)
{
	if (!rootlen) return 1;
	char n[PATH_MAX];
	normalise(path, n, sizeof n);
	if (!strncmp(n, "/dev/", 5)) return 1;
	return !strncmp(n, root, rootlen) && (n[rootlen] == '/' || n[rootlen] == 0);
}

/* 0 = go on, -1 = refused (errno set) */
static int gate(const char* op, const char* a, const char* b)
{
	if (!inited) init();
	if ((a && !inside(a)) || (b && !inside(b)))
	{
		if (C) __sync_add_and_fetch(&C->denied, 1);
		oplog(op, a, b, "DENIED");
		errno = EACCES;
		return -1;
	}
	if (C && C->arm && getpid() == mainpid)
	{
		int64_t n = __sync_add_and_fetch(&C->op_count, 1);
		if (C->crash_at && n >= C->crash_at && C->crash_mode == 0)
		{
			oplog(op, a, b, "CRASH");
			syscall(SYS_exit_group, 137);
		}
		if (C->crash_at && n >= C->crash_at && C->crash_mode == 1 && strcmp(op, "write"))
		{
			oplog(op, a, b, "CRASH");
			syscall(SYS_exit_group, 137);
		}
		if (C->fail_at && n == C->fail_at)
		{
			oplog(op, a, b, "FAIL");
			errno = ENOSPC;
			return -1;
		}
	}
	oplog(op, a, b, "ok");
	return 0;
}

time_t time(time_t* t)
{
	if (!inited) init();
	time_t now = r_time(0);
	if (C)
	{
		if (C->time_mode == 1) now += C->time_val;
		else if (C->time_mode == 2) now = C->time_val;
	}
	if (t) *t = now;
	return now;
}

int gettimeofday(struct timeval* tv, void* tz)
{
	if (!inited) init();
	int r = r_gettimeofday(tv, tz);
	if (C && tv)
	{
		if (C->time_mode == 1) tv->tv_sec += C->time_val;
		else if (C->time_mode == 2) { tv->tv_sec = C->time_val; tv->tv_usec = 0; }
	}
	return r;
}

static int writing_mode(const char* m) { return strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'); }

FILE* fopen(const char* p, const char* m)
{
	if (!inited) init();
	if (writing_mode(m) && gate("open", p, 0)) return 0;
	return r_fopen(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }

size_t fwrite(const void* d, size_t s, size_t n, FILE* f)
{
	if (!inited) init();
	if (f == stdout || f == stderr) return r_fwrite(d, s, n, f);
	if (gate("write", 0, 0)) return 0;
	if (C && C->arm && C->crash_at && C->crash_mode == 1 && C->op_count >= C->crash_at && getpid() == mainpid)
	{
		r_fwrite(d, 1, s * n / 2, f);
		r_fflush(f);
		oplog("write", 0, 0, "CRASH-PARTIAL");
		syscall(SYS_exit_group, 137);
	}
	return r_fwrite(d, s, n, f);
}

int fclose(FILE* f)
{
	if (!inited) init();
	if (C && C->arm && gate("close", 0, 0)) { r_fclose(f); return EOF; }
	return r_fclose(f);
}
int rename(const char* a, const char* b) { return gate("rename", a, b) ? -1 : r_rename(a, b); }
int remove(const char* a) { return gate("unlink", a, 0) ? -1 : r_remove(a); }
int unlink(const char* a) { return gate("unlink", a, 0) ? -1 : r_unlink(a); }
int mkdir(const char* a, mode_t m) { return gate("mkdir", a, 0) ? -1 : r_mkdir(a, m); }
int rmdir(const char* a) { return gate("rmdir", a, 0) ? -1 : r_rmdir(a); }
int truncate(const char* a, off_t l) { return gate("truncate", a, 0) ? -1 : r_truncate(a, l); }
int open(const char* p, int fl, ...)
{
	mode_t m = 0;
	if (!inited) init();
	if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
	if (((fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT)) && gate("open", p, 0)) return -1;
	return r_open(p, fl, m);
}
int open64(const char* p, int fl, ...)
{
	mode_t m = 0;
	if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
	return open(p, fl, m);
}
int statvfs(const char* p, struct statvfs* s)
{
	if (!inited) init();
	int r = r_statvfs(p, s);
	if (!r && C && C->free_mb >= 0)
	{
		s->f_frsize = 1024 * 1024;
		s->f_bsize = 1024 * 1024;
		s->f_bavail = s->f_bfree = C->free_mb;
	}
	return r;
}
