// Simulated file system front end: every file operation of the code under test
// is a scheduling point and a place where a fault can be injected.
//
// Files are real files below one scratch directory (the current directory).
// What has been written when the process dies is what survives: the crash
// model is the death of the process, with operations in program order.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "net.h"
#include "rt_int.h"

#include <ctype.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

char g_scratch[4096];
size_t g_scratch_len;
static uint64_t g_io_index;
static bool g_faults_on = true, g_spare_removals = false;
static uint64_t g_last_error_io;
static bool g_any_error, g_own_error;
static int *g_error_flag, *g_reading_flag;
static uint64_t g_full_until; // DISKFULL window: ops with index < this fail


struct Fd {
  bool used, write, seen;
  uint16_t cls;
};
static Fd g_fd[1024];
static FILE *g_pipes[64];
static int g_pipe_rc[64];

static inline long sys6(long n, long a = 0, long b = 0, long c = 0, long d = 0,
                        long e = 0, long f = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) {
    errno = (int)-ret;
    return -1;
  }
  return ret;
}

void io_init() {
  if (!getcwd(g_scratch, sizeof g_scratch))
    _exit(93);
  g_scratch_len = strlen(g_scratch);
}
uint64_t io_index() { return g_io_index; }
void set_error_flag(int *flag) { g_error_flag = flag; }
void set_reading_flag(int *flag) { g_reading_flag = flag; }
static void note_error() {
  g_any_error = true;
  if (g_error_flag)
    *g_error_flag = 1;
}
bool error_fired() { return g_any_error; }
bool reading_failed() { return g_own_error; }
bool fault_near(uint64_t since) {
  return g_any_error && g_last_error_io >= since;
}
void set_faults_enabled(bool on) { g_faults_on = on; }
void spare_removals(bool on) { g_spare_removals = on; }
const char *class_name(int c) {
  return c >= 0 && c < g_res->ncls ? g_res->cls_name[c] : "?";
}

// Names differing only in digits (or addresses) are the same class.
static uint16_t class_of(const char *path) {
  const char *b = strrchr(path, '/');
  b = b ? b + 1 : path;
  char n[40];
  int k = 0;
  for (int i = 0; b[i] && k < 38; i++) {
    bool hex = b[i] == '0' && b[i + 1] == 'x';
    if (hex) {
      i += 2;
      while (isxdigit((unsigned char)b[i]))
        i++;
      i--;
      n[k++] = '#';
    } else if (isdigit((unsigned char)b[i])) {
      if (k == 0 || n[k - 1] != '#')
        n[k++] = '#';
    } else {
      n[k++] = b[i];
    }
  }
  n[k] = 0;
  for (int i = 0; i < g_res->ncls; i++)
    if (strcmp(g_res->cls_name[i], n) == 0)
      return (uint16_t)i;
  if (g_res->ncls >= 128)
    return 127;
  strcpy(g_res->cls_name[g_res->ncls], n);
  return (uint16_t)g_res->ncls++;
}
static uint64_t name_hash(int cls) {
  uint64_t h = 1469598103934665603ull;
  for (const char *p = g_res->cls_name[cls]; *p; p++)
    h = (h ^ (unsigned char)*p) * 1099511628211ull;
  return h;
}

static bool inside(const char *path) {
  for (const char *p = path; *p; p++)
    if (p[0] == '.' && p[1] == '.' && (p == path || p[-1] == '/') &&
        (p[2] == '/' || p[2] == 0))
      return false;
  if (path[0] != '/')
    return true;
  return strncmp(path, g_scratch, g_scratch_len) == 0 &&
         (path[g_scratch_len] == '/' || path[g_scratch_len] == 0);
}
static bool refuse(const char *path) { // mutation outside the scratch dir
  if (inside(path))
    return false;
  if (strcmp(path, "/dev/null") == 0)
    return false;
  g_res->escaped++;
  errno = EACCES;
  return true;
}

struct Act {
  uint64_t idx;
  int op;
  int err;      // fail with this errno
  int torn;     // permille to write before dying, or -1
  int cut;      // short transfer: permille, or -1
  bool after;   // die after the operation
};

static void crash_at(Act *a) {
  g_res->crash_op = a->op + 1;
  char b[160];
  snprintf(b, sizeof b, "injected crash at io %llu (%s)",
           (unsigned long long)a->idx, io_names[a->op]);
  die_crash(b);
}

static void io_begin(Act *a, int op, int cls, uint32_t size) {
  sync_point(30 + op, (uintptr_t)(name_hash(cls) & 0xFFFFFF));
  a->idx = g_io_index++;
  a->op = op;
  a->err = 0;
  a->torn = a->cut = -1;
  a->after = false;
  g_res->io_ops++;
  g_res->io_count[op]++;
  mix(((uint64_t)op << 32) ^ size ^ (name_hash(cls) << 1));
  if (g_res->nio < MAX_IO) {
    IoRec *r = &g_res->io[g_res->nio++];
    r->op = (uint8_t)op;
    r->tid = (uint8_t)self();
    r->cls = (uint16_t)cls;
    r->size = size;
  }
  if (!g_faults_on)
    return;
  for (int i = 0; i < g_cfg.nfaults; i++) {
    const Fault *f = &g_cfg.faults[i];
    if (f->inc != g_cfg.inc || f->kind == F_ALLOC || (uint64_t)f->at != a->idx)
      continue;
    switch (f->kind) {
    case F_CRASH_BEFORE:
      g_res->fired[F_CRASH_BEFORE]++;
      crash_at(a);
      break;
    case F_CRASH_AFTER:
      a->after = true;
      break;
    case F_CRASH_TORN:
      if (op == IO_WRITE)
        a->torn = (int)f->arg;
      else
        a->after = true;
      break;
    case F_ERR: // what changes storage fails, or (from READ_ERROR) what reads
      if (f->arg < READ_ERROR && op != IO_READ && op != IO_OPEN_R &&
          op != IO_LIST && !(g_spare_removals && op == IO_REMOVE))
        a->err = (int)f->arg;
      else if (f->arg >= OWN_ERROR &&
               (op == IO_READ || op == IO_OPEN_R || op == IO_LIST)) {
        a->err = (int)f->arg - OWN_ERROR;
        g_own_error = true;
        if (g_reading_flag)
          *g_reading_flag = 1;
      } else if (f->arg >= READ_ERROR && f->arg < OWN_ERROR &&
                 (op == IO_READ || op == IO_OPEN_R))
        a->err = (int)f->arg - READ_ERROR;
      break;
    case F_DISKFULL:
      g_full_until = a->idx + (uint64_t)f->arg;
      break;
    case F_SHORT:
      if (op == IO_WRITE || op == IO_READ)
        a->cut = (int)f->arg;
      break;
    case F_EINTR:
      if (op == IO_WRITE || op == IO_READ)
        a->err = EINTR;
      break;
    }
  }
  if (a->idx < g_full_until && !a->err &&
      (op == IO_WRITE || op == IO_LINK || op == IO_MKDIR || op == IO_OPEN_W)) {
    a->err = ENOSPC;
    g_res->fired[F_DISKFULL]++;
    note_error();
    g_last_error_io = a->idx;
    g_res->error_reported = 1;
  } else if (a->err) {
    g_res->fired[a->err == EINTR ? F_EINTR : F_ERR]++;
    if (a->err != EINTR) {
      note_error();
      g_last_error_io = a->idx;
      g_res->error_reported = 1;
    }
  }
}
static void io_end(Act *a) {
  if (a->after) {
    g_res->fired[F_CRASH_AFTER]++;
    crash_at(a);
  }
}

static uint64_t write_all_raw(int fd, const char *p, size_t n) {
  size_t done = 0;
  while (done < n) {
    long r = sys6(SYS_write, fd, (long)(p + done), n - done);
    if (r <= 0)
      break;
    done += r;
  }
  return done;
}
static long do_write(int fd, const char *p, size_t n) {
  Fd *d = &g_fd[fd];
  Act a;
  io_begin(&a, IO_WRITE, d->cls, (uint32_t)n);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  if (a.torn >= 0) {
    write_all_raw(fd, p, n * (size_t)a.torn / 1000);
    g_res->fired[F_CRASH_TORN]++;
    crash_at(&a);
  }
  if (a.cut >= 0 && n > 1) {
    size_t m = n * (size_t)a.cut / 1000;
    if (m == 0)
      m = 1;
    g_res->fired[F_SHORT]++;
    n = m;
  }
  long r = (long)write_all_raw(fd, p, n);
  io_end(&a);
  return r;
}
static bool tracked(int fd) { return fd >= 0 && fd < 1024 && g_fd[fd].used; }
static void track(int fd, bool w, int cls) {
  if (fd < 0 || fd >= 1024)
    internal("file descriptor out of range");
  g_fd[fd].used = true;
  g_fd[fd].write = w;
  g_fd[fd].cls = (uint16_t)cls;
}

static uint64_t g_used[4096];
static bool g_using = false;
static uint64_t path_hash(const char *path) {
  const char *base = strrchr(path, '/');
  uint64_t h = 1469598103934665603ull;
  for (const char *p = base ? base + 1 : path; *p; p++)
    h = (h ^ (unsigned char)*p) * 1099511628211ull;
  return h | 1;
}
static uint64_t *use_slot(const char *path) {
  uint64_t h = path_hash(path);
  for (size_t i = h % 4096, n = 0; n < 4096; n++, i = (i + 1) % 4096)
    if (g_used[i] == h || g_used[i] == 0)
      return &g_used[i];
  return nullptr;
}
void watch_use(bool on) {
  if (on)
    memset(g_used, 0, sizeof g_used);
  g_using = on;
}
bool used(const char *path) {
  uint64_t *slot = use_slot(path);
  return slot == nullptr || *slot != 0;
}
static void note_use(const char *path) {
  uint64_t *slot = g_using ? use_slot(path) : nullptr;
  if (slot != nullptr)
    *slot = path_hash(path);
}
int left_open(const char **what) {
  int n = 0;
  for (int i = 0; i < 1024; i++)
    if (g_fd[i].used) {
      *what = g_res->cls_name[g_fd[i].cls];
      n++;
    }
  for (int i = 0; i < 64; i++)
    if (g_pipes[i] != nullptr) {
      *what = "a pipe";
      n++;
    }
  return n;
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  bool w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (w && dirfd != AT_FDCWD && path[0] != '/')
    internal("open for write relative to a directory");
  if (w && refuse(path))
    return -1;
  if (!inside(path) || (flags & O_DIRECTORY)) {
    long fd = sys6(SYS_openat, dirfd, (long)path, flags, mode);
    return (int)fd;
  }
  int cls = class_of(path);
  Act a;
  io_begin(&a, w ? IO_OPEN_W : IO_OPEN_R, cls, 0);
  if (a.err == ENOSPC && sys6(SYS_faccessat, AT_FDCWD, (long)path, F_OK) == 0)
    a.err = 0; // an existing file can be opened on a full disk
  if (a.err) {
    errno = a.err;
    return -1;
  }
  long fd = sys6(SYS_openat, dirfd, (long)path, flags, mode);
  if (fd >= 0) {
    track((int)fd, w, cls);
    note_use(path);
  }
  int e = errno;
  io_end(&a);
  errno = e;
  return (int)fd;
}

// returns 0 on success; op performed by callback-free inline code
#define PATHOP(OP, path, call)                                                 \
  do {                                                                         \
    if (refuse(path))                                                          \
      return -1;                                                               \
    Act a_;                                                                    \
    io_begin(&a_, OP, class_of(path), 0);                                      \
    if (a_.err) {                                                              \
      errno = a_.err;                                                          \
      return -1;                                                               \
    }                                                                          \
    long r_ = (call);                                                          \
    int e_ = errno;                                                            \
    io_end(&a_);                                                               \
    errno = e_;                                                                \
    return (int)r_;                                                            \
  } while (0)

static int do_unlink(const char *p) {
  PATHOP(IO_REMOVE, p, sys6(SYS_unlinkat, AT_FDCWD, (long)p, 0));
}
static int do_rename(const char *a, const char *b, unsigned flags) {
  if (refuse(b))
    return -1;
  PATHOP(IO_RENAME, a,
         sys6(SYS_renameat2, AT_FDCWD, (long)a, AT_FDCWD, (long)b, flags));
}
static int do_link(const char *a, const char *b) {
  if (refuse(b))
    return -1;
  PATHOP(IO_LINK, b, sys6(SYS_linkat, AT_FDCWD, (long)a, AT_FDCWD, (long)b, 0));
}
static int do_mkdir(const char *p, mode_t m) {
  PATHOP(IO_MKDIR, p, sys6(SYS_mkdirat, AT_FDCWD, (long)p, m));
}
static int do_chmod(const char *p, mode_t m) {
  PATHOP(IO_CHMOD, p, sys6(SYS_fchmodat, AT_FDCWD, (long)p, m));
}
static int do_truncate(const char *p, off_t n) {
  PATHOP(IO_TRUNC, p, sys6(SYS_truncate, (long)p, n));
}

// ------------------------------------------------------------- directories

struct Names {
  char (*v)[256];
  unsigned char *type;
  int n, cap;
};
static int name_cmp(const void *a, const void *b) {
  return strcmp((const char *)a, (const char *)b);
}
// sorted listing; hidden names included
static int list_dir(const char *path, Names *out) {
  out->n = 0;
  out->cap = 0;
  out->v = nullptr;
  out->type = nullptr;
  long fd = sys6(SYS_openat, AT_FDCWD, (long)path, O_RDONLY | O_DIRECTORY);
  if (fd < 0)
    return -1;
  char buf[16384];
  for (;;) {
    long n = sys6(SYS_getdents64, fd, (long)buf, sizeof buf);
    if (n <= 0)
      break;
    for (long o = 0; o < n;) {
      struct dirent64 *d = (struct dirent64 *)(buf + o);
      if (out->n == out->cap) {
        out->cap = out->cap ? out->cap * 2 : 64;
        out->v = (char(*)[256])realloc(out->v, (size_t)out->cap * 256);
      }
      memset(out->v[out->n], 0, 256);
      snprintf(out->v[out->n], 255, "%s", d->d_name);
      out->n++;
      o += d->d_reclen;
    }
  }
  sys6(SYS_close, fd);
  qsort(out->v, (size_t)out->n, 256, name_cmp);
  return 0;
}

// --------------------------------------------------------------- mini shell
//
// system() and popen() run real programs in production.  Their effects are
// emulated as individual file operations so that a crash can land between
// them and a fault inside them; whatever the emulation does not understand is
// given to the real shell as one operation.

static const int MAXARG = 64;
struct Cmd {
  char *arg[MAXARG];
  bool quoted[MAXARG];
  int n;
};

static bool simple_script(const char *s) {
  bool sq = false;
  for (; *s; s++) {
    if (sq) {
      if (*s == '\'')
        sq = false;
      continue;
    }
    if (*s == '\'')
      sq = true;
    else if (strchr("`$(){}|<", *s)) {
      if (s[0] == '|' && s[1] == '|') {
        s++;
        continue;
      }
      return false;
    } else if (*s == '&' && s[1] != '&' && !(s[1] == '1' || s[1] == '2'))
      return false;
    else if (*s == '&' && s[1] == '&')
      s++;
  }
  return !sq;
}

static int match(const char *pat, const char *s) {
  for (; *pat; pat++, s++) {
    if (*pat == '*') {
      for (;; s++) {
        if (match(pat + 1, s))
          return 1;
        if (!*s)
          return 0;
      }
    }
    if (*pat != '?' && *pat != *s)
      return 0;
    if (!*s)
      return 0;
  }
  return *s == 0;
}

static int shell(const char *text, int depth, FILE *out);
static int real_shell(const char *text) {
  Act a;
  io_begin(&a, IO_EXEC, class_of("sh"), 0);
  if (a.err) {
    errno = a.err;
    return 127;
  }
  typedef int (*fn)(const char *);
  static fn f;
  if (!f)
    f = (fn)real_sym("system");
  int me = t_self;
  t_self = -1; // libc internals must not re-enter the scheduler
  bool was = g_active;
  g_active = false;
  int r = f(text);
  g_active = was;
  t_self = me;
  io_end(&a);
  return WIFEXITED(r) ? WEXITSTATUS(r) : 1;
}

static bool exists(const char *p) {
  return sys6(SYS_faccessat, AT_FDCWD, (long)p, F_OK) == 0;
}
static int mode_of(const char *p) {
  struct stat st;
  if (sys6(SYS_newfstatat, AT_FDCWD, (long)p, (long)&st, 0) != 0)
    return 0;
  return (int)st.st_mode;
}

// -1: not understood
static int run_cmd(Cmd *c, int depth, FILE *out) {
  if (c->n == 0)
    return 0;
  const char *p = c->arg[0];
  const char *b = strrchr(p, '/');
  b = b ? b + 1 : p;
  bool std_path = b == p || strncmp(p, "/bin/", 5) == 0 ||
                  strncmp(p, "/usr/bin/", 9) == 0;
  if (!strchr(p, '/') || std_path) {
    if (!strcmp(b, "true") || !strcmp(b, ":"))
      return 0;
    if (!strcmp(b, "false"))
      return 1;
    if (!strcmp(b, "set") || !strcmp(b, "sync"))
      return c->n == 1 ? 0 : -1;
    if (!strcmp(b, "mkdir")) {
      int i = 1, rc = 0;
      bool parents = false;
      for (; i < c->n && c->arg[i][0] == '-' && c->arg[i][1]; i++) {
        if (!strcmp(c->arg[i], "-p"))
          parents = true;
        else if (strcmp(c->arg[i], "--"))
          return -1;
      }
      for (; i < c->n; i++) {
        if (parents) {
          char q[4096];
          snprintf(q, sizeof q, "%s", c->arg[i]);
          for (char *s = q + 1;; s++)
            if (*s == '/' || *s == 0) {
              char k = *s;
              *s = 0;
              if (!exists(q) && do_mkdir(q, 0777) != 0 && errno != EEXIST)
                rc = 1;
              *s = k;
              if (!k)
                break;
            }
        } else if (do_mkdir(c->arg[i], 0777) != 0)
          rc = 1;
      }
      return rc;
    }
    if (!strcmp(b, "rm")) {
      int i = 1, rc = 0;
      bool force = false;
      for (; i < c->n && c->arg[i][0] == '-' && c->arg[i][1]; i++) {
        if (!strcmp(c->arg[i], "-f"))
          force = true;
        else if (strcmp(c->arg[i], "--"))
          return -1;
      }
      for (; i < c->n; i++) {
        if (force && !exists(c->arg[i]))
          continue;
        if (do_unlink(c->arg[i]) != 0)
          rc = 1;
      }
      return rc;
    }
    if (!strcmp(b, "mv") || !strcmp(b, "ln") || !strcmp(b, "cp")) {
      bool noclobber = false, force = false, sym = false;
      int i = 1;
      for (; i < c->n && c->arg[i][0] == '-' && c->arg[i][1]; i++) {
        if (!strcmp(c->arg[i], "-n"))
          noclobber = true;
        else if (!strcmp(c->arg[i], "-f"))
          force = true;
        else if (!strcmp(c->arg[i], "-T"))
          ;
        else if (strcmp(c->arg[i], "--"))
          return -1;
      }
      (void)sym;
      if (c->n - i != 2 || (mode_of(c->arg[i + 1]) & S_IFMT) == S_IFDIR ||
          b[0] == 'c')
        return -1;
      const char *from = c->arg[i], *to = c->arg[i + 1];
      if (b[0] == 'm')
        return do_rename(from, to, noclobber ? RENAME_NOREPLACE : 0) == 0 ? 0
                                                                          : 1;
      if (force && exists(to))
        do_unlink(to);
      return do_link(from, to) == 0 ? 0 : 1;
    }
    if (!strcmp(b, "test") || !strcmp(b, "[")) {
      int n = c->n;
      if (b[0] == '[') {
        if (strcmp(c->arg[n - 1], "]"))
          return -1;
        n--;
      }
      int i = 1;
      bool neg = false;
      while (i < n && !strcmp(c->arg[i], "!"))
        neg = !neg, i++;
      if (n - i == 2 && c->arg[i][0] == '-') {
        int m = mode_of(c->arg[i + 1]);
        bool v;
        switch (c->arg[i][1]) {
        case 'e':
          v = m != 0;
          break;
        case 'f':
          v = (m & S_IFMT) == S_IFREG;
          break;
        case 'd':
          v = (m & S_IFMT) == S_IFDIR;
          break;
        default:
          return -1;
        }
        return v != neg ? 0 : 1;
      }
      return -1;
    }
    if (!strcmp(b, "ls")) {
      int i = 1;
      for (; i < c->n && c->arg[i][0] == '-' && c->arg[i][1]; i++)
        if (strcmp(c->arg[i], "-1") && strcmp(c->arg[i], "--"))
          return -1;
      if (c->n - i > 1)
        return -1;
      const char *d = i < c->n ? c->arg[i] : ".";
      Act a;
      io_begin(&a, IO_LIST, class_of(d), 0);
      if (a.err)
        return 2;
      Names l;
      if (list_dir(d, &l) != 0)
        return 2;
      for (int k = 0; k < l.n; k++)
        if (l.v[k][0] != '.' && out)
          fprintf(out, "%s\n", l.v[k]);
      free(l.v);
      io_end(&a);
      return 0;
    }
    if (!strcmp(b, "sh") && c->n == 2) {
      p = c->arg[1];
      c->arg[0] = c->arg[1];
      c->n = 1;
    } else if (std_path) {
      return -1;
    }
  }
  // a script of ours
  if (c->n != 1 || depth > 4)
    return -1;
  if (!(mode_of(p) & 0100))
    return exists(p) ? 126 : 127;
  long fd = sys6(SYS_openat, AT_FDCWD, (long)p, O_RDONLY);
  if (fd < 0)
    return 127;
  struct stat st;
  sys6(SYS_fstat, fd, (long)&st);
  char *text = (char *)malloc((size_t)st.st_size + 1);
  long n = sys6(SYS_read, fd, (long)text, st.st_size);
  sys6(SYS_close, fd);
  text[n > 0 ? n : 0] = 0;
  Act a;
  io_begin(&a, IO_EXEC, class_of(p), (uint32_t)st.st_size);
  int rc = a.err ? 126 : shell(text, depth + 1, out);
  io_end(&a);
  free(text);
  return rc;
}

static void add_arg(Cmd *c, const char *s, bool glob) {
  if (glob && (strchr(s, '*') || strchr(s, '?'))) {
    char dir[4096];
    const char *b = strrchr(s, '/');
    if (b) {
      snprintf(dir, sizeof dir, "%.*s", (int)(b - s), s);
      b++;
    } else {
      strcpy(dir, ".");
      b = s;
    }
    Names l;
    int hits = 0;
    if (list_dir(dir, &l) == 0) {
      for (int i = 0; i < l.n && c->n < MAXARG - 1; i++)
        if (l.v[i][0] != '.' && match(b, l.v[i])) {
          char *q = (char *)malloc(4400);
          if (b == s)
            snprintf(q, 4400, "%s", l.v[i]);
          else
            snprintf(q, 4400, "%s/%s", dir, l.v[i]);
          c->quoted[c->n] = false;
          c->arg[c->n++] = q;
          hits++;
        }
      free(l.v);
    }
    if (hits)
      return;
  }
  if (c->n >= MAXARG - 1)
    internal("too many shell arguments");
  size_t n = strlen(s);
  char *q = (char *)malloc(n + 1);
  memcpy(q, s, n + 1);
  c->quoted[c->n] = !glob;
  c->arg[c->n++] = q;
}

static int shell(const char *text, int depth, FILE *out) {
  if (!simple_script(text))
    return real_shell(text);
  int status = 0;
  const char *s = text;
  char conn = ';'; // what joins the previous command to this one: ; & |
  while (*s) {
    Cmd c;
    c.n = 0;
    char end = 0;
    const char *begin = s;
    while (*s && !end) {
      if (*s == ' ' || *s == '\t' || (*s == '\\' && s[1] == '\n')) {
        s += *s == '\\' ? 2 : 1;
      } else if (*s == '#') {
        while (*s && *s != '\n')
          s++;
      } else if (*s == '\n' || *s == ';') {
        end = ';';
        s++;
      } else if (*s == '&') {
        end = '&';
        s += 2;
      } else if (*s == '|') {
        end = '|';
        s += 2;
      } else {
        char w[4096];
        size_t k = 0;
        bool quoted = false;
        while (*s && !strchr(" \t\n;&|", *s) && k < sizeof w - 2) {
          if (*s == '\'') {
            quoted = true;
            for (s++; *s && *s != '\'' && k < sizeof w - 2; s++)
              w[k++] = *s;
            if (*s)
              s++;
          } else if (*s == '"') {
            quoted = true;
            for (s++; *s && *s != '"' && k < sizeof w - 2; s++) {
              if (*s == '\\' && s[1])
                s++;
              w[k++] = *s;
            }
            if (*s)
              s++;
          } else if (*s == '\\' && s[1]) {
            s++;
            w[k++] = *s++;
          } else if (*s == '>') {
            // redirection of an output nobody reads
            const char *t = s + 1;
            while (*t == '>' || *t == ' ')
              t++;
            if (k == 1 && isdigit((unsigned char)w[0]))
              k = 0;
            if (k == 0 && *t == '&') {
              t++;
              while (isdigit((unsigned char)*t))
                t++;
            } else {
              if (strncmp(t, "/dev/null", 9) != 0)
                return real_shell(text);
              t += 9;
            }
            s = t;
            break;
          } else {
            w[k++] = *s++;
          }
        }
        w[k] = 0;
        if (k || quoted)
          add_arg(&c, w, !quoted);
      }
    }
    bool run = conn == ';' || (conn == '&' && status == 0) ||
               (conn == '|' && status != 0);
    if (c.n > 0 && run) {
      if (!strcmp(c.arg[0], "exit")) {
        int rc = c.n > 1 ? atoi(c.arg[1]) : status;
        return rc;
      }
      static const char *kw[] = {"if",   "then", "else", "fi", "while", "for",
                                 "do",   "done", "case", "esac", nullptr};
      bool control = false;
      for (int i = 0; kw[i]; i++)
        if (!strcmp(kw[i], c.arg[0]))
          control = true;
      int rc = control ? -1 : run_cmd(&c, depth, out);
      if (rc < 0) {
        for (int i = 0; i < c.n; i++)
          free(c.arg[i]);
        if (control)
          return real_shell(begin);
        char *one = (char *)malloc((size_t)(s - begin) + 1);
        size_t m = (size_t)(s - begin);
        memcpy(one, begin, m);
        while (m && strchr("&|;\n ", one[m - 1]))
          m--;
        one[m] = 0;
        status = real_shell(one);
        free(one);
        conn = end ? end : ';';
        continue;
      }
      status = rc;
    }
    for (int i = 0; i < c.n; i++)
      free(c.arg[i]);
    if (c.n > 0 || end == '&' || end == '|')
      conn = end ? end : ';';
    else if (end)
      conn = conn == ';' ? ';' : conn;
  }
  return status;
}

} // namespace sim

using namespace sim;

// ------------------------------------------------------------ interposition

extern "C" {

int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  if (!active())
    return (int)sys6(SYS_openat, AT_FDCWD, (long)path, flags, m);
  return do_open(AT_FDCWD, path, flags, m);
}
int open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  return open(path, flags, m);
}
int openat(int d, const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  if (!active())
    return (int)sys6(SYS_openat, d, (long)path, flags, m);
  return do_open(d, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = va_arg(ap, mode_t);
  va_end(ap);
  return openat(d, path, flags, m);
}
int creat(const char *path, mode_t m) {
  return open(path, O_CREAT | O_WRONLY | O_TRUNC, m);
}

static FILE *real_fdopen(int fd, const char *mode) {
  typedef FILE *(*fn)(int, const char *);
  static fn f;
  if (!f)
    f = (fn)real_sym("fdopen");
  return f(fd, mode);
}
static bool from_libstdcxx(void *caller) {
  static void *base = nullptr;
  Dl_info info;
  if (base == nullptr) {
    void *here = dlsym(RTLD_DEFAULT, "_ZSt9terminatev");
    if (here == nullptr || dladdr(here, &info) == 0)
      internal("can't find libstdc++");
    base = info.dli_fbase;
  }
  return dladdr(caller, &info) != 0 && info.dli_fbase == base;
}
static ssize_t cookie_read(void *cookie, char *buf, size_t n) {
  return read((int)(long)cookie, buf, n);
}
static int cookie_seek(void *cookie, off64_t *where, int whence) {
  long at = sys6(SYS_lseek, (long)cookie, *where, whence);
  if (at < 0)
    return -1;
  *where = at;
  return 0;
}
static int cookie_close(void *cookie) {
  int fd = (int)(long)cookie;
  if (tracked(fd))
    g_fd[fd].used = false;
  return sys6(SYS_close, fd) < 0 ? -1 : 0;
}
FILE *fopen(const char *path, const char *mode) {
  typedef FILE *(*fn)(const char *, const char *);
  static fn f;
  if (!f)
    f = (fn)real_sym("fopen");
  if (!active() || (!inside(path) && mode[0] == 'r' && !strchr(mode, '+')))
    return f(path, mode);
  int flags;
  switch (mode[0]) {
  case 'r':
    flags = O_RDONLY;
    break;
  case 'w':
    flags = O_WRONLY | O_CREAT | O_TRUNC;
    break;
  case 'a':
    flags = O_WRONLY | O_CREAT | O_APPEND;
    break;
  default:
    errno = EINVAL;
    return nullptr;
  }
  if (strchr(mode, '+'))
    flags = (flags & ~O_ACCMODE) | O_RDWR;
  int fd = do_open(AT_FDCWD, path, flags, 0666);
  if (fd < 0)
    return nullptr;
  // libc reads a FILE of its own past the interposed read(), so a file that is
  // only read goes through a cookie; libstdc++ just takes the descriptor out
  // of it and calls read() itself.
  FILE *fp;
  if ((flags & O_ACCMODE) == O_RDONLY &&
      !from_libstdcxx(__builtin_return_address(0))) {
    cookie_io_functions_t io = {cookie_read, nullptr, cookie_seek,
                                cookie_close};
    fp = fopencookie((void *)(long)fd, "r", io);
  } else {
    fp = real_fdopen(fd, mode);
  }
  if (!fp) {
    if (tracked(fd))
      g_fd[fd].used = false;
    sys6(SYS_close, fd);
  }
  return fp;
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
int fclose(FILE *fp) {
  typedef int (*fn)(FILE *);
  static fn f;
  if (!f)
    f = (fn)real_sym("fclose");
  if (!active())
    return f(fp);
  int fd = fileno(fp);
  if (!tracked(fd))
    return f(fp);
  Fd d = g_fd[fd];
  if (!d.write) {
    g_fd[fd].used = false;
    return f(fp);
  }
  Act a;
  io_begin(&a, IO_CLOSE_W, d.cls, 0);
  g_fd[fd].used = false;
  int r = f(fp);
  if (a.err) {
    errno = a.err;
    return EOF;
  }
  io_end(&a);
  return r;
}
int close(int fd) {
  if (active() && net_owns(fd))
    return net_close_fd(fd);
  if (!active() || !tracked(fd))
    return (int)sys6(SYS_close, fd);
  Fd d = g_fd[fd];
  if (!d.write) {
    g_fd[fd].used = false;
    return (int)sys6(SYS_close, fd);
  }
  Act a;
  io_begin(&a, IO_CLOSE_W, d.cls, 0);
  g_fd[fd].used = false;
  int r = (int)sys6(SYS_close, fd);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  io_end(&a);
  return r;
}
ssize_t write(int fd, const void *p, size_t n) {
  if (active()) {
    if (net_owns(fd))
      return net_write(fd, p, n, 0);
    if (tracked(fd))
      return do_write(fd, (const char *)p, n);
    if (fd == 1 || fd == 2)
      return (ssize_t)n; // chatter of the code under test
  }
  return sys6(SYS_write, fd, (long)p, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!active() || (!tracked(fd) && fd != 1 && fd != 2))
    return sys6(SYS_writev, fd, (long)v, n);
  size_t total = 0;
  for (int i = 0; i < n; i++)
    total += v[i].iov_len;
  if (!tracked(fd))
    return (ssize_t)total;
  char *b = (char *)malloc(total ? total : 1);
  size_t k = 0;
  for (int i = 0; i < n; i++) {
    memcpy(b + k, v[i].iov_base, v[i].iov_len);
    k += v[i].iov_len;
  }
  long r = do_write(fd, b, total);
  int e = errno;
  free(b);
  errno = e;
  return r;
}
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) {
  if (!active() || !tracked(fd))
    return sys6(SYS_pwrite64, fd, (long)p, n, o);
  Act a;
  io_begin(&a, IO_WRITE, g_fd[fd].cls, (uint32_t)n);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  if (a.torn >= 0) {
    (void)sys6(SYS_pwrite64, fd, (long)p, n * (size_t)a.torn / 1000, o);
    g_res->fired[F_CRASH_TORN]++;
    crash_at(&a);
  }
  if (a.cut >= 0 && n > 1) {
    n = n * (size_t)a.cut / 1000;
    if (n == 0)
      n = 1;
    g_res->fired[F_SHORT]++;
  }
  long r = sys6(SYS_pwrite64, fd, (long)p, n, o);
  io_end(&a);
  return r;
}
ssize_t pwrite64(int fd, const void *p, size_t n, off_t o) {
  return pwrite(fd, p, n, o);
}
static ssize_t sim_read(int fd, void *p, size_t n, bool at, off_t o) {
  Act a;
  io_begin(&a, IO_READ, g_fd[fd].cls, (uint32_t)n);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  if (a.cut >= 0 && n > 1) {
    n = n * (size_t)a.cut / 1000;
    if (n == 0)
      n = 1;
    g_res->fired[F_SHORT]++;
  }
  long r = at ? sys6(SYS_pread64, fd, (long)p, n, o)
              : sys6(SYS_read, fd, (long)p, n);
  int e = errno;
  io_end(&a);
  errno = e;
  return r;
}
ssize_t read(int fd, void *p, size_t n) {
  if (active() && net_owns(fd))
    return net_read(fd, p, n);
  if (!active() || !tracked(fd))
    return sys6(SYS_read, fd, (long)p, n);
  return sim_read(fd, p, n, false, 0);
}
ssize_t pread(int fd, void *p, size_t n, off_t o) {
  if (!active() || !tracked(fd))
    return sys6(SYS_pread64, fd, (long)p, n, o);
  return sim_read(fd, p, n, true, o);
}
ssize_t pread64(int fd, void *p, size_t n, off_t o) { return pread(fd, p, n, o); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (!active() || !tracked(fd))
    return sys6(SYS_readv, fd, (long)v, n);
  for (int i = 0; i < n; i++)
    if (v[i].iov_len)
      return sim_read(fd, v[i].iov_base, v[i].iov_len, false, 0);
  return 0;
}
// copies inside the kernel would escape the fault model: make callers fall
// back to read and write
ssize_t sendfile(int o, int i, off_t *p, size_t n) {
  if (active()) {
    errno = ENOSYS;
    return -1;
  }
  return sys6(SYS_sendfile, o, i, (long)p, n);
}
ssize_t sendfile64(int o, int i, off_t *p, size_t n) {
  return sendfile(o, i, p, n);
}
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n,
                        unsigned f) {
  if (active()) {
    errno = ENOSYS;
    return -1;
  }
  return sys6(SYS_copy_file_range, a, (long)b, c, (long)d, n, f);
}
int fsync(int fd) {
  if (!active() || !tracked(fd))
    return (int)sys6(SYS_fsync, fd);
  Act a;
  io_begin(&a, IO_SYNC, g_fd[fd].cls, 0);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  io_end(&a);
  return 0;
}
int fdatasync(int fd) { return fsync(fd); }

int unlink(const char *p) {
  if (!active())
    return (int)sys6(SYS_unlinkat, AT_FDCWD, (long)p, 0);
  return do_unlink(p);
}
int rmdir(const char *p) {
  if (!active())
    return (int)sys6(SYS_unlinkat, AT_FDCWD, (long)p, AT_REMOVEDIR);
  PATHOP(IO_REMOVE, p, sys6(SYS_unlinkat, AT_FDCWD, (long)p, AT_REMOVEDIR));
}
int unlinkat(int d, const char *p, int flags) {
  if (!active())
    return (int)sys6(SYS_unlinkat, d, (long)p, flags);
  if (d != AT_FDCWD && p[0] != '/') {
    // relative to an open directory: work out where that is
    char l[64], q[4096 + 300];
    snprintf(l, sizeof l, "/proc/self/fd/%d", d);
    long n = sys6(SYS_readlinkat, AT_FDCWD, (long)l, (long)q, 4096);
    if (n < 0)
      return -1;
    snprintf(q + n, sizeof q - n, "/%s", p);
    PATHOP(IO_REMOVE, q, sys6(SYS_unlinkat, d, (long)p, flags));
  }
  PATHOP(IO_REMOVE, p, sys6(SYS_unlinkat, d, (long)p, flags));
}
int remove(const char *p) {
  if (!active()) {
    if (sys6(SYS_unlinkat, AT_FDCWD, (long)p, 0) == 0)
      return 0;
    if (errno == EISDIR)
      return (int)sys6(SYS_unlinkat, AT_FDCWD, (long)p, AT_REMOVEDIR);
    return -1;
  }
  if ((mode_of(p) & S_IFMT) == S_IFDIR)
    return rmdir(p);
  return do_unlink(p);
}
int rename(const char *a, const char *b) {
  if (!active())
    return (int)sys6(SYS_renameat2, AT_FDCWD, (long)a, AT_FDCWD, (long)b, 0);
  return do_rename(a, b, 0);
}
int renameat(int d, const char *a, int e, const char *b) {
  if (active() && (d != AT_FDCWD || e != AT_FDCWD))
    internal("renameat relative to a directory");
  return rename(a, b);
}
int link(const char *a, const char *b) {
  if (!active())
    return (int)sys6(SYS_linkat, AT_FDCWD, (long)a, AT_FDCWD, (long)b, 0);
  return do_link(a, b);
}
int linkat(int d, const char *a, int e, const char *b, int flags) {
  if (active() && (d != AT_FDCWD || e != AT_FDCWD))
    internal("linkat relative to a directory");
  (void)flags;
  return link(a, b);
}
int symlink(const char *a, const char *b) {
  if (!active())
    return (int)sys6(SYS_symlinkat, (long)a, AT_FDCWD, (long)b);
  PATHOP(IO_LINK, b, sys6(SYS_symlinkat, (long)a, AT_FDCWD, (long)b));
}
int truncate(const char *p, off_t n) {
  if (!active())
    return (int)sys6(SYS_truncate, (long)p, n);
  return do_truncate(p, n);
}
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int ftruncate(int fd, off_t n) {
  if (!active() || !tracked(fd))
    return (int)sys6(SYS_ftruncate, fd, n);
  Act a;
  io_begin(&a, IO_TRUNC, g_fd[fd].cls, 0);
  if (a.err) {
    errno = a.err;
    return -1;
  }
  int r = (int)sys6(SYS_ftruncate, fd, n);
  io_end(&a);
  return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int mkdir(const char *p, mode_t m) {
  if (!active())
    return (int)sys6(SYS_mkdirat, AT_FDCWD, (long)p, m);
  return do_mkdir(p, m);
}
int chmod(const char *p, mode_t m) {
  if (!active())
    return (int)sys6(SYS_fchmodat, AT_FDCWD, (long)p, m);
  return do_chmod(p, m);
}
int fchmodat(int d, const char *p, mode_t m, int flags) {
  if (!active() || d != AT_FDCWD)
    return (int)sys6(SYS_fchmodat, d, (long)p, m, flags);
  return do_chmod(p, m);
}
int access(const char *p, int mode) {
  if (active())
    sync_point(60, 0);
  return (int)sys6(SYS_faccessat, AT_FDCWD, (long)p, mode);
}
int stat(const char *p, struct stat *st) {
  if (active())
    sync_point(61, 0);
  return (int)sys6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0);
}
int stat64(const char *p, struct stat64 *st) {
  if (active())
    sync_point(61, 0);
  return (int)sys6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0);
}

// sorted directory iteration
struct SortedDir {
  DIR *dir;
  Names l;
  int at;
  bool used;
  struct dirent ent;
};
static SortedDir g_dirs[64];
static void sort_dir(DIR *d, const char *path) {
  for (int i = 0; i < 64; i++)
    if (!g_dirs[i].used) {
      g_dirs[i].used = true;
      g_dirs[i].dir = d;
      g_dirs[i].at = 0;
      if (list_dir(path, &g_dirs[i].l) != 0)
        g_dirs[i].l.n = 0;
      return;
    }
  internal("too many open directories");
}
DIR *opendir(const char *p) {
  typedef DIR *(*fn)(const char *);
  static fn f;
  if (!f)
    f = (fn)real_sym("opendir");
  if (!active())
    return f(p);
  Act a;
  io_begin(&a, IO_LIST, class_of(p), 0);
  if (a.err) {
    errno = a.err;
    return nullptr;
  }
  DIR *d = f(p);
  if (d)
    sort_dir(d, p);
  return d;
}
DIR *fdopendir(int fd) {
  typedef DIR *(*fn)(int);
  static fn f;
  if (!f)
    f = (fn)real_sym("fdopendir");
  if (!active())
    return f(fd);
  char l[64], q[4096];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  long n = sys6(SYS_readlinkat, AT_FDCWD, (long)l, (long)q, sizeof q - 1);
  if (n < 0)
    return nullptr;
  q[n] = 0;
  Act a;
  io_begin(&a, IO_LIST, class_of(q), 0);
  if (a.err) {
    errno = a.err;
    return nullptr;
  }
  DIR *d = f(fd);
  if (d)
    sort_dir(d, q);
  return d;
}
struct dirent *readdir(DIR *d) {
  for (int i = 0; i < 64; i++)
    if (g_dirs[i].used && g_dirs[i].dir == d) {
      SortedDir *s = &g_dirs[i];
      if (s->at >= s->l.n)
        return nullptr;
      memset(&s->ent, 0, sizeof s->ent);
      snprintf(s->ent.d_name, sizeof s->ent.d_name, "%s", s->l.v[s->at]);
      s->ent.d_type = DT_UNKNOWN;
      s->ent.d_ino = 1;
      s->at++;
      return &s->ent;
    }
  typedef struct dirent *(*fn)(DIR *);
  static fn f;
  if (!f)
    f = (fn)real_sym("readdir");
  return f(d);
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
int closedir(DIR *d) {
  typedef int (*fn)(DIR *);
  static fn f;
  if (!f)
    f = (fn)real_sym("closedir");
  for (int i = 0; i < 64; i++)
    if (g_dirs[i].used && g_dirs[i].dir == d) {
      free(g_dirs[i].l.v);
      g_dirs[i].used = false;
    }
  return f(d);
}

int system(const char *cmd) {
  if (!active()) {
    typedef int (*fn)(const char *);
    return ((fn)real_sym("system"))(cmd);
  }
  return shell(cmd, 0, nullptr) << 8;
}
FILE *popen(const char *cmd, const char *type) {
  typedef FILE *(*fn)(const char *, const char *);
  static fn f;
  if (!f)
    f = (fn)real_sym("popen");
  if (!active())
    return f(cmd, type);
  if (type[0] != 'r')
    internal("popen for writing");
  int slot = 0;
  while (slot < 64 && g_pipes[slot])
    slot++;
  if (slot == 64)
    internal("too many pipes");
  g_pipes[slot] = stderr; // reserve
  int fd = (int)sys6(SYS_memfd_create, (long)"pipe", 0);
  FILE *out = real_fdopen(fd, "w+");
  int rc;
  if (strstr(cmd, "/ls ") || strncmp(cmd, "ls", 2) == 0) {
    rc = shell(cmd, 0, out);
  } else {
    char *q = (char *)malloc(strlen(cmd) + 64);
    sprintf(q, "{ %s ; } > /proc/%d/fd/%d", cmd, (int)sys6(SYS_getpid), fd);
    rc = real_shell(q);
    free(q);
  }
  bool was = g_active;
  g_active = false; // libc flushes through its own write path
  fflush(out);
  fseek(out, 0, SEEK_SET);
  g_active = was;
  g_pipes[slot] = out;
  g_pipe_rc[slot] = rc;
  return out;
}
int pclose(FILE *fp) {
  for (int i = 0; i < 64; i++)
    if (g_pipes[i] == fp && active()) {
      g_pipes[i] = nullptr;
      fclose(fp);
      return g_pipe_rc[i] << 8;
    }
  typedef int (*fn)(FILE *);
  return ((fn)real_sym("pclose"))(fp);
}
}
