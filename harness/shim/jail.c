// Preloaded into the programs of C21: whatever they are told to change outside the directory VH_JAIL is not changed,
// and ends them with status 97.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static int inside(const char *real) {
  const char *jail = getenv("VH_JAIL");
  size_t n = jail ? strlen(jail) : 0;
  return n > 1 && strncmp(real, jail, n) == 0 && (real[n] == '/' || real[n] == 0);
}

static void escape(const char *what, const char *path) {
  dprintf(2, "ESCAPE: %s %s\n", what, path);
  _exit(97);
}

// The directory that holds the last component is inside; `follow`: so is what it is, if it is a symbolic link.
static void guard(const char *what, const char *path, int follow) {
  char buf[PATH_MAX], real[PATH_MAX];
  if (!path || strlen(path) + 4 > sizeof buf) return; // the call fails by itself
  strcpy(buf, path);
  size_t n = strlen(buf);
  if (n == 0) return;
  while (n > 1 && buf[n - 1] == '/') buf[--n] = 0;
  char *slash = strrchr(buf, '/');
  const char *last = slash ? slash + 1 : buf;
  if (follow || !strcmp(last, ".") || !strcmp(last, "..") || !strcmp(buf, "/")) {
    if (realpath(path, real)) {
      if (!inside(real) && strcmp(real, "/dev/full")) escape(what, path);
      return;
    }
  }
  if (!slash) strcpy(buf, ".");
  else if (slash == buf) buf[1] = 0;
  else *slash = 0;
  if (realpath(buf, real) && !inside(real)) escape(what, path);
}

#define NEXT(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

int remove(const char *p) { guard("remove", p, 0); return NEXT(remove)(p); }
int unlink(const char *p) { guard("unlink", p, 0); return NEXT(unlink)(p); }
int rmdir(const char *p) { guard("rmdir", p, 0); return NEXT(rmdir)(p); }
int mkdir(const char *p, mode_t m) { guard("mkdir", p, 0); return NEXT(mkdir)(p, m); }
int rename(const char *p, const char *q) { guard("rename", p, 0); guard("rename", q, 0); return NEXT(rename)(p, q); }
int truncate(const char *p, off_t n) { guard("truncate", p, 1); return NEXT(truncate)(p, n); }
int chmod(const char *p, mode_t m) { guard("chmod", p, 1); return NEXT(chmod)(p, m); }
int link(const char *p, const char *q) { guard("link", q, 0); return NEXT(link)(p, q); }
int symlink(const char *p, const char *q) { guard("symlink", q, 0); return NEXT(symlink)(p, q); }
int creat(const char *p, mode_t m) { guard("creat", p, 1); return NEXT(creat)(p, m); }
FILE *fopen(const char *p, const char *m) {
  if (m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'))) guard("fopen", p, 1);
  return NEXT(fopen)(p, m);
}
int open(const char *p, int f, ...) {
  va_list a;
  va_start(a, f);
  mode_t m = va_arg(a, mode_t);
  va_end(a);
  if (f & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) guard("open", p, 1);
  return NEXT(open)(p, f, m);
}
DIR *opendir(const char *p) { guard("opendir", p, 1); return NEXT(opendir)(p); }
