// A fake /sys: every path below /sys that the code under test opens, lists or inspects is redirected into a scratch
// directory (MC_SCRATCH/<pid>/sys), whose content the harness rewrites for every execution.
#ifndef H_FAKEFS_H
#define H_FAKEFS_H
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace fakefs {
#define NOINSTR __attribute__((no_sanitize("thread")))
inline NOINSTR char const* root() {   // per worker process
    static thread_local char b[256]; char const* s = getenv("MC_SCRATCH"); snprintf(b, sizeof b, "%s/%ld", s ? s : "/tmp/mc-scratch", (long)::syscall(SYS_getpid)); return b;
}
}
extern "C" {
NOINSTR char const* mc_rewrite_path(char const* p, char* buf) {
    if (!p || strncmp(p, "/sys", 4) || (p[4] && p[4] != '/')) return p;
    snprintf(buf, 4096, "%s%s", fakefs::root(), p); return buf;
}
// the entry points of the C library; syscall() itself redirects
NOINSTR int open(char const* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, AT_FDCWD, p, f, m); }
NOINSTR int open64(char const* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, AT_FDCWD, p, f, m); }
NOINSTR int openat(int d, char const* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, d, p, f, m); }
NOINSTR int openat64(int d, char const* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, d, p, f, m); }
NOINSTR int __open64_2(char const* p, int f) { return (int)syscall(SYS_openat, AT_FDCWD, p, f, 0); }
NOINSTR int __openat64_2(int d, char const* p, int f) { return (int)syscall(SYS_openat, d, p, f, 0); }
NOINSTR FILE* fopen(char const* p, char const* m) {
    int f = strchr(m, '+') ? O_RDWR : *m == 'r' ? O_RDONLY : O_WRONLY; if (*m == 'w') f |= O_CREAT | O_TRUNC; if (*m == 'a') f |= O_CREAT | O_APPEND;
    int d = (int)syscall(SYS_openat, AT_FDCWD, p, f, 0666); if (d < 0) return nullptr; FILE* r = fdopen(d, m); if (!r) ::close(d); return r; }
NOINSTR FILE* fopen64(char const* p, char const* m) { return fopen(p, m); }
NOINSTR DIR* opendir(char const* p) { int d = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0); if (d < 0) return nullptr; DIR* r = fdopendir(d); if (!r) ::close(d); return r; }
NOINSTR int stat(char const* p, struct stat* s) { return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
NOINSTR int lstat(char const* p, struct stat* s) { return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
NOINSTR int fstatat(int d, char const* p, struct stat* s, int f) { return (int)syscall(SYS_newfstatat, d, p, s, f); }
NOINSTR int statx(int d, char const* p, int f, unsigned m, struct statx* s) { return (int)syscall(SYS_statx, d, p, f, m, s); }
NOINSTR int access(char const* p, int m) { return (int)syscall(SYS_faccessat, AT_FDCWD, p, m); }
NOINSTR ssize_t readlink(char const* p, char* b, size_t n) { return syscall(SYS_readlinkat, AT_FDCWD, p, b, n); }
}
namespace fakefs {
inline void die(char const* what, std::string const& p) { fprintf(stderr, "fake file system: %s %s: %s\n", what, p.c_str(), strerror(errno)); _exit(3); }
inline std::string sys(std::string const& p) { return std::string(root()) + "/sys/devices/system/" + p; }
inline void mkdirs(std::string const& p) { for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') if (::mkdir(p.substr(0, i).c_str(), 0755) && errno != EEXIST) die("mkdir", p); }
inline void write(std::string const& p, std::string const& c) { int f = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (f < 0 || ::write(f, c.data(), c.size()) != (ssize_t)c.size()) die("write", p); ::close(f); }
inline void remove_(char const* p) {   // allocates nothing in the model's heap: what it does depends on the previous execution
    struct stat s; if (lstat(p, &s)) return;
    if (!S_ISDIR(s.st_mode)) { ::unlink(p); return; }
    if (DIR* d = opendir(p)) { char b[1024]; while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { snprintf(b, sizeof b, "%s/%s", p, e->d_name); remove_(b); } closedir(d); }
    ::rmdir(p);
}
inline void remove() { char b[512]; snprintf(b, sizeof b, "%s/sys", root()); remove_(b); }
inline void link(std::string const& target, std::string const& p) { if (::symlink(target.c_str(), p.c_str())) die("symlink", p); }
}
#endif
