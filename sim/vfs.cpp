#include "vfs.hpp"
#include <cerrno>
#include <cstdlib>
#include <unistd.h>
#include <sys/stat.h>
Vfs vfs;
struct H { VFileP f; int64_t pos; bool rd, wr, app; std::string name; };

// one step of the disk: counts, may crash
static void step(const char *what, const std::string &n, int64_t k) {
    vfs.ops++;
    g.log("io %s %s %lld", what, n.c_str(), (long long)k);
    if (!vfs.crashed && fault_point(F_CRASH)) {
        vfs.crashed = true; vfs.image.clear();
        for (auto &f : vfs.files) vfs.image[f.first] = f.second->data;
        g.stat("crash_points");
    }
}
// a crash in the middle of a write: part of it is already on disk
static void torn(H *h, const char *buf, size_t n) {
    if (!vfs.crashed && vfs.err_mode == 1 && fault_point(F_CRASH)) {
        VFileP keep = h->f; Bytes saved = keep->data;
        size_t half = n / 2;
        if (keep->data.size() < h->pos + half) keep->data.resize(h->pos + half);
        memcpy(&keep->data[h->pos], buf, half);
        vfs.crashed = true; vfs.image.clear();
        for (auto &f : vfs.files) vfs.image[f.first] = f.second->data;
        keep->data = saved;
        g.stat("torn_crash_points");
    }
}
static ssize_t c_read(void *c, char *buf, size_t n) {
    H *h = (H *)c;
    step("read", h->name, (int64_t)n);
    if (fault_point(F_IO)) { vfs.fired_read++; errno = EIO; return -1; }
    if (!h->rd) { errno = EBADF; return -1; }
    int64_t left = (int64_t)h->f->data.size() - h->pos;
    if (left <= 0) return 0;
    size_t m = (size_t)left < n ? (size_t)left : n;
    if (vfs.short_reads && m > 1) m = 1 + m / 3;
    memcpy(buf, h->f->data.data() + h->pos, m);
    h->pos += (int64_t)m;
    return (ssize_t)m;
}
static ssize_t c_write(void *c, const char *buf, size_t n) {
    H *h = (H *)c;
    step("write", h->name, (int64_t)n);
    torn(h, buf, n);
    size_t m = n;
    bool f = fault_point(F_IO);
    if (f) { vfs.fired_write++; if (vfs.err_mode == 0) { errno = EIO; return 0; } m = n / 2; errno = ENOSPC; }
    if (!h->wr) { errno = EBADF; return 0; }
    if (h->app) h->pos = (int64_t)h->f->data.size();
    int64_t grow = h->pos + (int64_t)m - (int64_t)h->f->data.size();
    if (vfs.capacity >= 0 && grow > 0 && vfs.used() + grow > vfs.capacity) {
        int64_t can = vfs.capacity - vfs.used(); if (can < 0) can = 0;
        int64_t allow = (int64_t)m - grow + can; if (allow < 0) allow = 0;
        m = (size_t)allow; errno = ENOSPC; g.fault_event("disk_full");
        vfs.fired_write++;
    }
    if (m) {
        if ((int64_t)h->f->data.size() < h->pos + (int64_t)m) h->f->data.resize(h->pos + m);
        memcpy(&h->f->data[h->pos], buf, m);
        h->pos += (int64_t)m;
    }
    return (ssize_t)m;
}
static int c_seek(void *c, off64_t *off, int wh) {
    H *h = (H *)c;
    step("seek", h->name, *off);
    if (fault_point(F_IO)) { vfs.fired_seek++; errno = EIO; return -1; }
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? h->pos : (int64_t)h->f->data.size();
    if (b + *off < 0) { errno = EINVAL; return -1; }
    h->pos = b + *off; *off = h->pos;
    return 0;
}
static int c_close(void *c) {
    H *h = (H *)c;
    step("close", h->name, 0);
    bool f = fault_point(F_IO);
    if (f) { vfs.fired_close++; if (h->wr && vfs.err_mode == 1) h->f->data.resize(h->f->data.size() / 2); }
    delete h; vfs.open_handles--;
    if (f) { errno = EIO; return -1; }
    return 0;
}
FILE *vfs_open(const char *path, const char *mode) {
    step("open", path, mode[0]);
    if (fault_point(F_IO)) { vfs.fired_open++; errno = EMFILE; return NULL; }
    bool plus = strchr(mode, '+') != NULL;
    auto it = vfs.files.find(path);
    if (mode[0] == 'r' && it == vfs.files.end()) { errno = ENOENT; return NULL; }
    if (mode[0] == 'w' && strchr(mode, 'x') && it != vfs.files.end()) { errno = EEXIST; return NULL; }
    H *h = new H;
    if (it == vfs.files.end()) { vfs.files[path] = std::make_shared<VFile>(); it = vfs.files.find(path); }
    h->f = it->second; h->pos = 0; h->name = path;
    h->rd = mode[0] == 'r' || plus; h->wr = mode[0] != 'r' || plus; h->app = mode[0] == 'a';
    if (mode[0] == 'w') h->f->data.clear();
    cookie_io_functions_t io = {h->rd ? c_read : nullptr, h->wr ? c_write : nullptr, c_seek, c_close};
    vfs.open_handles++;
    FILE *f = fopencookie(h, mode[0] == 'r' ? (plus ? "r+" : "r") : mode[0] == 'a' ? "a" : (plus ? "w+" : "w"), io);
    if (!f) { delete h; vfs.open_handles--; }
    return f;
}
extern "C" {
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *);
int __real_rename(const char *, const char *); int __real_remove(const char *); int __real_unlink(const char *);
FILE *__wrap_fopen(const char *p, const char *m) { return vfs.on ? vfs_open(p, m) : __real_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return vfs.on ? vfs_open(p, m) : __real_fopen64(p, m); }
int __wrap_rename(const char *a, const char *b) {
    if (!vfs.on) return __real_rename(a, b);
    step("rename", std::string(a) + ">" + b, 0);
    bool fr = fault_point(F_RENAME);
    if (fault_point(F_IO) || fr) { vfs.fired_rename++; errno = EIO; return -1; }
    auto it = vfs.files.find(a);
    if (it == vfs.files.end()) { errno = ENOENT; return -1; }
    if (strcmp(a, b)) { vfs.files[b] = it->second; vfs.files.erase(a); }
    return 0;
}
static int rm(const char *p) {
    step("remove", p, 0);
    if (fault_point(F_IO)) { vfs.fired_remove++; errno = EIO; return -1; }
    if (!vfs.files.erase(p)) { errno = ENOENT; return -1; }
    return 0;
}
// what a program may ask about files, or ask of them, besides
int __real_access(const char *, int); int __real_stat(const char *, struct stat *); int __real_lstat(const char *, struct stat *); int __real_fsync(int); int __real_fdatasync(int);
int __wrap_access(const char *p, int m) { if (!vfs.on) return __real_access(p, m); if (vfs.files.count(p)) return 0; errno = ENOENT; return -1; }
static int vstat(const char *p, struct stat *s) {
    auto it = vfs.files.find(p); if (it == vfs.files.end()) { errno = ENOENT; return -1; }
    memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_nlink = 1; s->st_size = (off_t)it->second->data.size(); s->st_blksize = 4096; s->st_ino = (ino_t)fnv(p); return 0;
}
int __wrap_stat(const char *p, struct stat *s) { return vfs.on ? vstat(p, s) : __real_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { return vfs.on ? vstat(p, s) : __real_lstat(p, s); }
int __wrap_fsync(int fd) { return vfs.on && fd < 0 ? 0 : __real_fsync(fd); }        // nothing is lost but with the process
int __wrap_fdatasync(int fd) { return vfs.on && fd < 0 ? 0 : __real_fdatasync(fd); }
int __wrap_remove(const char *p) { return vfs.on ? rm(p) : __real_remove(p); }
int __wrap_unlink(const char *p) { return vfs.on ? rm(p) : __real_unlink(p); }
}
