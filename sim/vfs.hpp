// Simulated disk seen by the library: an in-memory file system behind fopen/rename/remove/unlink and the stdio streams
// it returns. Every operation is an injection point; a crash is a snapshot of the disk taken at the crash point (what the
// process does afterwards never reaches it).
#pragma once
#include "core.hpp"
#include <memory>
struct VFile { Bytes data; };
typedef std::shared_ptr<VFile> VFileP;
struct Vfs {
    bool on = false;
    std::map<std::string, VFileP> files;
    int64_t capacity = -1;                   // bytes available in all files together; -1 unlimited
    int err_mode = 0;                        // how an injected I/O fault shows: 0 nothing done, 1 half of it done first
    int open_handles = 0;
    bool crashed = false;
    std::map<std::string, Bytes> image;      // the disk at the crash
    int fired_open = 0, fired_read = 0, fired_write = 0, fired_seek = 0, fired_close = 0, fired_rename = 0, fired_remove = 0;
    bool short_reads = false;
    uint64_t ops = 0;
    std::vector<std::string> trace;
    void reset() { files.clear(); capacity = -1; err_mode = 0; open_handles = 0; crashed = false; image.clear(); fired_open = fired_read = fired_write = fired_seek = fired_close = fired_rename = fired_remove = 0; short_reads = false; ops = 0; on = true; }
    void clear_fired() { fired_open = fired_read = fired_write = fired_seek = fired_close = fired_rename = fired_remove = 0; }
    void put(const std::string &n, const Bytes &d) { files[n] = std::make_shared<VFile>(); files[n]->data = d; }
    bool has(const std::string &n) const { return files.count(n) > 0; }
    Bytes get(const std::string &n) const { auto it = files.find(n); return it == files.end() ? Bytes() : it->second->data; }
    int64_t used() const { int64_t u = 0; for (auto &f : files) u += (int64_t)f.second->data.size(); return u; }
    void reboot() { files.clear(); for (auto &f : image) put(f.first, f.second); crashed = false; image.clear(); }
};
extern Vfs vfs;
FILE *vfs_open(const char *path, const char *mode);
