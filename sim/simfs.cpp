#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simfs.h"
#include "rt.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <set>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <unistd.h>

namespace simfs {
namespace {
struct Node {
    bool dir = false;
    std::string data;
    uint64_t ino = 0;
};
struct Handle {
    std::shared_ptr<Node> n;
    std::string path;
    int flags = 0;
    size_t pos = 0;
    bool wrote = false;
    size_t first_new = 0;
};
struct FS {
    std::map<std::string, std::shared_ptr<Node>> files;
    std::map<int, Handle> h;
    std::map<FILE*, int> streams;
    int next_fd = 10000;
    uint64_t next_ino = 100;
    size_t cap = 0;
    std::string cwd = "/simfs/cwd";
    bool vcwd = false;
    std::vector<Chdir> chdirs;
    std::vector<Change> log;
    uint64_t err = 0, werr = 0, nops = 0;
    std::map<void*, size_t> maps;
};
FS* fs;
FS& F()
{
    if (!fs)
        fs = new FS();
    return *fs;
}
// entry of an interposed call: a scheduling point, then simulator-internal allocation
struct In {
    struct Y {
        Y()
        {
            if (sim::in_run())
                sim::yield();
        }
    } y;
    sim::RtAlloc a;
};
struct In0 { // no scheduling point (called with a stream lock held)
    sim::RtAlloc a;
};

// journal mirror in memory shared with the parent, for runs in which the process dies
struct Mir {
    uint64_t used;
    uint8_t over;
    char b[8 << 20];
};
Mir* mir;
void put_log(std::vector<Change>& log, Change c)
{
    if (mir) {
        std::string r;
        uint64_t v[4] = {(uint64_t)c.kind, c.off, c.path.size(), c.data.size()};
        r.append((const char*)v, sizeof v);
        r += c.path;
        r += c.data;
        if (mir->used + r.size() <= sizeof mir->b) {
            memcpy(mir->b + mir->used, r.data(), r.size());
            mir->used += r.size();
        } else
            mir->over = 1;
    }
    log.push_back(std::move(c));
}

bool ours(const char* p)
{
    if (!p || !fs)
        return false;
    if (p[0] == '/')
        return strncmp(p, "/simfs", 6) == 0 && (p[6] == '/' || !p[6]);
    return F().vcwd;
}
std::string norm(const char* p)
{
    std::string s = p[0] == '/' ? p : F().cwd + "/" + p;
    std::vector<std::string> c;
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find('/', i);
        if (e == std::string::npos)
            e = s.size();
        std::string x = s.substr(i, e - i);
        if (x == "..") {
            if (!c.empty())
                c.pop_back();
        } else if (!x.empty() && x != ".")
            c.push_back(x);
        i = e + 1;
    }
    std::string o;
    for (auto& x : c)
        o += "/" + x;
    return o.empty() ? "/" : o;
}
std::string parent(const std::string& p)
{
    size_t s = p.rfind('/');
    return s == 0 || s == std::string::npos ? "/" : p.substr(0, s);
}
std::shared_ptr<Node> find(const std::string& p)
{
    auto it = F().files.find(p);
    return it == F().files.end() ? nullptr : it->second;
}
size_t used()
{
    size_t n = 0;
    for (auto& [k, v] : F().files)
        n += v->data.size();
    return n;
}
bool fail(const char* kind)
{
    if (!sim::fault(kind))
        return false;
    F().err++;
    return true;
}
int do_open(const std::string& p, int flags)
{
    F().nops++;
    auto n = find(p);
    if (fail("fs.open")) {
        static const int es[] = {EACCES, EMFILE, EIO, ENOSPC, EINTR};
        errno = es[p.size() % 4];
        if (flags & (O_WRONLY | O_RDWR))
            F().werr++;
        return -1;
    }
    if (!n) {
        if (!(flags & O_CREAT)) {
            errno = ENOENT;
            return -1;
        }
        auto d = find(parent(p));
        if (!d || !d->dir) {
            errno = ENOENT;
            return -1;
        }
        n = std::make_shared<Node>();
        n->ino = F().next_ino++;
        F().files[p] = n;
        put_log(F().log, {p, 2, 0, ""});
    } else if (n->dir && (flags & (O_WRONLY | O_RDWR))) {
        errno = EISDIR;
        return -1;
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
        errno = EEXIST;
        return -1;
    }
    if (flags & O_TRUNC && !n->dir) {
        n->data.clear();
        put_log(F().log, {p, 1, 0, ""});
    }
    int fd = F().next_fd++;
    F().h[fd] = Handle{n, p, flags, 0, false, n->data.size()};
    return fd;
}
Handle* H(int fd)
{
    if (fd < 10000 || !fs)
        return nullptr;
    auto it = F().h.find(fd);
    return it == F().h.end() ? nullptr : &it->second;
}
ssize_t do_read(int fd, void* buf, size_t n, bool stdio)
{
    F().nops++;
    Handle* h = H(fd);
    if (!h || (h->flags & O_ACCMODE) == O_WRONLY) {
        errno = EBADF;
        return -1;
    }
    if (h->n->dir) {
        errno = EISDIR;
        return -1;
    }
    if (n && fail("fs.read")) {
        errno = EIO;
        return -1;
    }
    if (n && !stdio && sim::fault("fs.eintr")) {
        errno = EINTR;
        return -1;
    }
    size_t have = h->pos < h->n->data.size() ? h->n->data.size() - h->pos : 0;
    size_t k = n < have ? n : have;
    if (k > 1)
        if (uint32_t v = sim::fault_value("fs.short-read", (uint32_t)(k - 1 < 1000000 ? k - 1 : 1000000)))
            k = v;
    memcpy(buf, h->n->data.data() + h->pos, k);
    h->pos += k;
    return (ssize_t)k;
}
ssize_t do_write(int fd, const void* buf, size_t n, bool stdio)
{
    F().nops++;
    Handle* h = H(fd);
    if (!h || (h->flags & O_ACCMODE) == O_RDONLY) {
        errno = EBADF;
        return -1;
    }
    if (!n)
        return 0;
    if (fail("fs.write")) {
        F().werr++;
        errno = EIO;
        return -1;
    }
    if (fail("fs.enospc")) {
        F().werr++;
        errno = ENOSPC;
        return -1;
    }
    if (!stdio && sim::fault("fs.eintr")) {
        errno = EINTR;
        return -1;
    }
    size_t k = n;
    if (!stdio && k > 1)
        if (uint32_t v = sim::fault_value("fs.short-write", (uint32_t)(k - 1 < 1000000 ? k - 1 : 1000000)))
            k = v;
    if (h->flags & O_APPEND)
        h->pos = h->n->data.size();
    if (F().cap) {
        size_t u = used(), grow = h->pos + k > h->n->data.size() ? h->pos + k - h->n->data.size() : 0;
        if (u + grow > F().cap) {
            size_t room = F().cap > u ? F().cap - u : 0;
            size_t over = grow - room;
            k = k > over ? k - over : 0;
            if (!k) {
                F().err++;
                F().werr++;
                sim::probe("disk full");
                errno = ENOSPC;
                return -1;
            }
        }
    }
    if (h->pos + k > h->n->data.size())
        h->n->data.resize(h->pos + k);
    memcpy(&h->n->data[h->pos], buf, k);
    put_log(F().log, {h->path, 0, h->pos, std::string((const char*)buf, k)});
    h->pos += k;
    h->wrote = true;
    return (ssize_t)k;
}
off_t do_lseek(int fd, off_t o, int w)
{
    Handle* h = H(fd);
    if (!h) {
        errno = EBADF;
        return -1;
    }
    if (fail("fs.seek")) {
        errno = EIO;
        return -1;
    }
    off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off_t)h->pos : (off_t)h->n->data.size();
    if (b + o < 0) {
        errno = EINVAL;
        return -1;
    }
    h->pos = (size_t)(b + o);
    return (off_t)h->pos;
}
int do_close(int fd)
{
    F().nops++;
    Handle* h = H(fd);
    if (!h) {
        errno = EBADF;
        return -1;
    }
    Handle c = *h;
    F().h.erase(fd);
    if (c.wrote) {
        uint32_t v = sim::fault_value("fs.close", 1000);
        if (v) {
            // a delayed write failed: the tail is gone
            F().err++;
            F().werr++;
            size_t keep = c.n->data.size() * (v - 1) / 1000;
            c.n->data.resize(keep);
            put_log(F().log, {c.path, 1, keep, ""});
            errno = v % 2 ? EIO : ENOSPC;
            return -1;
        }
    }
    return 0;
}
void do_stat(const Node& n, struct stat* st)
{
    memset(st, 0, sizeof *st);
    st->st_mode = n.dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = (off_t)n.data.size();
    st->st_blksize = 4096;
    st->st_blocks = (blkcnt_t)(n.data.size() / 512);
    st->st_nlink = 1;
    st->st_ino = n.ino;
    st->st_dev = 77;
    st->st_mtime = 1700000000;
}
ssize_t ck_read(void* c, char* b, size_t n)
{
    In0 in;
    return do_read((int)(intptr_t)c, b, n, true);
}
ssize_t ck_write(void* c, const char* b, size_t n)
{
    In0 in;
    size_t d = 0;
    while (d < n) { // like the C library's own write loop
        ssize_t k = do_write((int)(intptr_t)c, b + d, n - d, true);
        if (k < 0)
            return (ssize_t)d; // short: the stream becomes erroneous
        d += (size_t)k;
    }
    return (ssize_t)d;
}
int ck_seek(void* c, off64_t* o, int w)
{
    In0 in;
    off_t r = do_lseek((int)(intptr_t)c, *o, w);
    if (r < 0)
        return -1;
    *o = r;
    return 0;
}
int ck_close(void* c)
{
    In0 in;
    return do_close((int)(intptr_t)c);
}
} // namespace

void mirror()
{
    mir = (Mir*)sim::shared(sizeof(Mir));
    mir->used = 0;
    mir->over = 0;
}
std::map<std::string, std::string> mirrored()
{
    std::map<std::string, std::string> o;
    Mir* m = (Mir*)sim::shared(sizeof(Mir));
    uint64_t i = 0;
    while (i + 32 <= m->used) {
        uint64_t v[4];
        memcpy(v, m->b + i, 32);
        std::string p(m->b + i + 32, v[2]), d(m->b + i + 32 + v[2], v[3]);
        i += 32 + v[2] + v[3];
        std::string& f = o[p];
        if (v[0] == 0) {
            if (f.size() < v[1] + d.size())
                f.resize(v[1] + d.size());
            memcpy(&f[v[1]], d.data(), d.size());
        } else if (v[0] == 1)
            f.resize(v[1]);
        else if (v[0] == 3)
            f = d;
    }
    return o;
}
void reset()
{
    In0 in;
    F().files.clear();
    F().log.clear();
    F().cap = 0;
    F().err = F().werr = F().nops = 0;
    F().cwd = "/simfs/cwd";
    F().vcwd = false;
    F().chdirs.clear();
    mkdirs("/simfs/cwd");
}
void mkdirs(const std::string& p0)
{
    In0 in;
    std::string p = norm(p0.c_str());
    while (p.size() > 1) {
        if (!find(p)) {
            auto n = std::make_shared<Node>();
            n->dir = true;
            n->ino = F().next_ino++;
            F().files[p] = n;
        }
        p = parent(p);
    }
}
void put(const std::string& p0, const std::string& b)
{
    In0 in;
    std::string p = norm(p0.c_str());
    mkdirs(parent(p));
    auto n = std::make_shared<Node>();
    n->ino = F().next_ino++;
    n->data.assign(b.data(), b.size()); // deep copy made inside the simulator
    F().files[p] = n;
}
bool get(const std::string& p, std::string& b)
{
    auto n = find(norm(p.c_str()));
    if (!n || n->dir)
        return false;
    b = n->data;
    return true;
}
bool exists(const std::string& p) { return (bool)find(norm(p.c_str())); }
void remove(const std::string& p)
{
    In0 in;
    F().files.erase(norm(p.c_str()));
}
std::vector<std::string> list()
{
    std::vector<std::string> o;
    for (auto& [k, v] : F().files)
        if (!v->dir)
            o.push_back(k);
    return o;
}
int open_handles() { return (int)F().h.size(); }
std::string handle_names()
{
    std::string s;
    for (auto& [k, v] : F().h)
        s += v.path + " ";
    return s;
}
void set_capacity(size_t b) { F().cap = b; }
const std::vector<Chdir>& chdirs() { return F().chdirs; }
std::string cwd() { return F().cwd; }
void set_cwd(const std::string& p)
{
    In0 in;
    F().cwd = norm(p.c_str());
}
void virtual_cwd(bool on) { F().vcwd = on; }
const std::vector<Change>& journal() { return F().log; }
void journal_clear()
{
    In0 in;
    F().log.clear();
}
bool image_at(const std::string& p0, size_t n, size_t torn, std::string& out)
{
    std::string p = norm(p0.c_str());
    bool ex = false;
    std::string d;
    for (size_t i = 0; i < F().log.size() && i <= n; ++i) {
        const Change& c = F().log[i];
        if (c.path != p)
            continue;
        bool last = i == n;
        if (c.kind == 2) {
            if (!last)
                ex = true;
        } else if (c.kind == 1) {
            if (!last)
                d.resize(c.off), ex = true;
        } else if (c.kind == 3) {
            if (!last) {
                d = c.data;
                ex = true;
            }
        } else {
            size_t k = last ? (torn < c.data.size() ? torn : c.data.size()) : c.data.size();
            if (k) {
                if (d.size() < c.off + k)
                    d.resize(c.off + k);
                memcpy(&d[c.off], c.data.data(), k);
                ex = true;
            }
        }
    }
    out = d;
    return ex;
}
uint64_t errors() { return F().err; }
uint64_t write_errors() { return F().werr; }
uint64_t ops() { return F().nops; }
} // namespace simfs

using namespace simfs;

#define NEXT(name) static auto r_##name = (decltype(&name))dlsym(RTLD_NEXT, #name)

extern "C" {
int open(const char* p, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        m = va_arg(a, mode_t);
        va_end(a);
    }
    if (ours(p)) {
        In in;
        return do_open(norm(p), flags);
    }
    NEXT(open);
    return r_open(p, flags, m);
}
int open64(const char* p, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        m = va_arg(a, mode_t);
        va_end(a);
    }
    return open(p, flags, m);
}
int openat(int d, const char* p, int flags, ...)
{
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list a;
        va_start(a, flags);
        m = va_arg(a, mode_t);
        va_end(a);
    }
    if (ours(p)) {
        In in;
        return do_open(norm(p), flags);
    }
    NEXT(openat);
    return r_openat(d, p, flags, m);
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE* fopen(const char* p, const char* mode)
{
    if (!ours(p)) {
        NEXT(fopen);
        return r_fopen(p, mode);
    }
    In in;
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    std::string m = mode;
    if (m.find('+') != std::string::npos)
        fl = (fl & ~O_ACCMODE) | O_RDWR;
    if (m.find('x') != std::string::npos)
        fl |= O_EXCL;
    int fd = do_open(norm(p), fl);
    if (fd < 0)
        return nullptr;
    cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie((void*)(intptr_t)fd, m.c_str(), io);
    if (f)
        F().streams[f] = fd;
    return f;
}
FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
FILE* fdopen(int fd, const char* mode)
{
    if (!H(fd)) {
        NEXT(fdopen);
        return r_fdopen(fd, mode);
    }
    In in;
    cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
    if (f)
        F().streams[f] = fd;
    return f;
}
int fclose(FILE* f)
{
    NEXT(fclose);
    if (fs && F().streams.count(f)) {
        In in;
        F().streams.erase(f);
        return r_fclose(f);
    }
    return r_fclose(f);
}
int fileno(FILE* f)
{
    NEXT(fileno);
    if (fs) {
        auto it = F().streams.find(f);
        if (it != F().streams.end())
            return it->second;
    }
    return r_fileno(f);
}
ssize_t read(int fd, void* b, size_t n)
{
    if (H(fd)) {
        In in;
        return do_read(fd, b, n, false);
    }
    NEXT(read);
    return r_read(fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    if (Handle* h = H(fd)) {
        In in;
        size_t p = h->pos;
        h->pos = (size_t)o;
        ssize_t r = do_read(fd, b, n, false);
        if (H(fd))
            H(fd)->pos = p;
        return r;
    }
    NEXT(pread);
    return r_pread(fd, b, n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t write(int fd, const void* b, size_t n)
{
    if (H(fd)) {
        In in;
        return do_write(fd, b, n, false);
    }
    NEXT(write);
    return r_write(fd, b, n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    if (Handle* h = H(fd)) {
        In in;
        size_t p = h->pos;
        h->pos = (size_t)o;
        ssize_t r = do_write(fd, b, n, false);
        if (H(fd))
            H(fd)->pos = p;
        return r;
    }
    NEXT(pwrite);
    return r_pwrite(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (H(fd)) {
        In in;
        std::string all;
        for (int i = 0; i < c; ++i)
            all.append((const char*)v[i].iov_base, v[i].iov_len);
        return do_write(fd, all.data(), all.size(), false);
    }
    NEXT(writev);
    return r_writev(fd, v, c);
}
ssize_t readv(int fd, const struct iovec* v, int c)
{
    if (H(fd)) {
        In in;
        ssize_t t = 0;
        for (int i = 0; i < c; ++i) {
            ssize_t k = do_read(fd, v[i].iov_base, v[i].iov_len, false);
            if (k < 0)
                return t ? t : -1;
            t += k;
            if ((size_t)k < v[i].iov_len)
                break;
        }
        return t;
    }
    NEXT(readv);
    return r_readv(fd, v, c);
}
off_t lseek(int fd, off_t o, int w)
{
    if (H(fd)) {
        In in;
        return do_lseek(fd, o, w);
    }
    NEXT(lseek);
    return r_lseek(fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd)
{
    if (H(fd)) {
        In in;
        return do_close(fd);
    }
    NEXT(close);
    return r_close(fd);
}
int fsync(int fd)
{
    if (H(fd)) {
        if (fail("fs.fsync")) {
            F().werr++;
            errno = EIO;
            return -1;
        }
        return 0;
    }
    NEXT(fsync);
    return r_fsync(fd);
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n)
{
    if (Handle* h = H(fd)) {
        In in;
        h->n->data.resize((size_t)n);
        put_log(F().log, {h->path, 1, (size_t)n, ""});
        return 0;
    }
    NEXT(ftruncate);
    return r_ftruncate(fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fstat(int fd, struct stat* st)
{
    if (Handle* h = H(fd)) {
        do_stat(*h->n, st);
        return 0;
    }
    NEXT(fstat);
    return r_fstat(fd, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st)
{
    if (ours(p)) {
        In in;
        if (fail("fs.stat")) {
            errno = EIO;
            return -1;
        }
        auto n = find(norm(p));
        if (!n) {
            errno = ENOENT;
            return -1;
        }
        do_stat(*n, st);
        return 0;
    }
    NEXT(stat);
    return r_stat(p, st);
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st)
{
    if (ours(p))
        return stat(p, st);
    NEXT(lstat);
    return r_lstat(p, st);
}
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstatat(int d, const char* p, struct stat* st, int fl)
{
    if (ours(p))
        return stat(p, st);
    NEXT(fstatat);
    return r_fstatat(d, p, st, fl);
}
int access(const char* p, int m)
{
    if (ours(p)) {
        In in;
        if (find(norm(p)))
            return 0;
        errno = ENOENT;
        return -1;
    }
    NEXT(access);
    return r_access(p, m);
}
int unlink(const char* p)
{
    if (ours(p)) {
        In in;
        auto it = F().files.find(norm(p));
        if (it == F().files.end()) {
            errno = ENOENT;
            return -1;
        }
        F().files.erase(it);
        return 0;
    }
    NEXT(unlink);
    return r_unlink(p);
}
int remove(const char* p)
{
    if (ours(p))
        return unlink(p);
    static auto r_remove = (int (*)(const char*))dlsym(RTLD_NEXT, "remove");
    return r_remove(p);
}
int rename(const char* a, const char* b)
{
    if (ours(a) && ours(b)) {
        In in;
        auto n = find(norm(a));
        if (!n) {
            errno = ENOENT;
            return -1;
        }
        if (fail("fs.rename")) {
            F().werr++;
            errno = EIO;
            return -1;
        }
        F().files[norm(b)] = n;
        F().files.erase(norm(a));
        put_log(F().log, {norm(b), 3, 0, n->data});
        return 0;
    }
    NEXT(rename);
    return r_rename(a, b);
}
int mkdir(const char* p, mode_t m)
{
    if (ours(p)) {
        In in;
        std::string q = norm(p);
        if (fail("fs.mkdir")) {
            errno = EACCES;
            return -1;
        }
        if (find(q)) {
            errno = EEXIST;
            return -1;
        }
        if (!find(parent(q))) {
            errno = ENOENT;
            return -1;
        }
        mkdirs(q);
        return 0;
    }
    NEXT(mkdir);
    return r_mkdir(p, m);
}
char* getcwd(char* b, size_t n)
{
    if (fs && F().vcwd) {
        if (fail("fs.getcwd")) {
            errno = ENOENT;
            return nullptr;
        }
        std::string c = F().cwd;
        if (!b) {
            b = (char*)malloc(n > c.size() ? n : c.size() + 1);
            n = c.size() + 1;
        }
        if (n < c.size() + 1) {
            errno = ERANGE;
            return nullptr;
        }
        memcpy(b, c.c_str(), c.size() + 1);
        return b;
    }
    NEXT(getcwd);
    return r_getcwd(b, n);
}
int chdir(const char* p)
{
    if (fs && F().vcwd) {
        In in;
        std::string q = norm(p);
        sim::yield();
        if (fail("fs.chdir")) {
            F().chdirs.push_back({q, false, sim::self()});
            errno = EACCES;
            return -1;
        }
        auto n = find(q);
        if (!n) {
            errno = ENOENT;
            return -1;
        }
        if (!n->dir) {
            errno = ENOTDIR;
            return -1;
        }
        F().cwd = q;
        F().chdirs.push_back({q, true, sim::self()});
        return 0;
    }
    NEXT(chdir);
    return r_chdir(p);
}
char* realpath(const char* p, char* out)
{
    if (ours(p)) {
        std::string q;
        {
            In in;
            q = norm(p);
            if (!find(q)) {
                errno = ENOENT;
                return nullptr;
            }
        }
        if (!out)
            out = (char*)malloc(4097);
        strncpy(out, q.c_str(), 4096);
        return out;
    }
    NEXT(realpath);
    return r_realpath(p, out);
}
ssize_t readlink(const char* p, char* b, size_t n)
{
    if (ours(p)) {
        errno = EINVAL;
        return -1;
    }
    NEXT(readlink);
    return r_readlink(p, b, n);
}
int ioctl(int fd, unsigned long rq, ...)
{
    va_list a;
    va_start(a, rq);
    void* x = va_arg(a, void*);
    va_end(a);
    if (Handle* h = H(fd)) {
        if (rq == FIONREAD) {
            *(int*)x = (int)(h->n->data.size() - (h->pos < h->n->data.size() ? h->pos : h->n->data.size()));
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    NEXT(ioctl);
    return r_ioctl(fd, rq, x);
}
int poll(struct pollfd* p, nfds_t n, int t)
{
    if (n == 1 && H(p->fd)) {
        p->revents = p->events & (POLLIN | POLLOUT);
        return 1;
    }
    NEXT(poll);
    return r_poll(p, n, t);
}
int fcntl(int fd, int cmd, ...)
{
    va_list a;
    va_start(a, cmd);
    void* x = va_arg(a, void*);
    va_end(a);
    if (H(fd))
        return 0;
    NEXT(fcntl);
    return r_fcntl(fd, cmd, x);
}
void* mmap(void* addr, size_t n, int prot, int fl, int fd, off_t o)
{
    if (Handle* h = H(fd)) {
        In in;
        if (fail("fs.mmap")) {
            errno = ENOMEM;
            return MAP_FAILED;
        }
        // private copy of the file, padded to whole pages like the kernel does
        size_t len = (n + 4095) / 4096 * 4096;
        NEXT(mmap);
        char* p = (char*)r_mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
            return p;
        size_t have = (size_t)o < h->n->data.size() ? h->n->data.size() - (size_t)o : 0;
        memcpy(p, h->n->data.data() + o, have < n ? have : n);
        return p;
    }
    NEXT(mmap);
    return r_mmap(addr, n, prot, fl, fd, o);
}
void* mmap64(void* addr, size_t n, int prot, int fl, int fd, off64_t o) { return mmap(addr, n, prot, fl, fd, o); }
}
