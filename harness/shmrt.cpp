#include "shmrt.h"
#include <algorithm>
#include <atomic>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <cstdarg>

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_pread(int, void*, size_t, off_t);
int __real_ftruncate(int, off_t);
int __real_fallocate(int, int, off_t, off_t);
int __real_open(const char*, int, ...);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

namespace shm {
Recorder R;
std::string g_root;
struct Reg {
    uintptr_t a, e;
    int file;
    uint64_t off;
};
static std::vector<Reg> regs;
static uintptr_t lo = ~(uintptr_t)0, hi = 0;
struct File {
    std::string name;
    dev_t d;
    ino_t i;
    int fd = -1;
};
static std::vector<File> files;
const std::string& file_name(int i) { return files[i].name; }

static int file_of(int fd, const char* nm)
{
    struct stat st;
    if (fstat(fd, &st) || !S_ISREG(st.st_mode))
        return -1;
    for (size_t i = 0; i < files.size(); i++)
        if (files[i].d == st.st_dev && files[i].i == st.st_ino)
            return i;
    std::string name;
    if (nm)
        name = nm;
    else {
        char l[64], b[4096];
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(l, b, sizeof b);
        name.assign(b, n > 0 ? n : 0);
    }
    if (name.compare(0, g_root.size(), g_root))
        return -1;
    File f;
    f.name = name;
    f.d = st.st_dev;
    f.i = st.st_ino;
    f.fd = __real_open(name.c_str(), O_RDWR | O_CLOEXEC);
    files.push_back(f);
    return files.size() - 1;
}
static void rebound()
{
    lo = ~(uintptr_t)0;
    hi = 0;
    for (auto& r : regs) {
        if (r.a < lo) lo = r.a;
        if (r.e > hi) hi = r.e;
    }
}
static inline Reg* find(uintptr_t a)
{
    if (a < lo || a >= hi)
        return nullptr;
    for (auto& r : regs)
        if (a >= r.a && a < r.e)
            return &r;
    return nullptr;
}
// ------------------------------------------------------------- recording
struct Pend {
    uintptr_t a = 0;
    uint32_t len = 0;
};
static Pend pend;
static void settle()
{
    if (!pend.len)
        return;
    Entry& e = R.log.back();
    R.pool.replace(e.pos, e.len, (const char*)pend.a, e.len);
    pend.len = 0;
    // a store that changes nothing is no event
    if (!memcmp(R.pool.data() + e.pos, R.pool.data() + e.oldpos, e.len))
        R.log.pop_back();
}
static void push(int file, uint64_t off, const void* oldb, const void* newb, uint32_t len, const void* pc)
{
    Entry e;
    e.file = file;
    e.off = off;
    e.len = len;
    e.pc = pc;
    e.oldpos = R.pool.size();
    R.pool.append((const char*)oldb, len);
    e.pos = R.pool.size();
    if (newb)
        R.pool.append((const char*)newb, len);
    else
        R.pool.append(len, 0);
    R.log.push_back(e);
}
static inline void on_store(void* p, uint32_t len, const void* pc)
{
    if (!R.on)
        return;
    settle();
    uintptr_t a = (uintptr_t)p;
    Reg* r = find(a);
    if (!r)
        return;
    R.total_stores++;
    push(r->file, r->off + (a - r->a), p, nullptr, len, pc);
    pend.a = a;
    pend.len = len;
}
static void advance()
{
    R.loads++;
    while (R.next < R.sched.size() && R.sched[R.next].first <= R.loads) {
        seek(R.sched[R.next].second);
        R.next++;
    }
    if (R.max_loads && R.loads > R.max_loads) {
        // the reader does not come to an end
        const char m[] = "SPIN\n";
        (void)!::write(2, m, 5);
        _exit(77);
    }
}
static inline void on_load(const void* p, uint32_t)
{
    if (R.on) {
        settle();
        return;
    }
    if (!R.replay && !R.count_loads)
        return;
    if (!find((uintptr_t)p))
        return;
    if (R.replay)
        advance();
    else
        R.loads++;
}
void start()
{
    R.log.clear();
    R.pool.clear();
    pend.len = 0;
    R.on = true;
}
void settle_now() { settle(); }
void stop()
{
    settle();
    R.on = false;
    *R.at = R.log.size();
}
void seek(long pos)
{
    while (*R.at < pos) {
        Entry& e = R.log[(*R.at)++];
        if (e.len)
            (void)!__real_pwrite(files[e.file].fd, R.pool.data() + e.pos, e.len, e.off);
    }
    while (*R.at > pos) {
        Entry& e = R.log[--*R.at];
        if (e.len)
            (void)!__real_pwrite(files[e.file].fd, R.pool.data() + e.oldpos, e.len, e.off);
    }
}
// pieces of a block copy: at least 8 bytes, aligned, about a dozen at most
static inline uint32_t piece(uintptr_t d, size_t n)
{
    if (n == 6)
        return 4; // what compilers make of a 6-byte copy
    size_t c = n <= 96 ? 8 : ((n / 12 + 8) & ~(size_t)7);
    size_t r = c - (d & 7);
    return r < n ? r : n;
}
// ------------------------------------------------------------- images
void Image::load(const std::string& dir)
{
    f.clear();
    DIR* dp = opendir(dir.c_str());
    if (!dp)
        return;
    while (dirent* e = readdir(dp)) {
        std::string n = e->d_name, p = dir + "/" + n;
        struct stat st;
        if (stat(p.c_str(), &st) || !S_ISREG(st.st_mode))
            continue;
        F& x = f[n];
        x.size = st.st_size;
        int fd = __real_open(p.c_str(), O_RDONLY);
        off_t o = 0;
        std::string b;
        while (o < st.st_size) {
            o = lseek(fd, o, SEEK_DATA);
            if (o < 0)
                break;
            off_t h = lseek(fd, o, SEEK_HOLE);
            for (off_t q = o & ~4095L; q < h; q += 4096) {
                b.assign(4096, 0);
                (void)!__real_pread(fd, &b[0], 4096, q);
                bool z = true;
                for (int i = 0; i < 4096 && z; i += 8)
                    z = *(const uint64_t*)(b.data() + i) == 0;
                if (!z)
                    x.page[q] = b;
            }
            o = h;
        }
        close(fd);
    }
    closedir(dp);
}
void Image::apply(const Recorder& r, long from, long to, const std::string& dir)
{
    for (long i = from; i < to; i++) {
        const Entry& e = r.log[i];
        const std::string& full = files[e.file].name;
        if (full.compare(0, dir.size() + 1, dir + "/"))
            continue;
        F& x = f[full.substr(dir.size() + 1)];
        if (!e.len) {
            if (e.off > x.size)
                x.size = e.off;
            continue;
        }
        for (uint32_t k = 0; k < e.len;) {
            uint64_t o = e.off + k, pg = o & ~4095ULL;
            uint32_t n = std::min<uint64_t>(e.len - k, pg + 4096 - o);
            std::string& p = x.page[pg];
            if (p.empty())
                p.assign(4096, 0);
            __real_memcpy(&p[o - pg], r.pool.data() + e.pos + k, n);
            k += n;
        }
        if (e.off + e.len > x.size)
            x.size = e.off + e.len;
    }
}
void Image::write(const std::string& dir) const
{
    mkdir(dir.c_str(), 0777);
    for (auto& x : f) {
        int fd = __real_open((dir + "/" + x.first).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
        (void)!__real_ftruncate(fd, x.second.size);
        for (auto& p : x.second.page) {
            size_t n = 4096;
            if (p.first + n > x.second.size)
                n = x.second.size - p.first;
            (void)!__real_pwrite(fd, p.second.data(), n, p.first);
        }
        close(fd);
    }
}
std::string Image::diff(const Image& o) const
{
    static const std::string zero(4096, 0);
    for (auto& x : f) {
        auto y = o.f.find(x.first);
        if (y == o.f.end())
            return x.first + " missing";
        if (y->second.size != x.second.size)
            return x.first + " size";
        for (int s = 0; s < 2; s++)
            for (auto& p : s ? y->second.page : x.second.page) {
                auto& m = s ? x.second.page : y->second.page;
                auto q = m.find(p.first);
                const std::string& b = q == m.end() ? zero : q->second;
                if (b != p.second)
                    for (int i = 0; i < 4096; i++)
                        if (b[i] != p.second[i])
                            return x.first + " at " + std::to_string(p.first + i);
            }
    }
    for (auto& y : o.f)
        if (!f.count(y.first))
            return y.first + " extra";
    return "";
}
}
using namespace shm;

// ------------------------------------------------------------- system calls
extern "C" {
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
    void* p = __real_mmap(a, n, prot, flags, fd, off);
    if (p != MAP_FAILED && fd >= 0 && (flags & MAP_SHARED)) {
        int f = file_of(fd, nullptr);
        if (f >= 0) {
            if (R.on)
                settle();
            regs.push_back({ (uintptr_t)p, (uintptr_t)p + n, f, (uint64_t)off });
            rebound();
        }
    }
    return p;
}
void* __wrap_mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, n, prot, flags, fd, off); }
int __wrap_munmap(void* p, size_t n)
{
    if (R.on)
        settle();
    for (size_t i = 0; i < regs.size(); i++)
        if (regs[i].a == (uintptr_t)p) {
            regs.erase(regs.begin() + i);
            rebound();
            break;
        }
    return __real_munmap(p, n);
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t off)
{
    if (!R.on)
        return __real_pwrite(fd, b, n, off);
    settle();
    int f = file_of(fd, nullptr);
    if (f < 0)
        return __real_pwrite(fd, b, n, off);
    size_t k = 0;
    while (k < n) {
        uint32_t c = piece(off + k, n - k);
        std::string old(c, 0);
        (void)!__real_pread(fd, &old[0], c, off + k);
        R.total_stores++;
        push(f, off + k, old.data(), (const char*)b + k, c, __builtin_return_address(0));
        ssize_t w = __real_pwrite(fd, (const char*)b + k, c, off + k);
        if (w < 0)
            return k ? (ssize_t)k : w;
        k += w;
    }
    return n;
}
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t off) { return __wrap_pwrite(fd, b, n, off); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t off)
{
    if (R.on)
        settle();
    if (R.replay || R.count_loads) {
        if (file_of(fd, nullptr) >= 0) {
            if (R.replay)
                advance();
            else
                R.loads++;
        }
    }
    return __real_pread(fd, b, n, off);
}
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t off) { return __wrap_pread(fd, b, n, off); }
int __wrap_ftruncate(int fd, off_t n)
{
    int r = __real_ftruncate(fd, n);
    if (R.on && r == 0) {
        settle();
        int f = file_of(fd, nullptr);
        if (f >= 0)
            R.log.push_back({ f, (uint64_t)n, 0, 0, 0, __builtin_return_address(0) });
    }
    return r;
}
int __wrap_fallocate(int fd, int mode, off_t o, off_t n)
{
    int r = __real_fallocate(fd, mode, o, n);
    if (R.on && r == 0) {
        settle();
        int f = file_of(fd, nullptr);
        if (f >= 0)
            R.log.push_back({ f, (uint64_t)(o + n), 0, 0, 0, __builtin_return_address(0) });
    }
    return r;
}
int __wrap_fallocate64(int fd, int mode, off_t o, off_t n) { return __wrap_fallocate(fd, mode, o, n); }
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_open(const char* p, int fl, ...)
{
    mode_t m = 0;
    if (fl & O_CREAT) {
        va_list ap;
        va_start(ap, fl);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    bool existed = access(p, F_OK) == 0;
    int fd = __real_open(p, fl, m);
    if (R.on && fd >= 0 && (fl & O_CREAT) && !existed) {
        settle();
        int f = file_of(fd, nullptr);
        if (f >= 0)
            R.log.push_back({ f, 0, 0, 0, 0, __builtin_return_address(0) });
    }
    return fd;
}
int __wrap_open64(const char* p, int fl, ...)
{
    mode_t m = 0;
    if (fl & O_CREAT) {
        va_list ap;
        va_start(ap, fl);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    return __wrap_open(p, fl, m);
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b)
{
    if (R.on) settle();
    if (R.replay) {
        advance();
        return 0;
    }
    return R.nosleep ? 0 : __real_nanosleep(a, b);
}
int __wrap_usleep(useconds_t u)
{
    if (R.on) settle();
    if (R.replay) {
        advance();
        return 0;
    }
    return R.nosleep ? 0 : __real_usleep(u);
}
void* __wrap_memcpy(void* d, const void* s, size_t n);
void* __wrap_memmove(void* d, const void* s, size_t n);
void* __wrap_memset(void* d, int c, size_t n);

// block operations
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (!R.on && !R.replay && !R.count_loads)
        return __real_memcpy(d, s, n);
    bool ds = R.on && find((uintptr_t)d), ss = find((uintptr_t)s);
    if (!ds && !ss) {
        if (R.on) settle();
        return __real_memcpy(d, s, n);
    }
    const void* pc = __builtin_return_address(0);
    size_t k = 0;
    while (k < n) {
        uint32_t c = piece(ds ? (uintptr_t)d + k : (uintptr_t)s + k, n - k);
        if (ss) on_load((const char*)s + k, c);
        if (ds) on_store((char*)d + k, c, pc);
        __real_memcpy((char*)d + k, (const char*)s + k, c);
        k += c;
    }
    return d;
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if ((uintptr_t)d + n <= (uintptr_t)s || (uintptr_t)s + n <= (uintptr_t)d)
        return __tsan_memcpy(d, s, n);
    if (R.on) on_store(d, n, __builtin_return_address(0));
    else on_load(s, n);
    return __real_memmove(d, s, n);
}
void* __tsan_memset(void* d, int ch, size_t n)
{
    if (!R.on || !find((uintptr_t)d))
        return __real_memset(d, ch, n);
    size_t k = 0;
    while (k < n) {
        uint32_t c = piece((uintptr_t)d + k, n - k);
        on_store((char*)d + k, c, __builtin_return_address(0));
        __real_memset((char*)d + k, ch, c);
        k += c;
    }
    return d;
}
void* __wrap_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    if (R.on || R.replay || R.count_loads) {
        if (find((uintptr_t)a))
            on_load(a, n);
        if (find((uintptr_t)b))
            on_load(b, n);
    }
    return __real_memcmp(a, b, n);
}
void* __wrap_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }

// scalar accesses
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
void __tsan_vptr_update(void**, void*) { }
void __tsan_vptr_read(void**) { }
void __tsan_acquire(void*) { }
void __tsan_release(void*) { }
#define RW(N)                                                                                          \
    void __tsan_read##N(void* p) { on_load(p, N); }                                                    \
    void __tsan_write##N(void* p) { on_store(p, N, __builtin_return_address(0)); }                     \
    void __tsan_unaligned_read##N(void* p) { on_load(p, N); }                                          \
    void __tsan_unaligned_write##N(void* p) { on_store(p, N, __builtin_return_address(0)); }           \
    void __tsan_volatile_read##N(void* p) { on_load(p, N); }                                           \
    void __tsan_volatile_write##N(void* p) { on_store(p, N, __builtin_return_address(0)); }            \
    void __tsan_unaligned_volatile_read##N(void* p) { on_load(p, N); }                                 \
    void __tsan_unaligned_volatile_write##N(void* p) { on_store(p, N, __builtin_return_address(0)); }  \
    void __tsan_read_write##N(void* p) { on_load(p, N); on_store(p, N, __builtin_return_address(0)); } \
    void __tsan_unaligned_read_write##N(void* p) { on_load(p, N); on_store(p, N, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { on_load(p, n); }
void __tsan_write_range(void* p, long n) { on_store(p, n, __builtin_return_address(0)); }
#define AT(B, T)                                                                                                                \
    T __tsan_atomic##B##_load(const volatile T* p, int) { on_load((const void*)p, B / 8); return __atomic_load_n(p, 5); }         \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) { on_store((void*)p, B / 8, __builtin_return_address(0)); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { on_load((void*)p, B / 8); on_store((void*)p, B / 8, __builtin_return_address(0)); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { on_load((void*)p, B / 8); on_store((void*)p, B / 8, __builtin_return_address(0)); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { on_load((void*)p, B / 8); on_store((void*)p, B / 8, __builtin_return_address(0)); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { on_load((void*)p, B / 8); on_store((void*)p, B / 8, __builtin_return_address(0)); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { on_load((void*)p, B / 8); on_store((void*)p, B / 8, __builtin_return_address(0)); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { on_load((void*)p, B / 8); on_store((void*)p, B / 8, __builtin_return_address(0)); return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { on_load((void*)p, B / 8); on_store((void*)p, B / 8, __builtin_return_address(0)); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { on_load((void*)p, B / 8); on_store((void*)p, B / 8, __builtin_return_address(0)); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { on_load((void*)p, B / 8); on_store((void*)p, B / 8, __builtin_return_address(0)); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) { }
}
