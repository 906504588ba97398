// Lifecycle driver: processes open, use, close databases and die in the middle of it; directories
// are damaged, removed, copied.  Every command is carried out by a process of its own kind and its
// outcome recorded; a command may be interrupted by the death of its process at its n-th store to
// shared memory or change of a file.  Programs come from specs/life/LifeGen, verdicts are TLC's
// (specs/life/LifeTrace).
//
//   lifedrv JOBS OUT SCRATCH NPROC
//   job:  J <id> nk=.. qd=.. ir=.. | op;op;...     with op = name,arg,arg,..
//     o,h,d,m,c,kill   c,h,kill   u,h,op,k,ow,kill   g,h   n,h   w,h,kill   k,p   x,d,kind
//     b,h,d2,kill      z,h,kill   r,d,c,m1,m2,m3 (m: -1 none, 0 reader, 1 writer)
// LINK: -Wl,--wrap=mmap -Wl,--wrap=mmap64 -Wl,--wrap=munmap -Wl,--wrap=open -Wl,--wrap=open64 -Wl,--wrap=access -Wl,--wrap=opendir -Wl,--wrap=remove -Wl,--wrap=unlink -Wl,--wrap=stat -Wl,--wrap=fstat -Wl,--wrap=fopen -Wl,--wrap=fopen64 -Wl,--wrap=fwrite -Wl,--wrap=fread -Wl,--wrap=write -Wl,--wrap=ftruncate -Wl,--wrap=fallocate -Wl,--wrap=posix_fallocate -Wl,--wrap=rename -Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset
// RT: none
#include "db.h"
#include "error.h"
#include "logger.h"
#include "mabain_consts.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace mabain;
using std::string;

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_open(const char*, int, ...);
int __real_access(const char*, int);
DIR* __real_opendir(const char*);
int __real_remove(const char*);
int __real_unlink(const char*);
int __real_rename(const char*, const char*);
int __real_stat(const char*, struct stat*);
int __real_fstat(int, struct stat*);
FILE* __real_fopen(const char*, const char*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
size_t __real_fread(void*, size_t, size_t, FILE*);
ssize_t __real_write(int, const void*, size_t);
int __real_ftruncate(int, off_t);
int __real_fallocate(int, int, off_t, off_t);
int __real_posix_fallocate(int, off_t, off_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

// ---------------------------------------------------------------- places and events
static string g_job; // scratch directory of the job: d1 d2 shm tmp q
struct Shared { // inode numbers of header files, so that they can be given out again
    long cnt;
    struct { dev_t d; ino_t real; ino_t virt; } tab[512];
    int ntab;
    ino_t reuse[3], last[3];
    long next, reused;
    int dirty[4][8]; // companions of the key (bulk) may differ from the key
};
static Shared* S = nullptr;
static std::atomic<long> g_die { 0 }; // events until death, 0: none
static thread_local int t_off = 0; // the driver's own code
static std::atomic<long> g_events { 0 };
static void event()
{
    if (t_off || !g_die.load(std::memory_order_relaxed))
        return;
    g_events++;
    if (g_die.fetch_sub(1) == 1) {
        if (getenv("LBT")) {
            void* bt[32];
            backtrace_symbols_fd(bt, backtrace(bt, 32), 2);
        }
        kill(getpid(), SIGKILL);
        for (;;)
            pause();
    }
}
struct Reg { uintptr_t a, e; };
static Reg regs[256];
static std::atomic<int> nregs { 0 };
static inline bool shared_addr(uintptr_t a)
{
    int n = nregs.load(std::memory_order_relaxed);
    for (int i = 0; i < n; i++)
        if (a >= regs[i].a && a < regs[i].e)
            return true;
    return false;
}
static inline void store(void* p)
{
    if (g_die.load(std::memory_order_relaxed) && shared_addr((uintptr_t)p))
        event();
}
static bool under(const char* p, const char* pre) { return !strncmp(p, pre, strlen(pre)); }
static string place(const char* p)
{
    if (!g_job.empty() && under(p, "/dev/shm/_mabain"))
        return g_job + "/shm/" + (p + 9);
    if (!g_job.empty() && !strcmp(p, "/dev/shm"))
        return g_job + "/shm";
    if (!g_job.empty() && under(p, "/tmp/_mb"))
        return g_job + "/tmp/" + (p + 5);
    return p;
}
// only files of the job are ever removed or truncated
static bool ours(const string& p) { return !g_job.empty() && under(p.c_str(), g_job.c_str()) && p.find("/../") == string::npos; }
static int header_dir(const string& p)
{
    size_t n = g_job.size();
    if (!ours(p) || p.size() < n + 3 || p[n + 1] != 'd' || p.find("_mabain_h") == string::npos || p.find("_mbh") != string::npos)
        return 0;
    int d = p[n + 2] - '0';
    return d >= 1 && d <= 2 ? d : 0;
}
static void renumber(const string& p, struct stat* st)
{
    int d = header_dir(p);
    if (!d || !S)
        return;
    for (int i = 0; i < S->ntab; i++)
        if (S->tab[i].d == st->st_dev && S->tab[i].real == st->st_ino) {
            st->st_ino = S->tab[i].virt;
            return;
        }
    ino_t v;
    if (S->reuse[d]) {
        v = S->reuse[d];
        S->reuse[d] = 0;
        S->reused++;
    } else
        v = 1000 + ++S->next;
    if (S->ntab < 512) {
        auto& t = S->tab[S->ntab++];
        t.d = st->st_dev;
        t.real = st->st_ino;
        t.virt = v;
    }
    S->last[d] = v;
    st->st_ino = v;
}
static void forget(const string& p) // the file goes: its real number may come again
{
    int d = header_dir(p);
    struct stat st;
    if (!d || !S || __real_stat(p.c_str(), &st))
        return;
    for (int i = 0; i < S->ntab; i++)
        if (S->tab[i].d == st.st_dev && S->tab[i].real == st.st_ino)
            S->tab[i].real = 0;
}
extern "C" {
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
    void* p = __real_mmap(a, n, prot, flags, fd, off);
    if (p != MAP_FAILED && fd >= 0 && (flags & MAP_SHARED)) {
        int i = nregs.load();
        for (int j = 0; j < i; j++)
            if (regs[j].a == regs[j].e) {
                regs[j].a = (uintptr_t)p;
                regs[j].e = (uintptr_t)p + n;
                return p;
            }
        if (i < 256) {
            regs[i].a = (uintptr_t)p;
            regs[i].e = (uintptr_t)p + n;
            nregs.store(i + 1);
        }
    }
    return p;
}
void* __wrap_mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, n, prot, flags, fd, off); }
int __wrap_munmap(void* p, size_t n)
{
    for (int i = 0; i < nregs.load(); i++)
        if (regs[i].a == (uintptr_t)p)
            regs[i].e = regs[i].a = 0;
    return __real_munmap(p, n);
}
int __wrap_open(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int m = va_arg(ap, int);
    va_end(ap);
    if (fl & (O_CREAT | O_TRUNC))
        event();
    return __real_open(place(p).c_str(), fl, m);
}
int __wrap_open64(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    int m = va_arg(ap, int);
    va_end(ap);
    return __wrap_open(p, fl, m);
}
int __wrap_access(const char* p, int m) { return __real_access(place(p).c_str(), m); }
DIR* __wrap_opendir(const char* p) { return __real_opendir(place(p).c_str()); }
int __wrap_remove(const char* p)
{
    event();
    string q = place(p);
    if (!ours(q)) {
        errno = EPERM;
        return -1;
    }
    forget(q);
    return __real_remove(q.c_str());
}
int __wrap_unlink(const char* p)
{
    event();
    string q = place(p);
    if (!ours(q)) {
        errno = EPERM;
        return -1;
    }
    forget(q);
    return __real_unlink(q.c_str());
}
int __wrap_rename(const char* a, const char* b)
{
    event();
    return __real_rename(place(a).c_str(), place(b).c_str());
}
int __wrap_stat(const char* p, struct stat* st)
{
    string q = place(p);
    int r = __real_stat(q.c_str(), st);
    if (!r)
        renumber(q, st);
    return r;
}
int __wrap_fstat(int fd, struct stat* st)
{
    int r = __real_fstat(fd, st);
    if (!r && S_ISREG(st->st_mode)) {
        char l[64], b[1024];
        snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(l, b, sizeof b - 1);
        if (n > 0) {
            b[n] = 0;
            renumber(b, st);
        }
    }
    return r;
}
FILE* __wrap_fopen(const char* p, const char* m)
{
    if (*m != 'r')
        event();
    return __real_fopen(place(p).c_str(), m);
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f) { return __real_fread(b, s, n, f); }
size_t __wrap_fwrite(const void* b, size_t s, size_t n, FILE* f)
{
    if (!t_off && g_die.load() == 1 && s > 8) { // half of it gets to the disk
        __real_fwrite(b, 1, s / 2, f);
        fflush(f);
    }
    event();
    return __real_fwrite(b, s, n, f);
}
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
    event();
    return __real_write(fd, b, n);
}
int __wrap_ftruncate(int fd, off_t n)
{
    event();
    return __real_ftruncate(fd, n);
}
int __wrap_fallocate(int fd, int m, off_t o, off_t n)
{
    event();
    return __real_fallocate(fd, m, o, n);
}
int __wrap_posix_fallocate(int fd, off_t o, off_t n)
{
    event();
    return __real_posix_fallocate(fd, o, n);
}
static void pieces(void* d, const void* s, int c, size_t n, bool set)
{
    size_t h = n > 1 && g_die.load(std::memory_order_relaxed) && shared_addr((uintptr_t)d) ? (n > 16 ? n / 16 * 8 : n / 2) : 0;
    if (h) {
        event();
        set ? __real_memset(d, c, h) : __real_memcpy(d, s, h);
        d = (char*)d + h;
        s = (const char*)s + h;
        n -= h;
    }
    store(d);
    set ? __real_memset(d, c, n) : __real_memcpy(d, s, n);
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    pieces(d, s, 0, n, false);
    return d;
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    store(d);
    return __real_memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    pieces(d, nullptr, c, n, true);
    return d;
}
void* __wrap_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
void __tsan_vptr_update(void**, void*) { }
void __tsan_vptr_read(void**) { }
void __tsan_acquire(void*) { }
void __tsan_release(void*) { }
#define RW(N)                                                       \
    void __tsan_read##N(void*) { }                                  \
    void __tsan_write##N(void* p) { store(p); }                     \
    void __tsan_unaligned_read##N(void*) { }                        \
    void __tsan_unaligned_write##N(void* p) { store(p); }           \
    void __tsan_volatile_read##N(void*) { }                         \
    void __tsan_volatile_write##N(void* p) { store(p); }            \
    void __tsan_unaligned_volatile_read##N(void*) { }               \
    void __tsan_unaligned_volatile_write##N(void* p) { store(p); }  \
    void __tsan_read_write##N(void* p) { store(p); }                \
    void __tsan_unaligned_read_write##N(void* p) { store(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, long) { }
void __tsan_write_range(void* p, long) { store(p); }
#define AT(B, T)                                                                                                                                    \
    T __tsan_atomic##B##_load(const volatile T* p, int) { return __atomic_load_n(p, 5); }                              \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) { store((void*)p); __atomic_store_n(p, v, 5); }                                    \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { store((void*)p); return __atomic_exchange_n(p, v, 5); }                          \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { store((void*)p); return __atomic_fetch_add(p, v, 5); }                          \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { store((void*)p); return __atomic_fetch_sub(p, v, 5); }                          \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { store((void*)p); return __atomic_fetch_and(p, v, 5); }                          \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { store((void*)p); return __atomic_fetch_or(p, v, 5); }                            \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { store((void*)p); return __atomic_fetch_xor(p, v, 5); }                          \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { store((void*)p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { store((void*)p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }   \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { store((void*)p); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) { }
}

// ---------------------------------------------------------------- data
enum { NH = 7, NP = 4 };
static int proc_of(int h) { return h == 7 ? 4 : (h - 1) / 2 + 1; }
static string key_of(int k)
{
    switch (k) {
    case 1: return "k";
    case 2: return "k" + string(60, 'e') + "1";
    case 3: return "k" + string(60, 'e') + "2x";
    case 4: return string("\0z", 2);
    default: return "other" + std::to_string(k);
    }
}
static string value_of(int k, int v)
{
    static const int L[] = { 8, 100, 30, 2000, 15, 400 };
    string s = "<" + std::to_string(k) + "." + std::to_string(v) + ">";
    while ((int)s.size() < L[(k + v) % 6])
        s += (char)(40 + (v * 5 + s.size()) % 80);
    return s;
}
static int decode(int k, const string& s)
{
    int kk, v;
    if (sscanf(s.c_str(), "<%d.%d>", &kk, &v) != 2 || kk != k || v <= 0)
        return -1;
    return s == value_of(k, v) ? v : -1;
}
// further keys that share the fate of a key
static string companion(int k, int i)
{
    string s = "c" + std::to_string(k);
    for (int n = i; n > 0; n /= 5)
        s += "abcde"[n % 5];
    return s + (i % 3 ? "" : string(i % 40 + 1, 'p')) + "!" + std::to_string(i);
}
static string companion_value(int k, int v, int i)
{
    string s = "{" + std::to_string(k) + "." + std::to_string(v) + "." + std::to_string(i) + "}";
    static const int L[] = { 10, 700, 60, 5000, 24, 1800, 12000 };
    int n = L[(k + v * 3 + i) % 7];
    while ((int)s.size() < n)
        s += (char)(40 + (v * 5 + i + s.size()) % 80);
    return s;
}
struct Job {
    string id;
    std::map<string, long> n;
    std::vector<std::vector<string>> ops;
    long get(const char* k, long d) const
    {
        auto i = n.find(k);
        return i == n.end() ? d : i->second;
    }
};
static string dir_of(const Job& j, int d) { return g_job + "/d" + std::to_string(d) + (j.get("sl", 1) ? "/" : ""); }

// ---------------------------------------------------------------- a process
struct Handle {
    DB* db = nullptr;
    int d = 0, m = 0;
};
static Handle hs[NH + 1];
static MBConfig config(const Job& j, int d, int m, int c)
{
    static string dir[4], qd;
    dir[d] = dir_of(j, d);
    qd = g_job + "/q";
    MBConfig f;
    memset(&f, 0, sizeof f);
    f.mbdir = dir[d].c_str();
    f.options = m ? CONSTS::WriterOptions() : CONSTS::ReaderOptions();
    if (m == 2)
        f.options |= CONSTS::ASYNC_WRITER_MODE;
    uint32_t ib = 4, db = 4;
    int q = 8;
    if (c == 1) db = 8;
    if (c == 8) ib = 8;
    if (c == 7) q = 4;
    if (c == 10) ib = db = 0;
    f.block_size_index = ib << 20;
    f.block_size_data = (db << 20) + (c == 2 ? 2 : 0);
    f.max_num_index_block = f.max_num_data_block = 4;
    f.memcap_index = (size_t)(ib ? ib : 4) * 4 << 20;
    f.memcap_data = (size_t)(db ? db : 4) * 4 << 20;
    f.num_entry_per_bucket = c == 3 ? 4 : 500;
    f.queue_size = q;
    if (j.get("qd", 0))
        f.queue_dir = qd.c_str();
    if (m && (c == 4 || c == 6 || c == 9))
        f.options |= CONSTS::OPTION_JEMALLOC;
    if (c == 6)
        f.jemalloc_keep_db = true;
    if (c == 9)
        f.memcap_data /= 2;
    if (c == 5)
        f.options |= CONSTS::OPTION_PREFIX_CACHE;
    return f;
}
static std::vector<string> split(const string& s, char c)
{
    std::vector<string> v;
    std::stringstream ss(s);
    string x;
    while (std::getline(ss, x, c))
        v.push_back(x);
    return v;
}
static int I(const std::vector<string>& a, size_t i) { return i < a.size() ? atoi(a[i].c_str()) : 0; }
static string run_cmd(const Job& j, const std::vector<string>& a)
{
    char o = a[0][0];
    int h = I(a, 1);
    char b[64];
    if (o == 'o') { // h d m c kill
        MBConfig f = config(j, I(a, 2), I(a, 3), I(a, 4));
        int wr = I(a, 3) != 0, dd = I(a, 2) & 3;
        if (wr)
            S->dirty[dd][0]++;
        g_die = I(a, 5);
        DB* db = new DB(f);
        g_die = 0;
        hs[h].db = db;
        hs[h].d = I(a, 2);
        hs[h].m = I(a, 3);
        int st = db->Status();
        if (wr && db->is_open())
            S->dirty[dd][0] = 0;
        else if (wr)
            S->dirty[dd][0]--;
        snprintf(b, sizeof b, "%d", db->is_open() ? 0 : st == 0 ? 99 : st);
        return b;
    }
    if (o == 'c') {
        g_die = I(a, 2);
        int r = hs[h].db->Close();
        delete hs[h].db;
        g_die = 0;
        hs[h].db = nullptr;
        snprintf(b, sizeof b, "%d", r);
        return b;
    }
    if (o == 'u') { // h op k ow kill v
        int k = I(a, 3), ow = I(a, 4), v = I(a, 6), r;
        string s = key_of(k), x = value_of(k, v);
        int bk = j.get("bk", 0), *dirty = S->dirty[hs[h].d & 3];
        if (bk && hs[h].m != 1)
            dirty[k & 7] = 1000000; // the companions stay as they are
        else if (bk) {
            for (int q = 1; q < 8; q++)
                dirty[q] += a[2] == "x" || q == k;
            g_die = I(a, 5);
            MBData md;
            bool has = hs[h].db->Find(s.data(), s.size(), md) == MBError::SUCCESS;
            if (a[2] == "x")
                r = hs[h].db->RemoveAll();
            else if (a[2] == "a") {
                r = 0;
                for (int i = 0; i < bk && !r && (ow || !has); i++) {
                    string cs = companion(k, i), cx = companion_value(k, v, i);
                    r = hs[h].db->Add(cs.data(), cs.size(), cx.data(), cx.size(), true);
                    if (r)
                        r += 1000;
                }
                if (!r)
                    r = hs[h].db->Add(s.data(), s.size(), x.data(), x.size(), ow);
            } else {
                r = hs[h].db->Remove(s.data(), s.size());
                int r2 = r;
                for (int i = 0; i < bk && !r2; i++) {
                    string cs = companion(k, (i * 7 + 3) % bk);
                    r2 = hs[h].db->Remove(cs.data(), cs.size());
                }
                if (!r && r2)
                    r = 1000 + r2;
            }
            g_die = 0;
            for (int q = 1; q < 8; q++)
                if (a[2] == "x")
                    dirty[q] = 0;
                else if (q == k && (r == 0 || dirty[q] < 1000000))
                    dirty[q] = r == 0 && a[2] == "a" ? 0 : dirty[q] - 1;
            snprintf(b, sizeof b, "%d", r);
            return b;
        }
        g_die = I(a, 5);
        if (a[2] == "a")
            r = hs[h].db->Add(s.data(), s.size(), x.data(), x.size(), ow);
        else if (a[2] == "r")
            r = hs[h].db->Remove(s.data(), s.size());
        else
            r = hs[h].db->RemoveAll();
        g_die = 0;
        snprintf(b, sizeof b, "%d", r);
        return b;
    }
    if (o == 'g') {
        string out;
        for (int k = 1; k <= j.get("nk", 3); k++) {
            MBData d;
            string s = key_of(k);
            int r = hs[h].db->Find(s.data(), s.size(), d), v = 0;
            if (r == MBError::SUCCESS)
                v = decode(k, string((char*)d.buff, d.data_len));
            else if (r != MBError::NOT_EXIST)
                v = -100 - r;
            int *dirty = S->dirty[hs[h].d & 3];
            if (v >= 0 && !dirty[0] && !dirty[k & 7])
                for (int i = 0; i < j.get("bk", 0) && v >= 0; i++) {
                    string cs = companion(k, i);
                    MBData cd;
                    r = hs[h].db->Find(cs.data(), cs.size(), cd);
                    if (v == 0 ? r != MBError::NOT_EXIST : r != MBError::SUCCESS || string((char*)cd.buff, cd.data_len) != companion_value(k, v, i))
                        v = -2;
                }
            out += (k > 1 ? "," : "") + std::to_string(v);
        }
        return out;
    }
    if (o == 'n') {
        long n = hs[h].db->Count(), bk = j.get("bk", 0);
        for (int q = 0; q < 8 && bk; q++)
            if (S->dirty[hs[h].d & 3][q])
                return "?";
        snprintf(b, sizeof b, "%ld", n % (bk + 1) ? -1 : n / (bk + 1));
        return b;
    }
    if (o == 'w') {
        g_die = I(a, 2);
        int i = 0;
        while (hs[h].db->AsyncWriterBusy() && i++ < 20000) {
            struct timespec ts = { 0, 500000 };
            nanosleep(&ts, nullptr);
        }
        g_die = 0;
        return i < 20000 ? "0" : "1";
    }
    if (o == 'b') {
        string d = dir_of(j, I(a, 2));
        for (int q = 0; q < 8; q++)
            S->dirty[I(a, 2) & 3][q] = q ? 1000000 : 0;
        g_die = I(a, 3);
        int r = hs[h].db->Backup(d.c_str());
        g_die = 0;
        if (r == 0)
            for (int q = 1; q < 8; q++)
                S->dirty[I(a, 2) & 3][q] = S->dirty[hs[h].d & 3][q];
        snprintf(b, sizeof b, "%d", r);
        return b;
    }
    if (o == 'z') {
        g_die = I(a, 2);
        int r = hs[h].db->CollectResource(0, 0, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
        g_die = 0;
        snprintf(b, sizeof b, "%d", r);
        return b;
    }
    return "?";
}
static void process_main(const Job& j, int in, int out)
{
    alarm(60);
    FILE* f = fdopen(in, "r");
    char line[256];
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        string r = run_cmd(j, split(line, ',')) + "\n";
        t_off = 1;
        (void)!__real_write(out, r.data(), r.size());
        t_off = 0;
    }
    _exit(0);
}

// ---------------------------------------------------------------- the controller
struct Proc {
    pid_t pid = 0;
    int in = -1, out = -1;
};
static Proc ps[NP + 1];
static string g_log;
static int hm[NH + 1], hd[NH + 1], hok[NH + 1]; // what the controller knows
static void note(const char* f, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    g_log += b;
    g_log += '\n';
}
static void start(const Job& j, int p)
{
    if (ps[p].pid)
        return;
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC))
        _exit(3);
    pid_t pid = fork();
    if (!pid) {
        for (int i = 1; i <= NP; i++)
            if (ps[i].pid) {
                close(ps[i].in);
                close(ps[i].out);
            }
        close(a[1]);
        close(b[0]);
        t_off = 0;
        process_main(j, a[0], b[1]);
    }
    close(a[0]);
    close(b[1]);
    ps[p].pid = pid;
    ps[p].in = a[1];
    ps[p].out = b[0];
}
static int g_lost; // a process ended by itself: signal or status
static void bury(int p)
{
    int st = 0;
    kill(ps[p].pid, SIGKILL);
    waitpid(ps[p].pid, &st, 0);
    g_lost = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
    close(ps[p].in);
    close(ps[p].out);
    ps[p] = Proc();
    for (int h = 1; h <= NH; h++)
        if (proc_of(h) == p)
            hm[h] = -1, hok[h] = 0, hd[h] = 0;
}
static void send(int p, const string& s) { (void)!__real_write(ps[p].in, (s + "\n").data(), s.size() + 1); }
// the answer, "!" when the process has died, "T" when it does not answer
static string recv(int p)
{
    string s;
    for (;;) {
        struct pollfd f = { ps[p].out, POLLIN, 0 };
        int r = poll(&f, 1, 40000);
        if (r == 0)
            return "T";
        char c;
        if (read(ps[p].out, &c, 1) != 1)
            return "!";
        if (c == '\n')
            return s;
        s += c;
    }
}
static string join(const std::vector<string>& v)
{
    string s;
    for (auto& x : v)
        s += (s.empty() ? "" : ",") + x;
    return s;
}
static bool g_bad;
// 0 done, 1 the process has died as asked
static int answered(int p, const string& r, bool may_die)
{
    if (r == "T") {
        bury(p);
        note("{\"e\":\"lost\",\"p\":%d,\"sig\":-1}", p);
        g_bad = true;
        return 2;
    }
    if (r == "!") {
        bury(p);
        if (!may_die || g_lost != SIGKILL) {
            note("{\"e\":\"lost\",\"p\":%d,\"sig\":%d}", p, g_lost);
            g_bad = true;
            return 2;
        }
        return 1;
    }
    return 0;
}
static void damage(const Job& j, int d, int kind)
{
    string dir = g_job + "/d" + std::to_string(d) + "/", h = dir + "_mabain_h";
    if (kind == 1) {
        if (truncate(h.c_str(), 4)) { }
    } else if (kind == 2) {
        int fd = __real_open(h.c_str(), O_RDWR);
        uint16_t v[4] = { 1, 2, 9, 0 };
        (void)!pwrite(fd, v, sizeof v, 0);
        close(fd);
    } else {
        DIR* D = __real_opendir(dir.c_str());
        struct dirent* e;
        while (D && (e = readdir(D))) {
            string n = e->d_name;
            if (n.compare(0, 8, "_mabain_") || (kind == 3 && n != "_mabain_h"))
                continue;
            forget(dir + n);
            __real_unlink((dir + n).c_str());
        }
        if (D)
            closedir(D);
        bool any = false;
        for (int p = 1; p <= NP; p++)
            any |= ps[p].pid != 0;
        if (!any && j.get("ir", 1))
            S->reuse[d] = S->last[d]; // nothing refers to the old file: its number can come again
    }
}
static bool used(int d)
{
    for (int h = 1; h <= NH; h++)
        if (hm[h] >= 0 && hd[h] == d)
            return true;
    return false;
}
static void run_job(const Job& j, const string& scratch)
{
    g_log.clear();
    g_bad = false;
    g_job = scratch + "/j" + std::to_string(getpid());
    for (const char* s : { "", "/d1", "/d2", "/shm", "/tmp", "/q" })
        mkdir((g_job + s).c_str(), 0777);
    memset((void*)S, 0, sizeof *S);
    for (int h = 1; h <= NH; h++)
        hm[h] = -1, hok[h] = 0, hd[h] = 0;
    int ver = 0;
    bool opened[NP + 1] = {};
    for (auto a : j.ops) {
        if (g_bad)
            break;
        char o = a[0][0];
        int h = I(a, 1), p = (o == 'k' || o == 'x' || o == 'r') ? 0 : proc_of(h);
        if (o == 'o') {
            if (hm[h] >= 0)
                continue;
            if (j.get("one", 0) && opened[p] && ps[p].pid) { // jemalloc: one open in the life of a process
                bury(p);
                note("{\"e\":\"k\",\"p\":%d}", p);
            }
            start(j, p);
            opened[p] = true;
            send(p, join(a));
            string r = recv(p);
            int t = answered(p, r, I(a, 5) > 0);
            note("{\"e\":\"o\",\"h\":%d,\"d\":%d,\"m\":\"%s\",\"c\":%d,\"r\":%s,\"die\":%d}", h, I(a, 2), I(a, 3) == 0 ? "r" : I(a, 3) == 1 ? "w" : "a", I(a, 4), t ? "-1" : r.c_str(), t);
            if (!t) {
                hm[h] = I(a, 3);
                hd[h] = I(a, 2);
                hok[h] = r == "0";
            }
        } else if (o == 'c') {
            if (hm[h] < 0)
                continue;
            send(p, join(a));
            string r = recv(p);
            int t = answered(p, r, I(a, 2) > 0);
            note("{\"e\":\"c\",\"h\":%d,\"r\":%s,\"die\":%d}", h, t ? "-1" : r.c_str(), t);
            if (!t)
                hm[h] = -1, hok[h] = 0;
        } else if (o == 'u') {
            if (hm[h] < 0 || !hok[h])
                continue;
            ver++;
            if (hm[h] != 1)
                a[5] = "0"; // interrupted submissions belong to the queue driver
            send(p, join(a) + "," + std::to_string(ver));
            string r = recv(p);
            int t = answered(p, r, I(a, 5) > 0);
            note("{\"e\":\"u\",\"h\":%d,\"op\":\"%s\",\"k\":%d,\"v\":%d,\"ow\":%d,\"r\":%s,\"die\":%d}", h, a[2].c_str(), I(a, 3), ver, I(a, 4), t ? "-1" : r.c_str(), t);
        } else if (o == 'g' || o == 'n') {
            if (hm[h] < 0 || !hok[h] || hm[h] == 2)
                continue;
            send(p, join(a));
            string r = recv(p);
            if (!answered(p, r, false) && r != "?")
                note(o == 'g' ? "{\"e\":\"g\",\"h\":%d,\"f\":[%s]}" : "{\"e\":\"n\",\"h\":%d,\"n\":%s}", h, r.c_str());
        } else if (o == 'w') {
            if (hm[h] != 2 || !hok[h])
                continue;
            send(p, join(a));
            string r = recv(p);
            int t = answered(p, r, I(a, 2) > 0);
            note("{\"e\":\"w\",\"h\":%d,\"r\":%s,\"die\":%d}", h, t ? "-1" : r.c_str(), t);
        } else if (o == 'b' || o == 'z') {
            if (hm[h] != 1 || !hok[h])
                continue;
            if (o == 'b' && I(a, 2) == hd[h])
                continue;
            send(p, join(a));
            string r = recv(p);
            int t = answered(p, r, I(a, o == 'b' ? 3 : 2) > 0);
            note("{\"e\":\"%c\",\"h\":%d,\"d\":%d,\"r\":%s,\"die\":%d}", o, h, o == 'b' ? I(a, 2) : 0, t ? "-1" : r.c_str(), t);
        } else if (o == 'k') {
            if (!ps[h].pid)
                continue;
            bury(h);
            note("{\"e\":\"k\",\"p\":%d}", h);
        } else if (o == 'x') {
            if (used(h))
                continue;
            string hp = g_job + "/d" + std::to_string(h) + "/_mabain_h";
            if (__real_access(hp.c_str(), F_OK))
                continue;
            if (I(a, 3)) // and nobody else is left
                for (int q = 1; q <= NP; q++)
                    if (ps[q].pid) {
                        bury(q);
                        note("{\"e\":\"k\",\"p\":%d}", q);
                    }
            damage(j, h, I(a, 2));
            note("{\"e\":\"x\",\"d\":%d,\"k\":%d}", h, I(a, 2));
        } else if (o == 'r') {
            string os, rs[4];
            int who[4] = { 0, 1, 3, 5 };
            for (int q = 1; q <= 3; q++) {
                int m = I(a, 2 + q);
                if (m < 0 || hm[who[q]] >= 0) {
                    who[q] = 0;
                    continue;
                }
                start(j, q);
            }
            for (int q = 1; q <= 3; q++)
                if (who[q])
                    send(q, "o," + std::to_string(who[q]) + "," + a[1] + "," + a[2 + q] + "," + a[2] + ",0");
            for (int q = 1; q <= 3; q++)
                if (who[q]) {
                    string r = recv(q);
                    if (answered(q, r, false))
                        break;
                    hm[who[q]] = I(a, 2 + q);
                    hd[who[q]] = I(a, 1);
                    hok[who[q]] = r == "0";
                    os += (os.empty() ? "" : ",") + string("{\"h\":") + std::to_string(who[q]) + ",\"m\":\"" + (I(a, 2 + q) ? "w" : "r") + "\",\"r\":" + r + "}";
                }
            if (!g_bad && !os.empty())
                note("{\"e\":\"r\",\"d\":%d,\"c\":%d,\"os\":[%s]}", I(a, 1), I(a, 2), os.c_str());
        }
    }
    for (int p = 1; p <= NP; p++)
        if (ps[p].pid)
            bury(p);
    note("{\"e\":\"stat\",\"reused\":%ld}", S->reused);
    t_off = 1;
    for (const char* s : { "/d1", "/d2", "/shm", "/tmp", "/q", "" }) {
        string d = g_job + s;
        DIR* D = __real_opendir(d.c_str());
        struct dirent* e;
        while (D && (e = readdir(D)))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                __real_unlink((d + "/" + e->d_name).c_str());
        if (D)
            closedir(D);
        rmdir(d.c_str());
    }
}

int main(int argc, char** argv)
{
    if (argc < 5)
        return 2;
    signal(SIGPIPE, SIG_IGN);
    Logger::SetLogLevel(LOG_LEVEL_ERROR);
    std::vector<Job> jobs;
    std::ifstream in(argv[1]);
    string line;
    while (std::getline(in, line)) {
        if (line.compare(0, 2, "J "))
            continue;
        Job j;
        auto parts = split(line.substr(2), '|');
        std::stringstream ss(parts[0]);
        ss >> j.id;
        string w;
        while (ss >> w) {
            size_t e = w.find('=');
            j.n[w.substr(0, e)] = atol(w.c_str() + e + 1);
        }
        for (auto& o : split(parts.size() > 1 ? parts[1] : "", ';')) {
            while (!o.empty() && o[0] == ' ')
                o.erase(0, 1);
            if (!o.empty())
                j.ops.push_back(split(o, ','));
        }
        jobs.push_back(j);
    }
    bool dbg = getenv("LDBG");
    int np = atoi(argv[4]);
    string out = argv[2];
    std::vector<pid_t> ch;
    for (int i = 0; i < np; i++) {
        pid_t pid = fork();
        if (pid) {
            ch.push_back(pid);
            continue;
        }
        S = (Shared*)__real_mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        int nul = __real_open("/dev/null", O_WRONLY);
        if (!dbg) {
            dup2(nul, 1);
            dup2(nul, 2);
        }
        FILE* f = __real_fopen((out + "." + std::to_string(i)).c_str(), "w");
        for (size_t n = i; n < jobs.size(); n += np) {
            run_job(jobs[n], argv[3]);
            fprintf(f, "@%s\n%s", jobs[n].id.c_str(), g_log.c_str());
            fflush(f);
        }
        fclose(f);
        _exit(0);
    }
    int bad = 0;
    for (pid_t p : ch) {
        int st;
        waitpid(p, &st, 0);
        bad |= st;
    }
    return bad ? 3 : 0;
}
