// Queue driver: one async writer process and several submitting processes run the real code under
// a cooperative scheduler.  Control moves between them only at accesses to the shared queue (and
// to its counters in the header) and at waits; time is virtual; any of them may be killed at any
// such point and the writer is then replaced.  Programs and coarse schedules come from the TLA+
// specifications (specs/queue), verdicts are TLC's (specs/queue/AsyncTrace).
//
//   qdrv JOBS OUT SCRATCH NPROC
//   job:  J <id> mode=.. seed=.. q=.. np=.. loc=.. rc=.. | p,op,k,b;p,op,k,b;... | schedule
// LINK: -Wl,--wrap=mmap -Wl,--wrap=mmap64 -Wl,--wrap=munmap -Wl,--wrap=poll -Wl,--wrap=nanosleep -Wl,--wrap=usleep -Wl,--wrap=time -Wl,--wrap=pthread_create -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_clocklock -Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset
// RT: none
#include "db.h"
#include "dict.h"
#include "error.h"
#include "logger.h"
#include "mabain_consts.h"
#include "shm_queue_mgr.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <fstream>
#include <linux/futex.h>
#include <map>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace mabain;
using std::string;

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_poll(struct pollfd*, nfds_t, int);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
time_t __real_time(time_t*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_clocklock(pthread_mutex_t*, clockid_t, const struct timespec*);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

// ---------------------------------------------------------------- scheduler
enum { CTRL = 15, MAXA = 8, LOGSZ = 1 << 20, MAXSCH = 4096 };
struct Ctl {
    std::atomic<int> turn; // who may run
    std::atomic<int> arrived[MAXA];
    std::atomic<int> go;
    std::atomic<int> done;
    int state[MAXA]; // 0 absent, 1 runnable, 2 finished, 3 dead
    long steps[MAXA], die_at[MAXA];
    int opdone[MAXA];
    long total, limit;
    long vtime; // in ms
    int idle; // consecutive idle waits of the writer
    unsigned rng;
    int mode, burst, cur;
    int nsch, pos;
    unsigned char sch[MAXSCH];
    int wait_op; // guided mode: run cur until its opdone exceeds this
    uint32_t wait_wi, wi;
    int wdeaths, loc;
    int stuck;
    int nlog;
    char log[LOGSZ];
};
static Ctl* C = nullptr;
static thread_local int t_actor = -1;
static int g_next_actor = -1; // for threads this process creates
static uintptr_t q_lo, q_hi, h_lo, h_hi;
static volatile uint32_t* p_wi;
static std::atomic<uint32_t>* p_qi;

static void futex_wait(std::atomic<int>* a, int v)
{
    struct timespec ts = { 0, 200000000 };
    syscall(SYS_futex, (int*)a, FUTEX_WAIT, v, &ts, nullptr, 0);
}
static void futex_wake(std::atomic<int>* a) { syscall(SYS_futex, (int*)a, FUTEX_WAKE, 1000, nullptr, nullptr, 0); }
static unsigned rnd()
{
    C->rng = C->rng * 1664525u + 1013904223u;
    return C->rng >> 8;
}
static void logf(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    int room = LOGSZ - C->nlog;
    int n = vsnprintf(C->log + C->nlog, room, f, ap);
    va_end(ap);
    if (n < room)
        C->nlog += n;
}
static void give(int to)
{
    C->turn.store(to);
    futex_wake(&C->turn);
}
static void await(int me)
{
    C->arrived[me].store(1);
    futex_wake(&C->arrived[me]);
    int n = 0;
    while (C->go.load()) {
        int t = C->turn.load();
        if (t == me)
            return;
        futex_wait(&C->turn, t);
        if (++n % 32 == 0 && getppid() == 1)
            _exit(9);
    }
}
static bool runnable(int a) { return a >= 0 && a < MAXA && C->state[a] == 1; }
static int any_runnable(bool not_writer, int but)
{
    int c[MAXA], n = 0;
    for (int a = not_writer ? 1 : 0; a < MAXA; a++)
        if (runnable(a) && a != but)
            c[n++] = a;
    return n ? c[rnd() % n] : -1;
}
// who runs the next step
static int choose(int me, bool blocked)
{
    if (C->mode == 0) { // guided by a behaviour of AsyncKV: entries are actors; each runs one operation
        if (!blocked && runnable(me) && me == C->cur) {
            if (me == 0 ? (C->wi == C->wait_wi && C->burst-- > 0) : C->opdone[me] == C->wait_op)
                return me;
        }
        while (C->pos < C->nsch) {
            int a = C->sch[C->pos++];
            if (runnable(a) && !(blocked && a == me)) {
                C->cur = a;
                C->wait_op = C->opdone[a];
                C->wait_wi = C->wi;
                C->burst = 300;
                return a;
            }
        }
    } else if (C->mode == 1) { // guided by a behaviour of ShmQueue: entries are single steps
        while (C->pos < C->nsch) {
            int a = C->sch[C->pos++];
            if (a == 100) { // the writer loses patience
                C->vtime += 10000;
                a = 0;
            } else if (a >= 50) { // death
                a -= 50;
                if (runnable(a))
                    C->die_at[a] = 1;
            }
            if (runnable(a) && !(blocked && a == me))
                return a;
        }
    }
    if (!blocked && C->burst > 0 && runnable(me)) {
        C->burst--;
        return me;
    }
    static const int B[] = { 0, 0, 0, 1, 1, 2, 3, 5, 8, 12, 20, 40, 90, 300 };
    C->burst = B[rnd() % (C->mode == 3 ? 6 : 14)];
    int a = any_runnable(false, blocked ? me : -1);
    return a >= 0 ? a : me;
}
static void point(bool blocked = false)
{
    int me = t_actor;
    if (me < 0 || !C->go.load(std::memory_order_relaxed))
        return;
    if (!C->arrived[me].load() || C->turn.load() != me)
        await(me);
    if (!C->go.load())
        return;
    C->steps[me]++;
    C->total++;
    if (p_wi)
        C->wi = *p_wi;
    if (C->total > C->limit) {
        C->stuck = 1;
        give(CTRL);
        await(me);
        return;
    }
    if (C->die_at[me] > 0 && C->steps[me] >= C->die_at[me]) {
        C->die_at[me] = 0;
        C->state[me] = 3;
        if (me == 0) {
            C->wdeaths++;
            logf("{\"e\":\"wdie\"}\n");
            give(CTRL);
        } else {
            logf("{\"e\":\"die\",\"p\":%d}\n", me);
            if (me == C->loc) { // in the process of the writer
                C->state[0] = 3;
                C->wdeaths++;
                give(CTRL);
            } else {
                int n = choose(me, true);
                give(n == me ? (int)CTRL : n);
            }
        }
        kill(getpid(), SIGKILL);
        for (;;)
            pause();
    }
    int n = choose(me, blocked);
    if (n != me) {
        give(n);
        await(me);
    }
}
static void finish_actor()
{
    int me = t_actor;
    point();
    C->state[me] = 2;
    int n = choose(me, true);
    t_actor = -1;
    if (n == me)
        n = CTRL;
    give(n);
}

// ---------------------------------------------------------------- interposition
static unsigned hcount = 0;
static inline void touch(const void* p, bool atomic)
{
    if (t_actor < 0)
        return;
    uintptr_t a = (uintptr_t)p;
    if (a >= q_lo && a < q_hi) {
        if (atomic || (++hcount * 2654435761u >> 29) < 3)
            point();
    } else if (a >= h_lo && a < h_hi) {
        uintptr_t o = a - h_lo;
        if (o == offsetof(IndexHeader, queue_index) || o == offsetof(IndexHeader, writer_index) || o == offsetof(IndexHeader, rc_flag) || o == offsetof(IndexHeader, rc_root_offset))
            point();
    }
}
static void reg_map(void* p, size_t n, int fd)
{
    char l[64], b[1024];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, b, sizeof b - 1);
    if (k <= 0)
        return;
    b[k] = 0;
    if (strstr(b, "/_mabain_q")) {
        q_lo = (uintptr_t)p;
        q_hi = q_lo + n;
    } else if (strstr(b, "/_mabain_h")) {
        h_lo = (uintptr_t)p;
        h_hi = h_lo + n;
        p_wi = (volatile uint32_t*)((char*)p + offsetof(IndexHeader, writer_index));
        p_qi = (std::atomic<uint32_t>*)((char*)p + offsetof(IndexHeader, queue_index));
    }
}
struct Start {
    void* (*f)(void*);
    void* a;
    int actor;
};
static void* start_thread(void* v)
{
    Start s = *(Start*)v;
    delete (Start*)v;
    t_actor = s.actor;
    return s.f(s.a);
}
extern "C" {
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
    void* p = __real_mmap(a, n, prot, flags, fd, off);
    if (p != MAP_FAILED && fd >= 0 && (flags & MAP_SHARED))
        reg_map(p, n, fd);
    return p;
}
void* __wrap_mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, n, prot, flags, fd, off); }
int __wrap_munmap(void* p, size_t n) { return __real_munmap(p, n); }
time_t __wrap_time(time_t* t)
{
    time_t r = C ? 1000000000 + C->vtime / 1000 : __real_time(nullptr);
    if (t)
        *t = r;
    return r;
}
int __wrap_poll(struct pollfd* f, nfds_t n, int ms)
{
    if (t_actor < 0 || !C->go.load())
        return __real_poll(f, n, ms);
    int r = __real_poll(f, n, 0);
    if (r == 0) {
        // an idle wait: over when there is nothing left to happen
        bool others = false;
        for (int a = 1; a < MAXA; a++)
            if (C->state[a] == 1)
                others = true;
        if (t_actor == 0 && !others) {
            const IndexHeader* h = (const IndexHeader*)h_lo;
            if (p_qi->load() == *p_wi && h->rc_flag.load() == 0) {
                give(CTRL);
                await(0);
                return __real_poll(f, n, 0);
            }
            if (++C->idle > 300) {
                C->stuck = 2;
                give(CTRL);
                await(0);
                return __real_poll(f, n, 0);
            }
        }
        C->vtime += ms;
    } else {
        C->idle = 0;
        C->vtime++;
    }
    point();
    return r;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b)
{
    if (t_actor < 0 || !C->go.load())
        return __real_nanosleep(a, b);
    C->vtime += 1 + a->tv_sec * 1000 + a->tv_nsec / 1000000;
    point(true);
    return 0;
}
int __wrap_usleep(useconds_t u)
{
    if (t_actor < 0 || !C->go.load())
        return __real_usleep(u);
    C->vtime += 1 + u / 1000;
    point(true);
    return 0;
}
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a)
{
    if (g_next_actor < 0)
        return __real_pthread_create(t, at, f, a);
    return __real_pthread_create(t, at, start_thread, new Start { f, a, g_next_actor });
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (t_actor < 0 || !C || !C->go.load())
        return __real_pthread_mutex_lock(m);
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) {
        if (!C->go.load())
            return __real_pthread_mutex_lock(m);
        point(true);
    }
    return r;
}
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{
    if (t_actor < 0 || !C || !C->go.load())
        return __real_pthread_mutex_clocklock(m, c, ts);
    for (int i = 0; i < 20; i++) { // a time-out comes after a few moves of others
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY)
            return r;
        point(true);
    }
    return ETIMEDOUT;
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    touch(s, false);
    touch(d, false);
    return __real_memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    touch(s, false);
    touch(d, false);
    return __real_memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    touch(d, false);
    return __real_memset(d, c, n);
}
void* __wrap_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
void __tsan_vptr_update(void**, void*) { }
void __tsan_vptr_read(void**) { }
void __tsan_acquire(void*) { }
void __tsan_release(void*) { }
#define RW(N)                                                       \
    void __tsan_read##N(void* p) { touch(p, false); }               \
    void __tsan_write##N(void* p) { touch(p, false); }              \
    void __tsan_unaligned_read##N(void* p) { touch(p, false); }     \
    void __tsan_unaligned_write##N(void* p) { touch(p, false); }    \
    void __tsan_volatile_read##N(void* p) { touch(p, false); }      \
    void __tsan_volatile_write##N(void* p) { touch(p, false); }     \
    void __tsan_unaligned_volatile_read##N(void* p) { touch(p, false); }  \
    void __tsan_unaligned_volatile_write##N(void* p) { touch(p, false); } \
    void __tsan_read_write##N(void* p) { touch(p, false); }         \
    void __tsan_unaligned_read_write##N(void* p) { touch(p, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long) { touch(p, false); }
void __tsan_write_range(void* p, long) { touch(p, false); }
#define AT(B, T)                                                                                                                                    \
    T __tsan_atomic##B##_load(const volatile T* p, int) { touch((const void*)p, true); return __atomic_load_n(p, 5); }                              \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) { touch((void*)p, true); __atomic_store_n(p, v, 5); }                                    \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { touch((void*)p, true); return __atomic_exchange_n(p, v, 5); }                          \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { touch((void*)p, true); return __atomic_fetch_add(p, v, 5); }                          \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { touch((void*)p, true); return __atomic_fetch_sub(p, v, 5); }                          \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { touch((void*)p, true); return __atomic_fetch_and(p, v, 5); }                          \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { touch((void*)p, true); return __atomic_fetch_or(p, v, 5); }                            \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { touch((void*)p, true); return __atomic_fetch_xor(p, v, 5); }                          \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { touch((void*)p, true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { touch((void*)p, true); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); }   \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { touch((void*)p, true); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) { }
}

// ---------------------------------------------------------------- the data
static const int NK = 8;
static string key_of(int k)
{
    switch (k) {
    case 1: return "a";
    case 2: return "ab";
    case 3: return "abcdefgh1";
    case 4: return "abcdefgh2";
    case 5: return "b" + string(200, 'x');
    case 6: return "b" + string(200, 'x') + "y";
    case 7: return string("c\0\0d", 4);
    default: return "c";
    }
}
static string value_of(int k, int id)
{
    static const int L[] = { 1, 9, 40, 300, 7, 31000, 12, 120 };
    size_t n = L[(id + k) % 8];
    string v = "<" + std::to_string(k) + "." + std::to_string(id) + ">";
    while (v.size() < n)
        v += (char)(33 + (id * 7 + v.size()) % 90);
    return v;
}
static int decode(int k, const string& v)
{
    int kk, id;
    if (sscanf(v.c_str(), "<%d.%d>", &kk, &id) != 2 || kk != k)
        return -1;
    return v == value_of(k, id) ? id : -1;
}
struct Op {
    int p, k, b, id;
    char op;
};
struct Job {
    string id;
    std::map<string, long> n;
    std::vector<Op> ops;
    std::vector<unsigned char> sch;
    long get(const char* k, long d) const
    {
        auto i = n.find(k);
        return i == n.end() ? d : i->second;
    }
};
static MBConfig& config(const Job& j, const string& dir, bool writer, bool async)
{
    static string d, q;
    d = dir + "/db/";
    q = dir + "/q";
    static MBConfig m;
    memset(&m, 0, sizeof m);
    m.mbdir = d.c_str();
    m.options = writer ? CONSTS::WriterOptions() : CONSTS::ReaderOptions();
    if (async)
        m.options |= CONSTS::ASYNC_WRITER_MODE;
    m.block_size_index = m.block_size_data = 4 << 20;
    m.max_num_index_block = m.max_num_data_block = 8;
    m.memcap_index = m.memcap_data = 32 << 20;
    m.num_entry_per_bucket = 500;
    m.queue_size = j.get("q", 4);
    m.queue_dir = q.c_str();
    return m;
}
static string ballast(int i)
{
    char b[32];
    snprintf(b, sizeof b, "z%04d", i * 37 % 1000);
    return b;
}
static void preload(const Job& j, const string& dir)
{
    DB w(config(j, dir, true, false));
    if (!w.is_open()) {
        logf("{\"e\":\"bad\",\"what\":\"preload\",\"r\":%d}\n", w.Status());
        return;
    }
    int nb = j.get("bal", 0);
    for (int i = 0; i < nb; i++) {
        string k = ballast(i), v = "B" + k;
        if (j.get("rc", 0)) // garbage in front of it
            w.Add("g" + k, string(20, 'g'), false);
        w.Add(k.data(), k.size(), v.data(), v.size(), false);
    }
    for (int k = 1; k <= NK; k++)
        if (j.get("init", 0) >> k & 1) {
            string s = key_of(k), v = value_of(k, k);
            w.Add(s.data(), s.size(), v.data(), v.size(), false);
        }
    if (j.get("rc", 0))
        for (int i = 0; i < nb; i++)
            w.Remove("g" + ballast(i));
    w.Close();
}
static void run_program(const Job& j, int p, DB& db)
{
    point();
    for (const Op& o : j.ops) {
        if (o.p != p)
            continue;
        string k = o.k ? key_of(o.k) : "";
        int r = 0;
        if (o.op == 'g') {
            MBData d;
            int v = 0;
            r = db.Find(k.data(), k.size(), d);
            if (r == MBError::SUCCESS)
                v = decode(o.k, string((char*)d.buff, d.data_len));
            else if (r != MBError::NOT_EXIST)
                v = -100 - r;
            logf("{\"e\":\"g\",\"p\":%d,\"k\":%d,\"v\":%d}\n", p, o.k, v);
            C->opdone[p]++;
            point();
            continue;
        }
        logf("{\"e\":\"c\",\"p\":%d,\"op\":\"%c\",\"k\":%d,\"id\":%d,\"ow\":%d}\n", p, o.op == 'A' ? 'a' : o.op == 'D' ? 'r' : o.op, o.k, o.id, o.b);
        if (o.op == 'a' || o.op == 'A') {
            string v = value_of(o.k, o.id);
            if (o.op == 'A')
                r = db.AddAsync(k.data(), k.size(), v.data(), v.size(), o.b);
            else
                r = db.Add(k.data(), k.size(), v.data(), v.size(), o.b);
        } else if (o.op == 'r')
            r = db.Remove(k.data(), k.size());
        else if (o.op == 'D')
            r = db.RemoveAsync(k.data(), k.size());
        else if (o.op == 'x')
            r = db.RemoveAll();
        else if (o.op == 'R')
            r = db.CollectResource(1, 1, MAX_6B_OFFSET, MAX_6B_OFFSET);
        logf("{\"e\":\"r\",\"p\":%d,\"r\":%d}\n", p, r);
        C->opdone[p]++;
        point();
    }
}
struct LocalArg {
    const Job* j;
    string dir;
    DB* db;
    int p;
};
static void* local_main(void* v)
{
    LocalArg* a = (LocalArg*)v;
    run_program(*a->j, a->p, *a->db);
    finish_actor();
    return nullptr;
}
static void writer_main(const Job& j, const string& dir, int loc)
{
    g_next_actor = 0;
    DB w(config(j, dir, true, true));
    g_next_actor = -1;
    if (!w.is_open()) {
        logf("{\"e\":\"bad\",\"what\":\"writer\",\"r\":%d}\n", w.Status());
        C->stuck = 3;
        C->arrived[0].store(2);
        futex_wake(&C->arrived[0]);
        return;
    }
    DB* l = nullptr;
    pthread_t lt;
    LocalArg la;
    if (loc) {
        l = new DB(config(j, dir, false, false));
        la = { &j, dir, l, loc };
        g_next_actor = loc;
        if (l->is_open()) {
            C->state[loc] = 1;
            __wrap_pthread_create(&lt, nullptr, local_main, &la);
        } else
            loc = 0;
        g_next_actor = -1;
    }
    while (!C->done.load())
        futex_wait(&C->done, 0);
    if (C->done.load() == 2) {
        if (loc)
            pthread_join(lt, nullptr);
        if (l) {
            l->Close();
            delete l;
        }
        w.Close();
        _exit(0);
    }
    _exit(0);
}
static void submitter_main(const Job& j, const string& dir, int p)
{
    DB db(config(j, dir, false, false));
    if (!db.is_open()) {
        logf("{\"e\":\"bad\",\"what\":\"submitter\",\"r\":%d}\n", db.Status());
        C->state[p] = 2;
        C->stuck = 3;
        C->arrived[p].store(2);
        futex_wake(&C->arrived[p]);
        return;
    }
    t_actor = p;
    run_program(j, p, db);
    finish_actor();
    db.Close();
}
static void observe(const Job& j, const string& dir)
{
    DB db(config(j, dir, false, false));
    if (!db.is_open()) {
        logf("{\"e\":\"bad\",\"what\":\"reader\",\"r\":%d}\n", db.Status());
        return;
    }
    string s = "{\"e\":\"end\",\"f\":[";
    long n = 0;
    for (int k = 1; k <= NK; k++) {
        string q = key_of(k);
        MBData d;
        int v = 0, r = db.Find(q.data(), q.size(), d);
        if (r == MBError::SUCCESS)
            v = decode(k, string((char*)d.buff, d.data_len)), n++;
        else if (r != MBError::NOT_EXIST)
            v = -100 - r;
        s += (k > 1 ? "," : "") + std::to_string(v);
    }
    int nb = j.get("bal", 0), gone = 0, lost = 0;
    for (int i = 0; i < nb; i++) {
        string q = ballast(i);
        MBData d;
        int r = db.Find(q.data(), q.size(), d);
        if (r == MBError::NOT_EXIST)
            gone++;
        else if (r != MBError::SUCCESS || string((char*)d.buff, d.data_len) != "B" + q)
            lost++;
    }
    long it = 0, nbal = 0;
    bool bad = false;
    for (DB::iterator i = db.begin(false, false); i != db.end(); ++i) {
        if (i.key.size() == 5 && i.key[0] == 'z')
            nbal++;
        else
            it++;
        if (it + nbal > 3000)
            bad = true;
        if (bad)
            break;
    }
    char t[200];
    // extra entries: seen by iteration or counted without being found
    snprintf(t, sizeof t, "],\"n\":%ld,\"c\":%ld,\"b\":%d,\"lost\":%d}\n", it + (nbal == nb - gone - lost ? 0 : 1000), (long)db.Count() - nbal, nb ? (gone == 0 ? 1 : gone == nb ? 0 : 2) : -1, lost + (bad ? 1000 : 0));
    logf("%s%s", s.c_str(), t);
    db.Close();
}
static void rmtree(const string& d)
{
    DIR* dp = opendir(d.c_str());
    if (!dp)
        return;
    while (dirent* e = readdir(dp)) {
        string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        string p = d + "/" + n;
        struct stat st;
        if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode))
            rmtree(p);
        else
            unlink(p.c_str());
    }
    closedir(dp);
    rmdir(d.c_str());
}
template <class F> static pid_t spawn(F f)
{
    pid_t p = fork();
    if (p == 0) {
        f();
        _exit(0);
    }
    return p;
}
// waits with a limit on real time; -1 if it did not come
static bool wait_arrived(int a)
{
    for (int i = 0; i < 60; i++) {
        if (C->arrived[a].load())
            return true;
        futex_wait(&C->arrived[a], 0);
    }
    return false;
}
static void run_job(const Job& j, const string& base, FILE* out)
{
    static int cnt = 0;
    string dir = base + "/r" + std::to_string(cnt++ % 2);
    rmtree(dir);
    mkdir(dir.c_str(), 0777);
    mkdir((dir + "/db").c_str(), 0777);
    mkdir((dir + "/q").c_str(), 0777);
    int np = j.get("np", 2), loc = j.get("loc", 0);
    C->turn.store(CTRL);
    C->go.store(1);
    C->done.store(0);
    for (int a = 0; a < MAXA; a++) {
        C->arrived[a].store(0);
        C->state[a] = 0;
        C->steps[a] = 0;
        C->die_at[a] = 0;
        C->opdone[a] = 0;
    }
    C->total = 0;
    C->limit = 400000;
    C->vtime = 0;
    C->wi = 0;
    C->idle = 0;
    C->rng = j.get("seed", 1) * 2654435761u + 12345;
    for (int i = 0; i < 8; i++)
        rnd();
    C->mode = j.get("mode", 2);
    C->burst = 0;
    C->cur = -1;
    C->nsch = std::min<int>(j.sch.size(), MAXSCH);
    if (C->nsch)
        __real_memcpy(C->sch, j.sch.data(), C->nsch);
    C->pos = 0;
    C->wdeaths = 0;
    C->loc = loc;
    C->stuck = 0;
    C->nlog = 0;
    // fault plan
    if (j.get("kill", 0))
        C->die_at[1 + rnd() % np] = 1 + rnd() % 60;
    int wkill = j.get("wkill", 0) ? 5 + rnd() % j.get("wkill", 0) : 0;
    int st;
    pid_t pre = spawn([&] { preload(j, dir); });
    waitpid(pre, &st, 0);
    string init = "{\"e\":\"new\",\"f\":[";
    for (int k = 1; k <= NK; k++)
        init += (k > 1 ? "," : "") + std::to_string(j.get("init", 0) >> k & 1 ? k : 0);
    logf("%s],\"src\":\"%s\"}\n", init.c_str(), j.id.c_str());
    std::vector<pid_t> kids;
    C->state[0] = 1;
    C->die_at[0] = wkill;
    pid_t wp = spawn([&] { writer_main(j, dir, loc); });
    bool ok = wait_arrived(0);
    if (ok && loc && C->stuck == 0)
        ok = wait_arrived(loc);
    for (int p = 1; p <= np && ok && !C->stuck; p++) {
        if (p == loc)
            continue;
        C->state[p] = 1;
        kids.push_back(spawn([&] { submitter_main(j, dir, p); }));
        ok = wait_arrived(p);
    }
    if (!ok)
        logf("{\"e\":\"bad\",\"what\":\"start\",\"r\":0}\n");
    bool drained = false;
    while (ok && !C->stuck) {
        give(choose(CTRL, true));
        long last = -1;
        int same = 0;
        while (C->turn.load() != CTRL && same < 100) {
            int t = C->turn.load();
            if (t != CTRL)
                futex_wait(&C->turn, t);
            if (C->total == last) {
                same++;
                // somebody ended without passing control on
                int tt = C->turn.load();
                pid_t x = waitpid(-1, &st, WNOHANG);
                if (x > 0 && WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) {
                    logf("{\"e\":\"bad\",\"what\":\"signal %d\",\"r\":%d}\n", WTERMSIG(st), tt);
                    C->stuck = 4;
                    break;
                }
            } else
                same = 0;
            last = C->total;
        }
        if (C->stuck)
            break;
        if (same >= 100) {
            logf("{\"e\":\"bad\",\"what\":\"hang\",\"r\":%d}\n", C->turn.load());
            break;
        }
        if (C->state[0] == 3) { // the writer was killed: its successor
            waitpid(wp, &st, 0);
            if (loc && C->state[loc] == 1) {
                C->state[loc] = 3;
                logf("{\"e\":\"die\",\"p\":%d}\n", loc);
            }
            C->arrived[0].store(0);
            C->state[0] = 1;
            C->idle = 0;
            wp = spawn([&] { writer_main(j, dir, 0); });
            if (!wait_arrived(0)) {
                logf("{\"e\":\"bad\",\"what\":\"restart\",\"r\":0}\n");
                break;
            }
            if (C->arrived[0].load() == 2)
                break;
            continue;
        }
        bool others = false;
        for (int a = 1; a < MAXA; a++)
            others |= C->state[a] == 1;
        if (!others && runnable(0) && C->turn.load() == CTRL) {
            // the writer gave control back because it has nothing to do, or a submitter did
            // because nobody else was left: let the writer find out
            static thread_local long seen = -1;
            if (C->total == seen || C->idle >= 0) {
                // is it drained?
                volatile uint32_t wi, qi;
                int fd = open((dir + "/db/_mabain_h").c_str(), O_RDONLY);
                IndexHeader* h = (IndexHeader*)malloc(sizeof(IndexHeader));
                ssize_t n = pread(fd, (void*)h, sizeof(IndexHeader), 0);
                close(fd);
                wi = h->writer_index;
                qi = h->queue_index.load();
                int rf = h->rc_flag.load();
                free(h);
                if (n > 0 && wi == qi && rf == 0) {
                    drained = true;
                    break;
                }
            }
            seen = C->total;
        }
    }
    if (getenv("QDBG")) fprintf(stderr, "stuck %d vtime %ld turn %d state %d %d %d %d %d steps %ld %ld %ld %ld %ld\n", C->stuck, C->vtime, C->turn.load(), C->state[0], C->state[1], C->state[2], C->state[3], C->state[4], (long)C->steps[0], (long)C->steps[1], (long)C->steps[2], (long)C->steps[3], (long)C->steps[4]);
    if (C->stuck && C->stuck < 3)
        logf("{\"e\":\"bad\",\"what\":\"not drained\",\"r\":%d}\n", C->stuck);
    C->done.store(drained && j.get("close", 0) ? 2 : 1);
    C->go.store(0);
    futex_wake(&C->turn);
    futex_wake(&C->done);
    if (!drained) {
        kill(wp, SIGKILL);
        for (pid_t p : kids)
            kill(p, SIGKILL);
    }
    for (pid_t p : kids)
        waitpid(p, &st, 0);
    if (C->done.load() == 1)
        kill(wp, SIGKILL);
    waitpid(wp, &st, 0);
    if (drained) {
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL)
            logf("{\"e\":\"bad\",\"what\":\"close %d\",\"r\":0}\n", WTERMSIG(st));
        pid_t o = spawn([&] { alarm(20); observe(j, dir); });
        waitpid(o, &st, 0);
        if (WIFSIGNALED(st))
            logf("{\"e\":\"bad\",\"what\":\"observe %d\",\"r\":0}\n", WTERMSIG(st));
    }
    fwrite(C->log, 1, C->nlog, out);
    fprintf(out, "# steps %ld wdeaths %d\n", C->total, C->wdeaths);
    fflush(out);
    rmtree(dir);
}
static void on_sig(int n)
{
    void* b[40];
    int k = backtrace(b, 40);
    backtrace_symbols_fd(b, k, 2);
    signal(n, SIG_DFL);
    raise(n);
}
int main(int argc, char** argv)
{
    if (getenv("QBT"))
        signal(SIGSEGV, on_sig), signal(SIGABRT, on_sig);
    if (argc < 5)
        return 2;
    std::vector<Job> jobs;
    std::ifstream in(argv[1]);
    string ln;
    while (std::getline(in, ln)) {
        if (ln.size() < 2 || ln[0] != 'J')
            continue;
        Job j;
        size_t a = ln.find('|'), b = ln.find('|', a + 1);
        std::istringstream hs(ln.substr(1, a - 1));
        string t;
        hs >> j.id;
        while (hs >> t) {
            size_t e = t.find('=');
            j.n[t.substr(0, e)] = atol(t.c_str() + e + 1);
        }
        std::istringstream os(ln.substr(a + 1, b - a - 1));
        int id = 100;
        while (std::getline(os, t, ';')) {
            Op o;
            char c;
            if (sscanf(t.c_str(), " %d,%c,%d,%d", &o.p, &c, &o.k, &o.b) == 4) {
                o.op = c;
                o.id = id++;
                j.ops.push_back(o);
            }
        }
        std::istringstream ss(ln.substr(b + 1));
        int x;
        while (ss >> x)
            j.sch.push_back(x);
        jobs.push_back(j);
    }
    int nproc = atoi(argv[4]);
    signal(SIGPIPE, SIG_IGN);
    for (int w = 0; w < nproc; w++)
        if (fork() == 0) {
            C = (Ctl*)__real_mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            string base = string(argv[3]) + "/w" + std::to_string(w);
            mkdir(base.c_str(), 0777);
            FILE* out = fopen((string(argv[2]) + "." + std::to_string(w)).c_str(), "w");
            for (size_t i = w; i < jobs.size(); i += nproc)
                run_job(jobs[i], base, out);
            fclose(out);
            rmtree(base);
            _exit(0);
        }
    int st, rc = 0;
    while (wait(&st) > 0)
        if (!WIFEXITED(st) || WEXITSTATUS(st))
            rc = 3;
    return rc;
}
