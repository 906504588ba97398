// Crash and concurrency driver: replays behaviours drawn from the TLA+ specification with every
// store to shared memory logged, then
//   mode=crash  rebuilds the files as they were after the first k stores of an operation and lets
//               a reader, the next writer and all later operations loose on them
//   mode=read   runs lookups while the writer is at any point of its log and moves on at any load
// Verdicts are TLC's (specs/kv/KVCrash, specs/kv/KVRead).
//
//   ccdrv JOBS OUT SCRATCH NPROC
// LINK: -Wl,--wrap=mmap -Wl,--wrap=mmap64 -Wl,--wrap=munmap -Wl,--wrap=pwrite -Wl,--wrap=pwrite64 -Wl,--wrap=pread -Wl,--wrap=pread64 -Wl,--wrap=ftruncate -Wl,--wrap=ftruncate64 -Wl,--wrap=fallocate -Wl,--wrap=fallocate64 -Wl,--wrap=open -Wl,--wrap=open64 -Wl,--wrap=nanosleep -Wl,--wrap=usleep -Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset -Wl,--wrap=memcmp
#include "jobs.h"
#include "shmrt.h"
#include <execinfo.h>
#include <sys/prctl.h>
using namespace kv;

struct Buf {
    size_t len;
    int stage;
    char s[1 << 20];
    void add(const string& t)
    {
        if (len + t.size() + 200 < sizeof s) {
            memcpy(s + len, t.data(), t.size());
            len += t.size();
            s[len++] = '\n';
        }
    }
};

static string num(long v) { return std::to_string(v); }
static string arr(const vector<int>& v)
{
    string o = "[";
    for (size_t i = 0; i < v.size(); i++)
        o += (i ? "," : "") + num(v[i]);
    return o + "]";
}

struct CC {
    Jobs& J;
    int hi, ci;
    Keyspace& ks;
    const Hist& h;
    const Config& c;
    string dir, outfile;
    std::map<string, string> opt;
    Uniq uniq;
    Buf* buf;
    Written wr;
    bool extras = true;
    long nfill = 0;
    DB* w = nullptr;
    unsigned rng;
    vector<string> prefix; // records of the completed operations

    CC(Jobs& j, int a, int b, const string& d, const string& o)
        : J(j), hi(a), ci(b), ks(j.kss[b]), h(j.hs[a]), c(j.kss[b].cfg), dir(d), outfile(o), wr(j.u.N())
    {
        opt = parse_kv(j.cl[b]);
        buf = (Buf*)mmap(0, sizeof(Buf), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        shm::R.at = (long*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        // the choices depend on the behaviour and the configuration only
        rng = 12345;
        for (auto& o_ : h)
            rng = rng * 1000003u + o_.op[0] * 31u + o_.k * 7u + o_.a * 3u + o_.b;
        for (char ch : j.cl[b])
            rng = rng * 1000003u + (unsigned char)ch;
    }
    unsigned rnd(unsigned n)
    {
        rng = rng * 1103515245u + 12345u;
        return n ? (rng >> 8) % n : 0;
    }
    long onum(const char* k, long d) const
    {
        auto i = opt.find(k);
        return i == opt.end() ? d : atol(i->second.c_str());
    }
    string src(int op, long k) const { return num(hi) + ":" + num(ci) + ":" + num(op) + ":" + num(k); }

    // ---- one operation through a writer handle; returns its trace record without observations
    string apply(DB* x, int i, int* res = nullptr)
    {
        const Op& o = h[i];
        int r = 0;
        string ev;
        if (o.op == "a") {
            wr.add(o.k, i + 1, o.b);
            string v = value_of(c, o.k, i + 1, o.b);
            Exact ek(ks.key[o.k]), evv(v);
            r = rcode(x->Add(ek.p, ek.n, evv.p, evv.n, o.a == 1));
            ev = "{\"e\":\"a\",\"k\":" + num(o.k) + ",\"ow\":" + num(o.a) + ",\"v\":" + num(i + 1);
        } else if (o.op == "r") {
            Exact ek(ks.key[o.k]);
            r = rcode(x->Remove(ek.p, ek.n));
            ev = "{\"e\":\"r\",\"k\":" + num(o.k);
        } else if (o.op == "A") {
            r = rcode(x->RemoveAllSync());
            ev = "{\"e\":\"A\"";
            extras = false;
        } else {
            string what = c.op[o.op == "N" ? 0 : o.op == "O" ? 1 : 2];
            if (what == "rc")
                r = rcode(x->CollectResource(o.b == 3 ? 2 : 1, o.b == 2 ? 2 : 1));
            ev = "{\"e\":\"n\",\"what\":\"" + what + "\"";
        }
        ev += ",\"r\":" + num(r);
        if (res)
            *res = r;
        return ev;
    }
    string obs(DB* x, const string& what, bool full, int pick, const char* handle)
    {
        return "{\"h\":\"" + string(handle) + "\"" + observe(*x, ks, wr, what, full, pick, nfill, extras) + "}";
    }
    void add_extras(DB* x)
    {
        for (auto& k : ks.ballast) {
            string v = ballast_value(k);
            x->Add(k.data(), k.size(), v.data(), v.size(), false);
        }
        size_t tot = 0;
        string v(30000, 'F');
        while (tot < c.fillD) {
            string k = filler_key(nfill++);
            size_t l = std::min<size_t>(30000, c.fillD - tot);
            x->Add(k.data(), k.size(), v.data(), l < 1 ? 1 : l, false);
            tot += l + 4;
        }
        for (int i = 0; i < c.fillI; i++) {
            string k = filler_key(nfill++, true);
            x->Add(k.data(), k.size(), "f", 1, false);
        }
    }
    string candidate_op(int i) const
    {
        const Op& o = h[i];
        string t = o.op == "a" || o.op == "r" || o.op == "A" ? o.op : "n";
        return "{\"e\":\"crash\",\"op\":\"" + t + "\",\"k\":" + num(o.k) + ",\"ow\":" + num(o.a) + ",\"v\":" + num(i + 1);
    }

    // ---------------------------------------------------------------- crash mode
    // runs in a child: what a reader and the next writers make of the files in x
    void aftermath(const string& x, int i, bool nested_allowed, long k)
    {
        Buf& b = *buf;
        if (h[i].op == "a")
            wr.add(h[i].k, i + 1, h[i].b);
        string q = dir + "/q";
        mkdir(q.c_str(), 0777);
        DB* r = nullptr;
        bool ro = onum("ro", 1);
        if (ro) {
            b.stage = 1;
            MBConfig m = mbconfig(c, x, false, q);
            r = new DB(m);
            if (!r->is_open())
                b.add("{\"e\":\"ro\",\"o\":[{\"h\":\"r\",\"dead\":[" + num(r->Status()) + "]}]}");
            else {
                string o = obs(r, "f", true, i, "r");
                string l = obs(r, "l", true, i, "r");
                b.add("{\"e\":\"ro\",\"o\":[" + o + "," + l + "]}");
            }
        }
        b.stage = 2;
        bool nested = nested_allowed && rnd(100) < (unsigned)onum("nest", 4);
        shm::Image img;
        if (nested) {
            img.load(x);
            shm::g_root = x + "/";
            shm::start();
        }
        MBConfig m = mbconfig(c, x, true, q);
        DB* y = new DB(m);
        if (nested) {
            shm::stop();
            // the recovering process dies as well
            long L = shm::R.log.size(), kk = rnd(L + 1);
            img.apply(shm::R, 0, kk, x);
            string x2 = x + "2";
            rmtree(x2);
            img.write(x2);
            b.add("{\"e\":\"again\"}");
            string keep = x2;
            // continue in a process of its own that has none of the handles
            aftermath_exec(x2, i);
            return;
        }
        if (!y->is_open()) {
            b.add("{\"e\":\"openfail\",\"r\":" + num(y->Status()) + "}");
            return;
        }
        b.stage = 3;
        b.add("{\"e\":\"recover\",\"o\":[" + obs(y, "fl", true, i, "w") + "," + obs(y, "ibx", true, i, "w") + "]}");
        int F = onum("follow", 5), n = h.size();
        for (int j = i + 1; j < n && j <= i + F; j++) {
            b.stage = 10 + j - i;
            string ev = apply(y, j);
            bool last = j == n - 1 || j == i + F;
            string o = obs(y, last ? "filb" : "f", true, j, "w");
            if (r && r->is_open()) {
                string o2 = obs(r, "f", true, j, "r");
                o += "," + o2;
            }
            b.add(ev + ",\"o\":[" + o + "]}");
        }
        b.stage = 4;
        if (onum("rcafter", 0)) {
            int res = rcode(y->CollectResource(1, 1));
            b.add("{\"e\":\"n\",\"what\":\"rc\",\"r\":" + num(res) + ",\"o\":[" + obs(y, "filb", true, i, "w") + "]}");
        }
        if (r) {
            r->Close();
            delete r;
        }
        y->Close();
        delete y;
        b.stage = 5;
        y = new DB(m);
        if (!y->is_open()) {
            b.add("{\"e\":\"openfail\",\"r\":" + num(y->Status()) + "}");
            return;
        }
        b.add("{\"e\":\"n\",\"what\":\"reopen\",\"r\":0,\"o\":[" + obs(y, "filbx", true, i, "w") + "]}");
        y->Close();
        delete y;
    }
    void aftermath_exec(const string& x2, int i)
    {
        shm::g_root = "/nonexistent/";
        aftermath(x2, i, false, 0);
    }
    void crash_points(int i, const shm::Image& before, long L, const string& db)
    {
        long maxk = onum("maxk", 40);
        vector<long> ks_;
        if (L <= maxk)
            for (long k = 0; k < L; k++)
                ks_.push_back(k);
        else {
            std::set<long> s;
            while ((long)s.size() < maxk)
                s.insert(rnd(L));
            ks_.assign(s.begin(), s.end());
        }
        shm::Image img = before;
        long at = 0;
        for (long k : ks_) {
            if (enough())
                break;
            img.apply(shm::R, at, k, db);
            at = k;
            string x = dir + "/x";
            rmtree(x);
            img.write(x);
            buf->len = 0;
            buf->stage = 0;
            unsigned seed = rng;
            rnd(1);
            pid_t p = fork();
            if (p == 0) {
                alarm(20);
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                rng = seed * 31 + k;
                shm::R.on = shm::R.replay = false;
                shm::R.nosleep = true;
                shm::g_root = "/nonexistent/";
                DB::ClearResources(db);
                aftermath(x, i, true, k);
                _exit(0);
            }
            int st;
            waitpid(p, &st, 0);
            if ((!WIFEXITED(st) || WEXITSTATUS(st)) && ++died())
                buf->add("{\"e\":\"died\",\"stage\":" + num(buf->stage) + ",\"sig\":" + num(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "}");
            string t;
            for (auto& s : prefix)
                t += s + "\n";
            t += candidate_op(i) + "}\n";
            t.append(buf->s, buf->len);
            uniq.add(t, src(i, k));
            rmtree(x);
            rmtree(dir + "/x2");
            rmtree(dir + "/xq");
        }
    }

    // ---------------------------------------------------------------- read mode
    static const int TRY = -3;
    int look(DB* r, int kind, int s, bool lpm)
    {
        int a;
        if (lpm) {
            a = q_lpm(*r, ks, wr, kind, s);
        } else
            a = q_find(*r, ks, wr, kind, s);
        if (a == ERRBASE - MBError::TRY_AGAIN)
            return TRY;
        return a;
    }
    // ops [i, i+cnt) are in the log with boundaries B
    void reads(int i, int cnt, const vector<long>& B, const string& db, std::set<string>& looks)
    {
        long L = B.back();
        if (L == 0)
            return;
        int tries = onum("tries", 300);
        int jumps = onum("jumps", 2);
        auto done = [&](long p) { int a = 0; while (a < cnt && B[a + 1] <= p) a++; return a; };
        auto begun = [&](long p) { int a = 0; while (a < cnt && B[a] < p) a++; return a; };
        struct Msg {
            long n;
            long spin;
            struct { int t, kd, s, lo, hi, v, mv; } l[200000];
        };
        static Msg* msg = (Msg*)mmap(0, sizeof(Msg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        msg->n = 0;
        int togo = tries;
        int rounds = 0;
        while (togo > 0 && rounds++ < 6) {
            unsigned seed = rng + rounds * 977;
            pid_t p = fork();
            if (p == 0) {
                alarm(120);
                time_t limit = time(0) + 8; // long logs: fewer lookups
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                rng = seed;
                if (onum("ownmap", 1))
                    DB::ClearResources(db);
                shm::R.on = false;
                shm::seek(0);
                MBConfig m = mbconfig(c, db, false, dir + "/q");
                DB* r = new DB(m);
                if (!r->is_open())
                    _exit(3);
                shm::R.max_loads = 3000000;
                std::map<std::pair<int, int>, long> nl; // loads of a lookup
                vector<int> cand;
                {
                    std::set<int> s;
                    for (int j = i; j < i + cnt; j++) {
                        int k = h[j].k < 1 ? 1 : h[j].k;
                        s.insert(k);
                        for (auto& e : J.u.strs)
                            if (!e.empty() && e.size() <= 4) {
                                int id = ks.rev[ks.conc(e)];
                                auto& z = J.u.strs[k];
                                if ((e.size() < z.size() && std::equal(e.begin(), e.end(), z.begin())) || (z.size() < e.size() && std::equal(z.begin(), z.end(), e.begin())))
                                    s.insert(id);
                            }
                    }
                    cand.assign(s.begin(), s.end());
                }
                for (; togo > 0 && time(0) < limit; togo--) {
                    int s = rnd(3) == 0 ? 1 + rnd(J.u.N()) : rnd(2) ? cand[rnd(cand.size())] : std::max(1, h[i + rnd(cnt)].k);
                    bool lpm = rnd(4) == 0;
                    int kd = lpm ? 1 + rnd(3) : 1;
                    long w1 = rnd(L + 1);
                    shm::seek(w1);
                    auto key = std::make_pair(lpm ? kd : 0, s);
                    long est = nl.count(key) ? nl[key] : 60;
                    shm::R.sched.clear();
                    long wcur = w1;
                    int nj = rnd(jumps + 1);
                    vector<long> at;
                    for (int q = 0; q < nj; q++)
                        at.push_back(1 + rnd(est + 10));
                    std::sort(at.begin(), at.end());
                    for (long a : at) {
                        wcur += rnd(2) ? rnd(4) : rnd(L - wcur + 1);
                        if (wcur > L)
                            wcur = L;
                        shm::R.sched.push_back({ a, wcur });
                    }
                    shm::R.next = 0;
                    shm::R.loads = 0;
                    shm::R.replay = true;
                    int v = look(r, kd, s, lpm);
                    shm::R.replay = false;
                    if (nj == 0 || shm::R.loads < 400)
                        nl[key] = shm::R.loads;
                    long we = *shm::R.at;
                    if (const char* dbg = getenv("CC_LOOK")) {
                        int a[6];
                        sscanf(dbg, "%d,%d,%d,%d,%d,%d", a, a + 1, a + 2, a + 3, a + 4, a + 5);
                        if (a[0] == (lpm ? 1 : 0) && a[2] == s && a[3] == i + (int)done(w1) && a[4] == i + (int)begun(we) && a[5] == v) {
                            fprintf(stderr, "look %d: w1 %ld we %ld L %ld loads %lu sched", v, w1, we, L, shm::R.loads);
                            for (auto& e : shm::R.sched)
                                fprintf(stderr, " %lu->%ld", e.first, e.second);
                            fprintf(stderr, "\n");
                        }
                    }
                    if (msg->n < 200000) {
                        auto& z = msg->l[msg->n++];
                        z = { lpm ? 1 : 0, kd, s, i + done(w1), i + begun(we), v, we != w1 };
                    }
                    // remember where we were in case of a crash of the process
                }
                _exit(0);
            }
            int st;
            waitpid(p, &st, 0);
            if ((!WIFEXITED(st) || WEXITSTATUS(st)) && ++died()) {
                looks.insert("{\"e\":\"died\",\"stage\":7,\"sig\":" + num(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "}");
            }
            togo = 0;
        }
        for (long a = 0; a < msg->n; a++) {
            auto& z = msg->l[a];
            looks.insert("{\"e\":\"look\",\"t\":" + num(z.t) + ",\"kd\":" + num(z.kd) + ",\"s\":" + num(z.s) + ",\"lo\":" + num(z.lo) + ",\"hi\":" + num(std::max(z.lo, z.hi)) + ",\"v\":" + num(z.v) + ",\"mv\":" + num(z.mv) + "}");
        }
        nlooks += msg->n;
        shm::seek(L);
    }
    long nlooks = 0;

    void run()
    {
        bool crash = opt["mode"] != "read";
        string db = dir + "/db";
        mkdir(db.c_str(), 0777);
        mkdir((dir + "/q").c_str(), 0777);
        shm::g_root = db + "/";
        MBConfig m = mbconfig(c, db, true, dir + "/q");
        w = new DB(m);
        if (!w->is_open()) {
            uniq.add("{\"e\":\"openfail\",\"r\":" + num(w->Status()) + "}\n", src(0, 0));
            uniq.write(outfile);
            return;
        }
        add_extras(w);
        int n = h.size();
        int group = crash ? 1 : onum("group", 1);
        int from = onum("from", 0);
        shm::Image img;
        img.load(db);
        std::set<string> looks;
        string trace;
        for (int i = 0; i < n; i += group) {
            int cnt = std::min(group, n - i);
            vector<long> B = { 0 };
            vector<string> recs;
            shm::R.log.clear();
            shm::R.pool.clear();
            Written wsave = wr;
            bool esave = extras;
            shm::start();
            for (int j = i; j < i + cnt; j++) {
                recs.push_back(apply(w, j) + ",\"o\":[]}");
                shm::settle_now();
                B.push_back(shm::R.log.size());
            }
            shm::stop();
            long L = shm::R.log.size();
            if (crash && i >= from && L > 0) {
                Written wnow = wr;
                bool enow = extras;
                wr = wsave;
                extras = esave;
                crash_points(i, img, L, db);
                wr = wnow;
                extras = enow;
            }
            for (auto& r : recs) {
                prefix.push_back(r);
                trace += r + "\n";
            }
            if (!crash && i >= from) {
                reads(i, cnt, B, db, looks);
            }
            if (!crash)
                for (auto& s : looks)
                    trace += s + "\n";
            looks.clear();
            img.apply(shm::R, 0, L, db);
            if (getenv("CC_CHECK")) {
                shm::Image now;
                now.load(db);
                string d = img.diff(now);
                if (!d.empty())
                    fprintf(stderr, "op %d %s: %s\n", i, prefix.back().c_str(), d.c_str());
                if (getenv("CC_CHECK")[0] == '2')
                    for (auto& e : shm::R.log)
                        fprintf(stderr, "   %s %lu+%u %p\n", shm::file_name(e.file).c_str(), (long)e.off, e.len, e.pc);
            }
        }
        // the log explains every byte of the files (readers register in the header)
        shm::Image now;
        now.load(db);
        string d = img.diff(now);
        if (crash && !d.empty()) {
            // something writes by a way that is not logged: these images prove nothing
            uniq.m.clear();
            uniq.add("{\"e\":\"logdiff\",\"what\":\"" + d + "\"}\n", src(n, 0));
        }
        if (!crash) {
            uniq.add(trace, src(0, 0), nlooks);
        }
        uniq.write(outfile);
        w->Close();
        delete w;
    }
};

int main(int argc, char** argv)
{
    if (argc < 5)
        return 2;
    std::set_terminate([]() {
        void* a[30];
        backtrace_symbols_fd(a, backtrace(a, 30), 2);
        abort();
    });
    Jobs jobs;
    if (!jobs.load(argv[1]))
        return 2;
    return run_pool(jobs, argv[2], argv[3], atoi(argv[4]), 600, [&](int hi, int ci, const string& dir, const string& out) {
        CC cc(jobs, hi, ci, dir, out);
        cc.run();
    });
}
