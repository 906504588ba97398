// Conformance driver for specs/kv: replays behaviours drawn from the TLA+
// specification against the real library under many concretisations and
// records what every operation and query answered.  Verdicts are TLC's.
//
//   kvdrv JOBS OUT SCRATCH NPROC
//     JOBS: lines  "U nsym maxlen", "C <config>", "H op,k,a,b;op,k,a,b;..."
//     every history is replayed under every config
//   kvdrv --obs DIR      (internal) open DIR/db as a reader in a new process
#include "kvlib.h"
#include <atomic>
#include <unordered_map>
using namespace kv;

struct Op {
    string op;
    int k, a, b;
};
typedef vector<Op> Hist;

struct Shared {
    int next_op;
    int finished;
    size_t len;
    char buf[4 << 20];
};

struct Job {
    const Universe* u;
    Keyspace* ks;
    const Hist* h;
    string dir; // scratch for this job
    Shared* sh;
    string self;

    DB* w = nullptr;
    DB* r = nullptr;
    DB* pr = nullptr;
    Written wr;
    bool extras = false;
    long nfill = 0;
    int filldata = 0;

    void emit(const string& s)
    {
        if (sh->len + s.size() + 2 < sizeof sh->buf) {
            memcpy(sh->buf + sh->len, s.data(), s.size());
            sh->len += s.size();
            sh->buf[sh->len++] = '\n';
        }
    }
    const Config& c() const { return ks->cfg; }
    string dbdir() const { return dir + "/db"; }
    bool open_handles()
    {
        MBConfig m = mbconfig(c(), dbdir(), true, dir + "/q");
        w = new DB(m);
        if (!w->is_open()) {
            emit("{\"e\":\"openfail\",\"r\":" + std::to_string(w->Status()) + "}");
            return false;
        }
        if (c().handles > 1) {
            MBConfig mr = mbconfig(c(), dbdir(), false, dir + "/q");
            r = new DB(mr);
            if (!r->is_open()) {
                emit("{\"e\":\"openfail\",\"r\":" + std::to_string(r->Status()) + "}");
                return false;
            }
        }
        return true;
    }
    void close_handles()
    {
        if (r) {
            r->Close();
            delete r;
            r = nullptr;
        }
        if (w) {
            w->Close();
            delete w;
            w = nullptr;
        }
    }
    void add_extras()
    {
        for (auto& k : ks->ballast) {
            string v = ballast_value(k);
            w->Add(k.data(), k.size(), v.data(), v.size(), false);
        }
        if (c().fillD) {
            size_t tot = 0;
            string v(30000, 'F');
            while (tot < c().fillD) {
                string k = filler_key(nfill++);
                size_t l = std::min<size_t>(30000, c().fillD - tot);
                if (l < 1)
                    l = 1;
                w->Add(k.data(), k.size(), v.data(), l, false);
                tot += l + 4;
            }
        }
        for (int i = 0; i < c().fillI; i++) {
            string k = filler_key(nfill++, true);
            w->Add(k.data(), k.size(), "f", 1, false);
        }
        extras = true;
    }
    void recompute(int upto)
    {
        wr = Written(u->N());
        nfill = 0;
        extras = true;
        for (int i = 0; i < upto; i++) {
            const Op& o = (*h)[i];
            if (o.op == "a")
                wr.add(o.k, i + 1, o.b);
            if (o.op == "A")
                extras = false;
        }
        if (c().fillD) {
            size_t tot = 0;
            while (tot < c().fillD) {
                nfill++;
                size_t l = std::min<size_t>(30000, c().fillD - tot);
                tot += (l < 1 ? 1 : l) + 4;
            }
        }
        nfill += c().fillI;
    }
    string obs_all(int i, bool full, const string& extra_obs = "")
    {
        string what = c().obs;
        unsigned pick = i * 13 + 5 + (*h)[0].k;
        string a = observe(*w, *ks, wr, what, full, pick, nfill, extras);
        string o = "\"o\":[{\"h\":\"w\"" + a + "}";
        if (r) {
            string b = observe(*r, *ks, wr, what, full, pick, nfill, extras);
            if (b != a)
                o += ",{\"h\":\"r\"" + b + "}";
        }
        o += extra_obs + "]";
        return o;
    }
    // observation made by a new process
    string fresh_obs(const string& db)
    {
        string rd = dir + "/fresh";
        mkdir(rd.c_str(), 0777);
        FILE* f = fopen((rd + "/req").c_str(), "w");
        fprintf(f, "%s\n%d %ld %d\n%s\n", cfgline.c_str(), (int)extras, nfill, 7 + (*h)[0].k, db.c_str());
        for (int k = 1; k <= u->N(); k++)
            for (auto& x : wr.w[k])
                fprintf(f, "%d %d %d\n", k, x.first, x.second);
        fclose(f);
        unlink((rd + "/resp").c_str());
        pid_t p = fork();
        if (p == 0) {
            string us = std::to_string(u->strs.back().size());
            execl(self.c_str(), self.c_str(), "--obs", rd.c_str(), us.c_str(), (char*)0);
            _exit(9);
        }
        int st;
        waitpid(p, &st, 0);
        f = fopen((rd + "/resp").c_str(), "r");
        string out;
        if (f) {
            char b[65536];
            size_t n;
            while ((n = fread(b, 1, sizeof b, f)) > 0)
                out.append(b, n);
            fclose(f);
        }
        if (out.empty())
            return ",\"dead\":[1]";
        return out;
    }
    string cfgline;

    int bad_call(const Op& o)
    {
        string k = ks->key[o.k], big(257, 'k'), v(10, 'v'), hv(32768, 'V'), e;
        MBData d;
        switch ((o.a - 1) * 3 + (o.b - 1)) {
        case 0: return w->Add(k.data(), 0, v.data(), 10, true);
        case 1: return w->Add(k.data(), -1, v.data(), 10, true);
        case 2: return w->Add(big.data(), 257, v.data(), 10, true);
        case 3: return w->Add(k.data(), k.size(), v.data(), 0, true);
        case 4: return w->Add(k.data(), k.size(), v.data(), -5, true);
        case 5: return w->Add(k.data(), k.size(), hv.data(), 32768, true);
        case 6: return w->Add((const char*)nullptr, 3, v.data(), 10, true);
        case 7: return w->Remove((const char*)nullptr, 3);
        case 8: return w->Remove(k.data(), 0);
        case 9: return w->Remove(big.data(), 257);
        case 10: return w->Find((const char*)nullptr, 3, d);
        case 11: return w->FindLongestPrefix((const char*)nullptr, 3, d);
        case 12: return w->FindLowerBound((const char*)nullptr, 3, d);
        case 13: return w->Find(k.data(), 0, d);
        case 14: return w->FindLongestPrefix(k.data(), 0, d);
        case 15: return w->FindLowerBound(k.data(), 0, d);
        case 16: return w->Add(big.data(), 1000, v.data(), 10, false);
        case 17: return w->Remove(k.data(), -3);
        case 18: return r ? r->Remove((const char*)nullptr, 2) : w->Backup(nullptr);
        case 19: return r ? r->RemoveAllSync() : w->Backup(nullptr);
        case 20: return w->Add(k.data(), k.size(), hv.data(), 40000, false);
        default: return w->Find(k.data(), -2, d);
        }
    }

    // runs operations from..; returns when finished or when a new process must continue
    void segment(int from)
    {
        recompute(from);
        if (from == 0) {
            extras = false;
            mkdir(dbdir().c_str(), 0777);
            mkdir((dir + "/q").c_str(), 0777);
            nfill = 0;
        }
        if (!open_handles())
            return;
        if (from == 0)
            add_extras();
        int n = h->size();
        for (int i = from; i < n; i++) {
            const Op& o = (*h)[i];
            bool full = (i % c().every == c().every - 1) || i == n - 1;
            sh->next_op = i;
            string ev, extra;
            int res = 0;
            if (o.op == "a") {
                wr.add(o.k, i + 1, o.b);
                string v = value_of(c(), o.k, i + 1, o.b);
                Exact ek(ks->key[o.k]), evv(v);
                res = rcode(w->Add(ek.p, ek.n, evv.p, evv.n, o.a == 1));
                ev = "{\"e\":\"a\",\"k\":" + std::to_string(o.k) + ",\"ow\":" + std::to_string(o.a) + ",\"v\":" + std::to_string(i + 1);
            } else if (o.op == "r") {
                Exact ek(ks->key[o.k]);
                res = rcode(w->Remove(ek.p, ek.n));
                ev = "{\"e\":\"r\",\"k\":" + std::to_string(o.k);
            } else if (o.op == "A") {
                res = rcode((o.b % 2) ? w->RemoveAll() : w->RemoveAllSync());
                ev = "{\"e\":\"A\"";
                extras = false;
            } else {
                string what = c().op[o.op == "N" ? 0 : o.op == "O" ? 1 : 2];
                ev = "{\"e\":\"n\",\"what\":\"" + what + "\"";
                if (what == "rc" || what == "rc0") {
                    int64_t big = 1LL << 46;
                    res = rcode(w->CollectResource(o.b == 3 ? big : 1, o.b == 2 ? 0 : 1));
                    if (o.b == 1)
                        app(ev, "pend", { (int)std::min<int64_t>(w->GetPendingIndexBufferSize(), 1 << 30), (int)std::min<int64_t>(w->GetPendingDataBufferSize(), 1 << 30) });
                    full = true;
                } else if (what == "reopen" || what == "reopen0") {
                    close_handles();
                    if ((o.a & 1) && what == "reopen" && c().opt.find('m') == string::npos) {
                        // continue in a new process
                        sh->next_op = i;
                        sh->finished = 2;
                        return;
                    }
                    if (!open_handles())
                        return;
                    full = true;
                } else if (what == "fresh") {
                    w->Flush();
                    extra = ",{\"h\":\"f\"" + fresh_obs(dbdir()) + "}";
                } else if (what == "bad") {
                    res = rcode(bad_call(o)) == 0 ? 0 : 1;
                } else if (what == "flush") {
                    w->Flush();
                    if (o.b == 1)
                        w->Purge();
                } else if (what == "churn") {
                    MBConfig mr = mbconfig(c(), dbdir(), false, dir + "/q");
                    DB* x = new DB(mr);
                    string a = x->is_open() ? observe(*x, *ks, wr, c().obs, true, i, nfill, extras) : ",\"dead\":[1]";
                    extra = ",{\"h\":\"n\"" + a + "}";
                    x->Close();
                    delete x;
                } else if (what == "backup") {
                    string bd = dir + "/bk" + std::to_string(i);
                    mkdir(bd.c_str(), 0777);
                    try {
                        DBBackup bk(*w);
                        res = rcode(bk.Backup(bd.c_str()));
                    } catch (int e) {
                        res = 100 + e;
                    }
                    if (res == 0) {
                        if (o.b == 2)
                            extra = ",{\"h\":\"b\"" + fresh_obs(bd) + "}";
                        else {
                            MBConfig mr = mbconfig(c(), bd, o.b == 3, dir + "/q");
                            DB* x = new DB(mr);
                            string a = x->is_open() ? observe(*x, *ks, wr, c().obs, true, i, nfill, extras) : ",\"dead\":[1]";
                            extra = ",{\"h\":\"b\"" + a + "}";
                            if (o.b == 3) { // the copy is independent of the source
                                for (int k = 1; k <= u->N(); k += 2) {
                                    x->Add(ks->key[k].data(), ks->key[k].size(), "other", 5, true);
                                    x->Remove(ks->key[k + 1 <= u->N() ? k + 1 : k].data(), ks->key[k + 1 <= u->N() ? k + 1 : k].size());
                                }
                            }
                            x->Close();
                            delete x;
                        }
                    }
                    DB::ClearResources(bd);
                    rmtree(bd);
                    full = true;
                }
            }
            ev += ",\"r\":" + std::to_string(res) + "," + obs_all(i, full, extra) + "}";
            emit(ev);
        }
        close_handles();
        if (c().opt.find('m') != string::npos) {
            int nf = 0;
            if (DIR* dp = opendir(dbdir().c_str())) {
                while (dirent* e = readdir(dp)) {
                    string nm = e->d_name;
                    if (nm != "." && nm != ".." && nm.find("lock") == string::npos)
                        nf++;
                }
                closedir(dp);
            }
            emit("{\"e\":\"files\",\"c\":" + std::to_string(nf) + "}");
        }
        sh->finished = 1;
    }

    // after a new-process reopen: finish the reopen operation itself first
    void resume(int at)
    {
        recompute(at + 1);
        if (!open_handles())
            return;
        emit("{\"e\":\"n\",\"what\":\"reopen\",\"r\":0," + obs_all(at, true) + "}");
        close_handles();
        sh->next_op = at + 1;
        sh->finished = 3;
    }
};

static int obs_main(const char* rd, int maxlen)
{
    string base = rd;
    FILE* f = fopen((base + "/req").c_str(), "r");
    char line[65536];
    if (!f || !fgets(line, sizeof line, f))
        return 1;
    string cl = line;
    while (!cl.empty() && cl.back() == '\n')
        cl.pop_back();
    Config c = parse_config(cl);
    int extras, pick;
    long nfill;
    char db[4096];
    if (fscanf(f, "%d %ld %d %4000s", &extras, &nfill, &pick, db) != 4)
        return 1;
    Universe u;
    u.build(c.sym.size(), maxlen);
    Keyspace ks;
    ks.init(u, c);
    Written w(u.N());
    int k, id, z;
    while (fscanf(f, "%d %d %d", &k, &id, &z) == 3)
        w.add(k, id, z);
    fclose(f);
    DB::SetLogLevel(0);
    string dir = db;
    MBConfig m = mbconfig(c, dir, false, base + "/../q");
    DB* x = new DB(m);
    string out = x->is_open() ? observe(*x, ks, w, c.obs, true, pick, nfill, extras) : ",\"dead\":[1]";
    x->Close();
    delete x;
    f = fopen((base + "/resp").c_str(), "w");
    fwrite(out.data(), 1, out.size(), f);
    fclose(f);
    return 0;
}

int main(int argc, char** argv)
{
    keyonly() = true;
    if (argc >= 4 && string(argv[1]) == "--obs")
        return obs_main(argv[2], atoi(argv[3]));
    if (argc < 5)
        return 2;
    string self;
    {
        char b[4096];
        ssize_t n = readlink("/proc/self/exe", b, sizeof b);
        self.assign(b, n > 0 ? n : 0);
    }
    FILE* f = fopen(argv[1], "r");
    if (!f)
        return 2;
    Universe u;
    vector<string> cl;
    vector<Hist> hs;
    static char line[1 << 20];
    while (fgets(line, sizeof line, f)) {
        string s = line;
        while (!s.empty() && (s.back() == '\n'))
            s.pop_back();
        if (s[0] == 'U') {
            int a, b;
            sscanf(s.c_str(), "U %d %d", &a, &b);
            u.build(a, b);
        } else if (s[0] == 'C') {
            cl.push_back(s.substr(2));
        } else if (s[0] == 'H') {
            Hist h;
            size_t i = 2;
            while (i < s.size()) {
                size_t j = s.find(';', i);
                if (j == string::npos)
                    j = s.size();
                char op[8];
                Op o;
                sscanf(s.c_str() + i, "%7[^,],%d,%d,%d", op, &o.k, &o.a, &o.b);
                o.op = op;
                h.push_back(o);
                i = j + 1;
            }
            hs.push_back(h);
        }
    }
    fclose(f);
    vector<Keyspace> kss(cl.size());
    for (size_t i = 0; i < cl.size(); i++)
        kss[i].init(u, parse_config(cl[i]));
    int np = atoi(argv[4]);
    string scratch = argv[3];
    auto* next = (std::atomic<long>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    next->store(0);
    long total = (long)hs.size() * cl.size();
    vector<pid_t> pids;
    for (int p = 0; p < np; p++) {
        pid_t pid = fork();
        if (pid)
        {
            pids.push_back(pid);
            continue;
        }
        Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        struct Src {
            long n = 0;
            vector<std::pair<int, int>> s;
        };
        std::unordered_map<string, Src> uniq;
        string mydir = scratch + "/w" + std::to_string(p);
        while (true) {
            long j = next->fetch_add(1);
            if (j >= total)
                break;
            int hi = j / cl.size(), ci = j % cl.size();
            mkdir(mydir.c_str(), 0777);
            sh->len = 0;
            int from = 0;
            bool resume = false;
            while (true) {
                sh->finished = 0;
                pid_t c = fork();
                if (c == 0) {
                    alarm(60);
                    int nul = open("/dev/null", O_RDWR);
                    dup2(nul, 1);
                    if (!getenv("KV_STDERR"))
                        dup2(nul, 2);
                    DB::SetLogLevel(0);
                    Job job;
                    job.u = &u;
                    job.ks = &kss[ci];
                    job.h = &hs[hi];
                    job.dir = mydir;
                    job.sh = sh;
                    job.self = self;
                    job.cfgline = cl[ci];
                    if (resume)
                        job.resume(from);
                    else
                        job.segment(from);
                    _exit(0);
                }
                int st;
                waitpid(c, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                    string d = "{\"e\":\"died\",\"at\":" + std::to_string(sh->next_op) + ",\"sig\":" + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + "}\n";
                    memcpy(sh->buf + sh->len, d.data(), d.size());
                    sh->len += d.size();
                    break;
                }
                if (sh->finished == 2) {
                    from = sh->next_op;
                    resume = true;
                    continue;
                }
                if (sh->finished == 3) {
                    from = sh->next_op;
                    resume = false;
                    if (from >= (int)hs[hi].size())
                        break;
                    continue;
                }
                break;
            }
            rmtree(mydir);
            Src& s = uniq[string(sh->buf, sh->len)];
            s.n++;
            if (s.s.size() < 4)
                s.s.push_back({ hi, ci });
        }
        FILE* o = fopen((string(argv[2]) + "." + std::to_string(p)).c_str(), "w");
        for (auto& x : uniq) {
            fprintf(o, "# %ld", x.second.n);
            for (auto& y : x.second.s)
                fprintf(o, " %d:%d", y.first, y.second);
            fprintf(o, "\n");
            fwrite(x.first.data(), 1, x.first.size(), o);
        }
        fclose(o);
        rmtree(mydir);
        _exit(0);
    }
    int bad = 0;
    for (pid_t p : pids) {
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
            bad = 1;
    }
    return bad;
}
