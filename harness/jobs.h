// Jobs file, worker pool and trace de-duplication shared by the drivers.
#pragma once
#include "kvlib.h"
#include <atomic>
#include <functional>
#include <unordered_map>

namespace kv {
struct Op {
    string op;
    int k, a, b;
};
typedef vector<Op> Hist;

struct Jobs {
    Universe u;
    vector<string> cl; // configuration lines
    vector<Hist> hs;
    vector<Keyspace> kss;
    bool load(const char* path)
    {
        FILE* f = fopen(path, "r");
        if (!f)
            return false;
        static char line[1 << 20];
        while (fgets(line, sizeof line, f)) {
            string s = line;
            while (!s.empty() && (s.back() == '\n'))
                s.pop_back();
            if (s[0] == 'U') {
                int a, b;
                sscanf(s.c_str(), "U %d %d", &a, &b);
                u.build(a, b);
            } else if (s[0] == 'C') {
                cl.push_back(s.substr(2));
            } else if (s[0] == 'H') {
                Hist h;
                size_t i = 2;
                while (i < s.size()) {
                    size_t j = s.find(';', i);
                    if (j == string::npos)
                        j = s.size();
                    char op[8];
                    Op o;
                    sscanf(s.c_str() + i, "%7[^,],%d,%d,%d", op, &o.k, &o.a, &o.b);
                    o.op = op;
                    h.push_back(o);
                    i = j + 1;
                }
                hs.push_back(h);
            }
        }
        fclose(f);
        kss.resize(cl.size());
        for (size_t i = 0; i < cl.size(); i++)
            kss[i].init(u, parse_config(cl[i]));
        return true;
    }
};

// trace text -> how often, and where from
struct Uniq {
    struct Src {
        long n = 0;
        vector<string> s;
    };
    std::unordered_map<string, Src> m;
    void add(const string& text, const string& src, long n = 1)
    {
        Src& x = m[text];
        x.n += n;
        if (x.s.size() < 3)
            x.s.push_back(src);
    }
    void write(const string& path) const
    {
        FILE* o = fopen(path.c_str(), "w");
        for (auto& x : m) {
            fprintf(o, "# %ld", x.second.n);
            for (auto& y : x.second.s)
                fprintf(o, " %s", y.c_str());
            fprintf(o, "\n");
            fwrite(x.first.data(), 1, x.first.size(), o);
        }
        fclose(o);
    }
    void merge(const string& path)
    {
        FILE* f = fopen(path.c_str(), "r");
        if (!f)
            return;
        string all;
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0)
            all.append(b, n);
        fclose(f);
        size_t i = 0;
        string text;
        long cnt = 0;
        vector<string> src;
        auto flush = [&]() {
            if (!cnt)
                return;
            Src& x = m[text];
            x.n += cnt;
            for (auto& s : src)
                if (x.s.size() < 3)
                    x.s.push_back(s);
        };
        while (i < all.size()) {
            size_t j = all.find('\n', i);
            if (j == string::npos)
                j = all.size();
            if (all[i] == '#') {
                flush();
                text.clear();
                src.clear();
                string l = all.substr(i + 2, j - i - 2);
                size_t sp = l.find(' ');
                cnt = atol(l.c_str());
                while (sp != string::npos) {
                    size_t e = l.find(' ', sp + 1);
                    src.push_back(l.substr(sp + 1, e == string::npos ? e : e - sp - 1));
                    sp = e;
                }
            } else
                text += all.substr(i, j - i + 1);
            i = j + 1;
        }
        flush();
    }
};

inline void quiet(unsigned secs)
{
    alarm(secs);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 1);
    if (!getenv("KV_STDERR"))
        dup2(nul, 2);
    DB::SetLogLevel(0);
}

// Children of all workers that died so far: after some of them, the verdict is clear and each
// of them may have taken its whole time limit.
inline std::atomic<long>& died()
{
    static auto* a = (std::atomic<long>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return *a;
}
inline bool enough() { return died().load() >= 24; }

// Runs job(hi, ci, dir, out file) for every history and configuration, each in a child of
// one of np workers; a child that dies leaves a trace saying so.
inline int run_pool(Jobs& jobs, const string& out, const string& scratch, int np, unsigned secs,
    const std::function<void(int, int, const string&, const string&)>& job)
{
    auto* next = (std::atomic<long>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    next->store(0);
    died().store(0);
    long total = (long)jobs.hs.size() * jobs.cl.size();
    vector<pid_t> pids;
    for (int p = 0; p < np; p++) {
        pid_t pid = fork();
        if (pid) {
            pids.push_back(pid);
            continue;
        }
        Uniq uniq;
        string mydir = scratch + "/w" + std::to_string(p);
        while (true) {
            long j = next->fetch_add(1);
            if (j >= total || enough())
                break;
            int hi = j / jobs.cl.size(), ci = j % jobs.cl.size();
            rmtree(mydir);
            mkdir(mydir.c_str(), 0777);
            string of = mydir + ".out";
            unlink(of.c_str());
            pid_t c = fork();
            if (c == 0) {
                quiet(secs);
                job(hi, ci, mydir, of);
                _exit(0);
            }
            int st;
            waitpid(c, &st, 0);
            if ((!WIFEXITED(st) || WEXITSTATUS(st) != 0) && ++died())
                uniq.add("{\"e\":\"died\",\"what\":\"job\",\"sig\":" + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) + "}\n",
                    std::to_string(hi) + ":" + std::to_string(ci));
            uniq.merge(of);
            unlink(of.c_str());
            rmtree(mydir);
        }
        uniq.write(out + "." + std::to_string(p));
        _exit(0);
    }
    int bad = 0;
    for (pid_t p : pids) {
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
            bad = 1;
    }
    return bad;
}
} // namespace kv
