// Shared part of the conformance drivers: abstract keys -> byte strings,
// value contents, decoding of answers back into abstract codes, observations.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "db.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_backup.h"
#include "mb_rc.h"
#include "resource_pool.h"

namespace kv {
using namespace mabain;
using std::string;
using std::vector;

// ---------------------------------------------------------------- universe
struct Universe {
    vector<vector<int>> strs; // index 0 unused
    vector<vector<int>> ext;
    void build(int nsym, int maxlen)
    {
        strs.assign(1, {});
        vector<vector<int>> all;
        vector<vector<int>> cur = { {} };
        for (int l = 0; l < maxlen; l++) {
            vector<vector<int>> nx;
            for (auto& s : cur)
                for (int c = 1; c <= nsym; c++) {
                    auto t = s;
                    t.push_back(c);
                    nx.push_back(t);
                    all.push_back(t);
                }
            cur = nx;
        }
        std::sort(all.begin(), all.end());
        for (auto& s : all)
            strs.push_back(s);
    }
    int N() const { return (int)strs.size() - 1; }
};

inline string unhex(const string& h)
{
    string o;
    for (size_t i = 0; i + 1 < h.size(); i += 2)
        o += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
    return o;
}

// ---------------------------------------------------------------- one configuration
struct Config {
    string name;
    vector<string> sym; // symbol substitution
    int sz[4] = { 0, 8, 16, 24 };
    string opt; // j jemalloc, p prefix cache, m memory only, k keep db, R second handle is a reader with prefix cache
    uint32_t idxblk = 4, datblk = 4; // MB
    int nblk = 16;
    size_t capI = 0, capD = 0; // MB, 0 = whole
    int bal = 0; // ballast edges per chosen node
    size_t fillD = 0; // bytes of filler data
    int fillI = 0; // filler index entries
    string op[3] = { "nop", "nop", "nop" }; // meaning of N, O, P
    string obs = "fc"; // f find, c count, i iterate, x prefix iterate, l longest prefix, b lower bound
    int every = 5; // full query sweep every n ops
    int handles = 1; // 1 writer only, 2 writer + in-process reader
    int bucket = 0;
    int qsize = 0;
};

inline std::map<string, string> parse_kv(const string& line)
{
    std::map<string, string> r;
    size_t i = 0;
    while (i < line.size()) {
        size_t j = line.find(' ', i);
        if (j == string::npos)
            j = line.size();
        string t = line.substr(i, j - i);
        size_t e = t.find('=');
        if (e != string::npos)
            r[t.substr(0, e)] = t.substr(e + 1);
        i = j + 1;
    }
    return r;
}

inline Config parse_config(const string& line)
{
    auto m = parse_kv(line);
    Config c;
    auto num = [&](const char* k, long d) { return m.count(k) ? atol(m[k].c_str()) : d; };
    c.name = m["name"];
    {
        string s = m["sym"];
        size_t i = 0;
        while (i < s.size()) {
            size_t j = s.find(',', i);
            if (j == string::npos)
                j = s.size();
            c.sym.push_back(unhex(s.substr(i, j - i)));
            i = j + 1;
        }
    }
    if (m.count("sz"))
        sscanf(m["sz"].c_str(), "%d,%d,%d", &c.sz[1], &c.sz[2], &c.sz[3]);
    c.opt = m["opt"];
    c.idxblk = num("idxblk", 4);
    c.datblk = num("datblk", 4);
    c.nblk = num("nblk", 16);
    c.capI = num("capI", 0);
    c.capD = num("capD", 0);
    c.bal = num("bal", 0);
    c.fillD = num("fillD", 0);
    c.fillI = num("fillI", 0);
    if (m.count("N")) c.op[0] = m["N"];
    if (m.count("O")) c.op[1] = m["O"];
    if (m.count("P")) c.op[2] = m["P"];
    if (m.count("obs")) c.obs = m["obs"];
    c.every = num("every", 5);
    c.handles = num("handles", 1);
    c.bucket = num("bucket", 0);
    c.qsize = num("q", 0);
    return c;
}

// ---------------------------------------------------------------- strings
struct Keyspace {
    const Universe* u = nullptr;
    Config cfg;
    vector<string> key; // concrete key of abstract key
    string stub; // common part of all symbols
    vector<string> q[5]; // query strings per kind ("" = not available)
    std::map<string, int> rev;
    vector<string> ballast;
    std::set<string> balset;

    string conc(const vector<int>& s) const
    {
        string o;
        for (int c : s)
            o += cfg.sym[c - 1];
        return o;
    }
    void init(const Universe& uu, const Config& c)
    {
        u = &uu;
        cfg = c;
        int N = uu.N();
        key.assign(N + 1, "");
        for (int i = 1; i <= N; i++) {
            key[i] = conc(uu.strs[i]);
            rev[key[i]] = i;
        }
        stub = cfg.sym[0];
        for (auto& s : cfg.sym) {
            size_t n = 0;
            while (n < s.size() && n < stub.size() && s[n] == stub[n])
                n++;
            stub.resize(n);
        }
        for (int kd = 1; kd <= 4; kd++)
            q[kd].assign(N + 1, "");
        for (int i = 1; i <= N; i++) {
            q[1][i] = key[i];
            if (!stub.empty())
                q[2][i] = key[i] + stub;
            string b = key[i];
            unsigned char lastc = (unsigned char)b.back();
            if (lastc > 0) {
                b.back() = (char)(lastc - 1);
                b += string(40, '\xff');
            } else
                b.pop_back();
            q[3][i] = b;
            q[4][i] = key[i] + string(300, '\xff');
        }
        // the query strings must sit where Keys.tla says; drop those that do not
        for (int i = 1; i <= N; i++) {
            for (int j = 1; j <= N; j++) {
                auto pre = [&](const string& p, const string& s) { return p.size() <= s.size() && s.compare(0, p.size(), p) == 0; };
                bool apre = uu.strs[j].size() <= uu.strs[i].size() && std::equal(uu.strs[j].begin(), uu.strs[j].end(), uu.strs[i].begin());
                bool aext = uu.strs[i].size() <= uu.strs[j].size() && std::equal(uu.strs[i].begin(), uu.strs[i].end(), uu.strs[j].begin());
                if ((key[i] < key[j]) != (i < j) || pre(key[j], key[i]) != apre) {
                    fprintf(stderr, "bad substitution in config %s\n", cfg.name.c_str());
                    exit(3);
                }
                for (int kd = 2; kd <= 4; kd++) {
                    string& s = q[kd][i];
                    if (s.empty())
                        continue;
                    bool le = key[j] <= s, wantle = kd == 2 ? j <= i : kd == 3 ? j < i : (j <= i || aext);
                    bool wantpre = kd == 3 ? (apre && i != j) : apre;
                    bool ispfx = pre(s, key[j]), wantispfx = kd == 2 ? (aext && i != j) : false;
                    if (le != wantle || pre(key[j], s) != wantpre || ispfx != wantispfx || key[j] == s)
                        s.clear();
                }
            }
        }
        if (cfg.bal > 0) {
            for (int node : { 0, 1, 2, 3, 16, 17 }) {
                if (node > N)
                    continue;
                string p = node == 0 ? "" : key[node];
                int made = 0;
                for (int b = 0xFD; b >= 0 && made < cfg.bal; b--) {
                    bool clash = false;
                    for (auto& s : cfg.sym)
                        if ((unsigned char)s[0] == b)
                            clash = true;
                    if (clash || (p.size() >= 255))
                        continue;
                    string k = p + (char)b;
                    if (b % 3 == 0 && k.size() + 12 < 250)
                        k += "ballast-" + std::to_string(node);
                    ballast.push_back(k);
                    made++;
                }
            }
            balset.insert(ballast.begin(), ballast.end());
        }
    }
    int parent(int s) const
    {
        auto t = u->strs[s];
        t.pop_back();
        return t.empty() ? 0 : rev.at(conc(t));
    }
    int lastext(int s) const
    {
        int r = s;
        for (int j = 1; j <= u->N(); j++)
            if (u->strs[j].size() >= u->strs[s].size() && std::equal(u->strs[s].begin(), u->strs[s].end(), u->strs[j].begin()))
                r = j;
        return r;
    }
    bool is_extra(const string& k) const { return (!k.empty() && (unsigned char)k[0] == 0xFE) || balset.count(k); }
};

// long: the tail of the key takes 200 bytes of index space
inline string filler_key(int i, bool lng = false)
{
    char b[32];
    snprintf(b, sizeof b, "\xFE%06d-fill", i);
    return lng ? b + string(190, 'a' + i % 26) : string(b);
}

// value of operation id on key k, in size class z
inline string value_of(const Config& c, int k, int id, int z)
{
    int len = c.sz[z];
    string s(len, 0);
    uint32_t x = 2654435761u * (k * 1000 + id) + 12345;
    for (int i = 0; i < len; i++) {
        if (i % 4 == 0)
            x = x * 1664525u + 1013904223u;
        s[i] = (char)(x >> (8 * (i % 4)));
    }
    if (len == 1)
        s[0] = (char)(id * 37 + k * 11);
    return s;
}
inline string ballast_value(const string& k) { return "BV" + k.substr(k.size() > 20 ? k.size() - 20 : 0); }

// ids ever written per key: id -> size class
struct Written {
    vector<std::map<int, int>> w;
    explicit Written(int n = 0)
        : w(n + 1)
    {
    }
    void add(int k, int id, int z) { w[k][id] = z; }
    int decode(const Config& c, int k, const char* b, int len) const
    {
        for (auto it = w[k].rbegin(); it != w[k].rend(); ++it) {
            if (c.sz[it->second] != len)
                continue;
            string v = value_of(c, k, it->first, it->second);
            if (memcmp(v.data(), b, len) == 0)
                return it->first;
        }
        return -1;
    }
};

// Key and value buffers handed to the library are exact-size heap blocks.
struct Exact {
    char* p;
    int n;
    explicit Exact(const string& s)
        : p((char*)malloc(s.size() ? s.size() : 1))
        , n(s.size())
    {
        memcpy(p, s.data(), n);
    }
    ~Exact() { free(p); }
};

inline int rcode(int r)
{
    if (r == MBError::SUCCESS) return 0;
    if (r == MBError::IN_DICT) return 1;
    if (r == MBError::NOT_EXIST) return 2;
    if (r == MBError::TRY_AGAIN) return 3;
    if (r == MBError::OUT_OF_BOUND) return 4;
    if (r == MBError::NOT_ALLOWED) return 5;
    if (r == MBError::INVALID_ARG) return 6;
    return 100 + r;
}

const int GARBAGE = -1, ERRBASE = -100, SKIP = -99;

// whether every lookup is repeated without its value (nothing may change in between)
inline bool& keyonly()
{
    static bool b = false;
    return b;
}

// answers as abstract codes: 0 none, id / k*1000+id found, <0 wrong
inline int q_find(const DB& db, const Keyspace& ks, const Written& w, int kind, int s)
{
    const string& q = ks.q[kind][s];
    if (q.empty())
        return SKIP;
    Exact e(q);
    MBData d;
    int r = db.Find(e.p, e.n, d);
    if (keyonly() && (r == MBError::SUCCESS || r == MBError::NOT_EXIST)) {
        MBData dk(0, CONSTS::OPTION_KEY_ONLY);
        int err = -1;
        bool in = const_cast<DB&>(db).InDB(e.p, e.n, err);
        if (db.Find(e.p, e.n, dk) != r || in != (r == MBError::SUCCESS) || err != MBError::SUCCESS)
            return GARBAGE - 4;
    }
    if (r == MBError::NOT_EXIST)
        return 0;
    if (r != MBError::SUCCESS)
        return ERRBASE - r;
    if (kind != 1)
        return GARBAGE;
    return w.decode(ks.cfg, s, (char*)d.buff, d.data_len);
}
inline int q_lpm(const DB& db, const Keyspace& ks, const Written& w, int kind, int s)
{
    if (ks.q[kind][s].empty()) {
        // this substitution has no such string: ask the question the
        // specification defines to have the same answer (see LpmQ)
        int p = kind == 3 ? ks.parent(s) : s;
        return p ? q_lpm(db, ks, w, 1, p) : 0;
    }
    const string& q = ks.q[kind][s];
    Exact e(q);
    MBData d;
    int r = db.FindLongestPrefix(e.p, e.n, d);
    if (r == MBError::NOT_EXIST)
        return 0;
    if (r != MBError::SUCCESS)
        return ERRBASE - r;
    if (d.match_len <= 0 || d.match_len > e.n)
        return GARBAGE - 1;
    auto it = ks.rev.find(q.substr(0, d.match_len));
    if (it == ks.rev.end())
        return GARBAGE - 2;
    int id = w.decode(ks.cfg, it->second, (char*)d.buff, d.data_len);
    return id < 0 ? GARBAGE : it->second * 1000 + id;
}
inline int q_lb(const DB& db, const Keyspace& ks, const Written& w, int kind, int s, MBData& d, string& bk)
{
    if (ks.cfg.bal > 0)
        return SKIP;
    if (ks.q[kind][s].empty()) { // same answer by LbQ
        int p = kind == 3 ? s - 1 : kind == 4 ? ks.lastext(s) : s;
        return p ? q_lb(db, ks, w, 1, p, d, bk) : 0;
    }
    const string& q = ks.q[kind][s];
    Exact e(q);
    int r = db.FindLowerBound(e.p, e.n, d, &bk);
    if (keyonly() && (r == MBError::SUCCESS || r == MBError::NOT_EXIST)) {
        MBData dk(0, CONSTS::OPTION_KEY_ONLY);
        string bk2;
        int r2 = db.FindLowerBound(e.p, e.n, dk, &bk2);
        if (r2 != r || (r == MBError::SUCCESS && bk2 != bk))
            return GARBAGE - 4;
    }
    if (r == MBError::NOT_EXIST)
        return 0;
    if (r != MBError::SUCCESS)
        return ERRBASE - r;
    auto it = ks.rev.find(bk);
    if (it == ks.rev.end())
        return GARBAGE - 2;
    int id = w.decode(ks.cfg, it->second, (char*)d.buff, d.data_len);
    return id < 0 ? GARBAGE : it->second * 1000 + id;
}
// codes in ascending key order; a key seen twice appears twice; unknown keys as -k
inline vector<int> q_iter(const DB& db, const Keyspace& ks, const Written& w, const string* prefix, long nfill, bool& extra_ok)
{
    vector<int> out;
    long extra = 0;
    auto visit = [&](DB::iterator& it) {
        if (ks.is_extra(it.key)) {
            extra++;
            return;
        }
        auto f = ks.rev.find(it.key);
        if (f == ks.rev.end()) {
            out.push_back(GARBAGE - 2);
            return;
        }
        int id = w.decode(ks.cfg, f->second, (char*)it.value.buff, it.value.data_len);
        out.push_back(id < 0 ? -f->second : f->second * 1000 + id);
    };
    long steps = 0, limit = nfill + ks.ballast.size() + 2000;
    if (prefix) {
        for (DB::iterator it = db.begin(*prefix); it != db.end() && steps < limit; ++it, steps++)
            visit(it);
    } else {
        for (DB::iterator it = db.begin(); it != db.end() && steps < limit; ++it, steps++)
            visit(it);
        if (extra != nfill + (long)ks.ballast.size())
            extra_ok = false;
    }
    std::sort(out.begin(), out.end());
    return out;
}

inline void app(string& o, const char* name, const vector<int>& v)
{
    o += ",\"";
    o += name;
    o += "\":[";
    for (size_t i = 0; i < v.size(); i++) {
        if (i)
            o += ",";
        o += std::to_string(v[i]);
    }
    o += "]";
}

// one observation through one handle, as the inside of a JSON record
inline string observe(const DB& db, const Keyspace& ks, const Written& w, const string& what, bool full, unsigned pick, long nfill, bool extras_present)
{
    string o;
    int N = ks.u->N();
    auto has = [&](char c) { return what.find(c) != string::npos; };
    bool extra_ok = true;
    if (has('f')) {
        vector<int> v(N);
        for (int s = 1; s <= N; s++)
            v[s - 1] = q_find(db, ks, w, 1, s);
        app(o, "f", v);
        vector<int> bad; // lookups of strings that are never stored
        for (int kd = 2; kd <= 4; kd++)
            for (int s = 1; s <= N; s++) {
                int r = q_find(db, ks, w, kd, s);
                if (r != 0 && r != SKIP)
                    bad.push_back(kd * 1000 + s);
            }
        app(o, "fb", bad);
    }
    if (has('c')) {
        long extra = extras_present ? nfill + (long)ks.ballast.size() : 0;
        app(o, "c", { (int)(db.Count() - extra) });
    }
    if (has('i') && (full || !has('Q'))) {
        vector<int> v = q_iter(db, ks, w, nullptr, extras_present ? nfill : 0, extra_ok);
        if (!extras_present && ks.ballast.size())
            extra_ok = true;
        app(o, "i", v);
    }
    if (has('l') && full) {
        vector<int> v;
        for (int kd = 1; kd <= 4; kd++)
            for (int s = 1; s <= N; s++)
                v.push_back(q_lpm(db, ks, w, kd, s));
        app(o, "l", v);
    }
    if (has('b') && full) {
        vector<int> v;
        MBData d;
        string bk;
        for (int kd = 1; kd <= 4; kd++)
            for (int s = 1; s <= N; s++)
                v.push_back(q_lb(db, ks, w, kd, s, d, bk));
        app(o, "b", v);
    }
    if (has('x') && full) {
        o += ",\"x\":[";
        bool first = true;
        for (unsigned j = 0; j < 6; j++) {
            int kd = 1 + (pick + j) % 4, s = 1 + (pick * 7 + j * 11) % N;
            vector<int> v;
            if (!ks.q[kd][s].empty())
                v = q_iter(db, ks, w, &ks.q[kd][s], nfill, extra_ok);
            else if (kd == 2) { // same answer by PIterQ: the extensions without the key itself
                for (int y : q_iter(db, ks, w, &ks.q[1][s], nfill, extra_ok))
                    if (y / 1000 != s)
                        v.push_back(y);
            }
            if (!first)
                o += ",";
            first = false;
            o += "[" + std::to_string(kd) + "," + std::to_string(s) + ",[";
            for (size_t i = 0; i < v.size(); i++)
                o += (i ? "," : "") + std::to_string(v[i]);
            o += "]]";
        }
        o += "]";
    }
    if (ks.cfg.bal > 0 && extras_present && full) {
        int miss = 0;
        for (auto& k : ks.ballast) {
            MBData d;
            string v = ballast_value(k);
            if (db.Find(k.data(), k.size(), d) != MBError::SUCCESS || d.data_len != (int)v.size() || memcmp(d.buff, v.data(), v.size()))
                miss++;
        }
        if (miss)
            extra_ok = false;
    }
    if (!extra_ok)
        o += ",\"lost\":[1]";
    return o;
}

// ---------------------------------------------------------------- files
inline void rmtree(const string& d)
{
    DIR* dp = opendir(d.c_str());
    if (!dp)
        return;
    while (dirent* e = readdir(dp)) {
        string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
            rmtree(p);
        else
            unlink(p.c_str());
    }
    closedir(dp);
    rmdir(d.c_str());
}

inline MBConfig mbconfig(const Config& c, const string& dir, bool writer, const string& qdir)
{
    static string keep_d, keep_q; // mbdir is a borrowed pointer
    keep_d = dir;
    keep_q = qdir;
    MBConfig m;
    memset(&m, 0, sizeof m);
    m.mbdir = keep_d.c_str();
    m.queue_dir = keep_q.c_str();
    m.options = writer ? CONSTS::WriterOptions() : CONSTS::ReaderOptions();
    auto has = [&](char x) { return c.opt.find(x) != string::npos; };
    if (has('j'))
        m.options |= CONSTS::OPTION_JEMALLOC;
    if (has('p') && (writer || has('R')))
        m.options |= CONSTS::OPTION_PREFIX_CACHE;
    if (has('m'))
        m.options |= CONSTS::MEMORY_ONLY_MODE;
    m.jemalloc_keep_db = has('k');
    m.block_size_index = c.idxblk << 20;
    m.block_size_data = c.datblk << 20;
    m.max_num_index_block = m.max_num_data_block = c.nblk;
    m.memcap_index = (c.capI ? c.capI : (size_t)c.idxblk * c.nblk) << 20;
    m.memcap_data = (c.capD ? c.capD : (size_t)c.datblk * c.nblk) << 20;
    m.num_entry_per_bucket = c.bucket;
    m.queue_size = c.qsize;
    return m;
}
} // namespace kv
