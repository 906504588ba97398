// Storage driver: runs the programs of specs/store/StoreGen on the real library and
// records what is visible afterwards: contents, count, used and pending storage, and the
// extents of everything that can be reached.
// RT: none
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include "db.h"
#include "dict.h"
#include "dict_mem.h"
#include "error.h"
#include "mabain_consts.h"
#include "mbt_base.h"
#include "resource_pool.h"
using namespace mabain;
using std::string;
using std::vector;

typedef vector<string> Op;
struct Job {
    string id;
    std::map<string, int> n;
    vector<Op> ops;
    int get(const char* k, int d) const { auto i = n.find(k); return i == n.end() ? d : i->second; }
};
static vector<string> split(const string& s, char c)
{
    vector<string> r;
    size_t i = 0;
    while (i <= s.size()) {
        size_t j = s.find(c, i);
        if (j == string::npos) j = s.size();
        if (j > i) r.push_back(s.substr(i, j - i));
        i = j + 1;
    }
    return r;
}

// everything reachable from the index
struct Walk : public DBTraverseBase {
    typedef vector<std::pair<size_t, size_t>> X;
    X idx, dat;
    Walk(const DB& db) : DBTraverseBase(db) { TraverseDB(0); std::sort(idx.begin(), idx.end()); std::sort(dat.begin(), dat.end()); }
    void DoTask(int, DBTraverseNode& t) override
    {
        if (t.buffer_type & BUFFER_TYPE_NODE) idx.push_back({ t.node_offset, (size_t)t.node_size });
        if (t.buffer_type & BUFFER_TYPE_EDGE_STR) idx.push_back({ t.edgestr_offset, (size_t)t.edgestr_size });
        if (t.buffer_type & BUFFER_TYPE_DATA) dat.push_back({ t.data_offset, (size_t)t.data_size });
    }
};

struct Run {
    const Job& j;
    FILE* o;
    string dir;
    DB* db = nullptr;
    int nk, ver = 0;
    vector<int> val, siz;
    Run(const Job& jj, FILE* oo, const string& d) : j(jj), o(oo), dir(d), nk(jj.get("nk", 40)), val(nk + 1, 0), siz(nk + 1, 0) {}
    static int size_of(int z, int v)
    {
        static const int S[] = { 5, 9, 24, 60, 61, 300, 2000, 30000 };
        (void)v;
        return S[z & 7];
    }
    string key(int k)
    {
        if (k == 0) return "~bump";
        char b[64];
        switch (j.get("ks", 0)) {
        case 0: snprintf(b, sizeof b, "key%05d", k * 7919 % 99991); return b;
        case 1: { uint32_t h = k * 2654435761u; return string((char*)&h, 4); }
        case 2: { string s; int x = k; while (x) { s += char('a' + x % 3); x /= 3; } return s; }     // nested
        case 3: { snprintf(b, sizeof b, "%d", k); string s = b; while ((int)s.size() < 4 + k % 37) s += char('A' + k % 23); return s; } // long tails
        default: { string s(1, (char)(k % 251)); s += (char)(k / 251 + 1); s += "x"; return s; } // wide nodes
        }
    }
    string value(int v, int z)
    {
        string s(size_of(z, v), (char)('a' + v % 26));
        memcpy(&s[0], &v, 4);
        return s;
    }
    int read(int k)
    {
        MBData d;
        string ks = key(k);
        int r = db->Find(ks.data(), ks.size(), d);
        if (r == MBError::NOT_EXIST) return 0;
        if (r != MBError::SUCCESS) return -100 - r;
        if (d.data_len < 4) return -1;
        int v;
        memcpy(&v, d.buff, 4);
        for (int i = 4; i < d.data_len; i++)
            if (((char*)d.buff)[i] != (char)('a' + v % 26)) return -2;
        if (k && k <= nk && d.data_len != size_of(siz[k], v)) return -3;
        return v;
    }
    bool open()
    {
        MBConfig f;
        memset(&f, 0, sizeof f);
        f.mbdir = dir.c_str();
        f.options = CONSTS::WriterOptions();
        f.block_size_index = f.block_size_data = 4 << 20;
        f.max_num_index_block = f.max_num_data_block = 64;
        f.memcap_index = f.memcap_data = (size_t)(j.get("cap", 0) ? j.get("cap", 0) : 256) << 20;
        f.num_entry_per_bucket = j.get("epb", 8);
        f.queue_size = 8;
        f.queue_dir = dir.c_str();
        db = new DB(f);
        return db->is_open();
    }
    IndexHeader* hdr() { return db->GetDictPtr()->GetHeaderPtr(); }
    void vals()
    {
        fprintf(o, "\"f\":[");
        for (int k = 1; k <= nk; k++) fprintf(o, "%s%d", k > 1 ? "," : "", read(k));
        fprintf(o, "],\"cnt\":%ld", (long)db->Count());
    }
    void store(bool ext)
    {
        Walk w(*db);
        size_t si = 0, sd = 0;
        for (auto& x : w.idx) si += x.second;
        for (auto& x : w.dat) sd += x.second;
        size_t b0 = db->GetDictPtr()->GetMM()->GetRootOffset() + db->GetDictPtr()->GetMM()->GetNodeSizePtr()[NUM_ALPHABET - 1];
        fprintf(o, ",\"ti\":%ld,\"td\":%ld,\"pi\":%ld,\"pd\":%ld,\"bi\":%ld,\"bd\":%ld,\"si\":%ld,\"sd\":%ld,\"nd\":%ld", (long)hdr()->m_index_offset, (long)hdr()->m_data_offset,
            (long)db->GetPendingIndexBufferSize(), (long)db->GetPendingDataBufferSize(), (long)b0, (long)db->GetDictPtr()->GetStartDataOffset(), (long)si, (long)sd, (long)w.dat.size());
        for (int q = 0; q < 2; q++) {
            fprintf(o, ",\"%s\":[", q ? "y" : "x");
            if (ext) { int n = 0; for (auto& x : q ? w.dat : w.idx) fprintf(o, "%s[%ld,%ld]", n++ ? "," : "", (long)x.first, (long)x.second); }
            fprintf(o, "]");
        }
        fprintf(o, ",\"full\":%d", ext);
    }
    int add(int k, int v, int z, int ow)
    {
        string ks = key(k), vs = value(v, z);
        int r = db->Add(ks.data(), ks.size(), vs.data(), vs.size(), ow);
        if (r == MBError::SUCCESS && k) { val[k] = v; siz[k] = z; }
        return r;
    }
    int rem(int k)
    {
        string ks = key(k);
        int r = db->Remove(ks.data(), ks.size());
        if (r == MBError::SUCCESS && k) val[k] = 0;
        return r;
    }
    void bulk(const char* e, int f, int n, int st, int z, int ow)
    {
        int ok = 0, bad = 0, v0 = ver + 1;
        for (int i = 0, k = f; i < n && k <= nk; i++, k += st) {
            int r = e[0] == 'a' ? add(k, ++ver, z, ow) : rem(k);
            if (r == MBError::SUCCESS) ok++;
            else if (r != (e[0] == 'a' ? MBError::IN_DICT : MBError::NOT_EXIST)) bad++;
        }
        fprintf(o, "{\"e\":\"%s\",\"k\":%d,\"n\":%d,\"st\":%d,\"ow\":%d,\"v\":%d,\"ok\":%d,\"bad\":%d}\n", e, f, n, st, ow, v0, ok, bad);
    }
    void step(const Op& p)
    {
        auto A = [&](int i) { return atoi(p[i].c_str()); };
        char c = p[0][0];
        if (c == 'a') bulk("a", A(1), A(2), A(3), A(4), A(5));
        else if (c == 'r') bulk("r", A(1), A(2), A(3), 0, 0);
        else if (c == 'B') {
            int ok = 0;
            for (int i = 0; i < A(1); i++) ok += add(0, 1, 0, 1) == MBError::SUCCESS;
            fprintf(o, "{\"e\":\"b\",\"n\":%d,\"ok\":%d}\n", A(1), ok);
        } else if (c == 'A') {
            int r = db->RemoveAll();
            if (r == 0) std::fill(val.begin(), val.end(), 0);
            fprintf(o, "{\"e\":\"A\",\"r\":%d}\n", r);
        } else if (c == 'o') {
            db->Close();
            delete db;
            bool ok = open();
            fprintf(o, "{\"e\":\"o\",\"ok\":%d}\n", ok);
            if (!ok) throw 1;
        } else if (c == 'c') {
            int r = db->CollectResource(1, 1, MAX_6B_OFFSET, MAX_6B_OFFSET);
            fprintf(o, "{\"e\":\"c\",\"r\":%d}\n", r);
        } else if (c == 'E') { // kind percent also-collect
            long u = hdr()->m_index_offset + hdr()->m_data_offset, cn = db->Count();
            long ms = MAX_6B_OFFSET, mc = MAX_6B_OFFSET;
            if (A(1) == 0) mc = cn * A(2) / 100;
            if (A(1) == 1) ms = u * A(2) / 100;
            if (A(1) == 2) { mc = cn; ms = u; }
            if (A(1) == 3) { mc = cn * A(2) / 100; ms = u * A(2) / 100; }
            int g = A(3), ei = hdr()->eviction_bucket_index;
            int r = db->CollectResource(g, g, ms, mc);
            for (int k = 1; k <= nk; k++) if (val[k] && read(k) == 0) val[k] = 0;
            fprintf(o, "{\"e\":\"v\",\"rm\":%d,\"ex\":%d,\"r\":%d,\"g\":%d,\"half\":%d,\"ei\":%d,\"zero\":%d,", db->Count() < cn, u > ms || cn > mc, r, g, cn > 0 && 2 * mc <= cn, ei, read(0) == 0);
            vals();
            fprintf(o, "}\n");
        } else if (c == 's') {
            fprintf(o, "{\"e\":\"s\",");
            vals();
            store(A(1));
            fprintf(o, "}\n");
        }
    }
    void all()
    {
        fprintf(o, "{\"e\":\"h\",\"nk\":%d,\"epb\":%d}\n", nk, j.get("epb", 8));
        if (!open()) { fprintf(o, "{\"e\":\"o\",\"ok\":0}\n"); return; }
        for (size_t i = 0; i < j.ops.size(); i++) {
            const Op& p = j.ops[i];
            if (p[0] == "Y") { // the next len operations, n times, each time returning to the same contents
                int n = atoi(p[1].c_str()), len = std::min<int>(atoi(p[2].c_str()), j.ops.size() - i - 1);
                vector<int> v0 = val, z0 = siz;
                bool opens = false, coll = false;
                for (int q = 1; q <= len; q++) { opens |= j.ops[i + q][0] == "o"; coll |= j.ops[i + q][0] == "c"; }
                for (int c = 1; c <= n; c++) {
                    for (int q = 1; q <= len; q++)
                        if (j.ops[i + q][0] != "s" || c == 1 || c == n) step(j.ops[i + q]);
                    for (int k = 1; k <= nk; k++) {
                        if (!v0[k] && val[k]) bulk("r", k, 1, 1, 0, 0);
                        if (v0[k] && (!val[k] || siz[k] != z0[k])) bulk("a", k, 1, 1, z0[k], 1);
                    }
                    fprintf(o, "{\"e\":\"y\",\"i\":%d,\"n\":%d,\"b\":%d,\"ti\":%ld,\"td\":%ld}\n", c, n, !opens || coll, (long)hdr()->m_index_offset, (long)hdr()->m_data_offset);
                }
                step({ "s", "1" });
                i += len;
            } else step(p);
        }
        step({ "s", "1" });
        db->Close();
        delete db;
    }
};

int main(int argc, char** argv)
{
    vector<Job> jobs;
    FILE* f = fopen(argv[1], "r");
    static char line[1 << 20];
    while (f && fgets(line, sizeof line, f)) {
        string s = line;
        while (!s.empty() && s.back() == '\n') s.pop_back();
        if (s[0] != 'J') continue;
        size_t bar = s.find(" | ");
        Job j;
        auto h = split(s.substr(2, bar - 2), ' ');
        j.id = h[0];
        for (size_t i = 1; i < h.size(); i++) { size_t e = h[i].find('='); j.n[h[i].substr(0, e)] = atoi(h[i].c_str() + e + 1); }
        for (auto& t : split(s.substr(bar + 3), ';')) j.ops.push_back(split(t, ','));
        jobs.push_back(j);
    }
    int np = atoi(argv[4]);
    bool dbg = getenv("SDBG");
    vector<pid_t> ch;
    for (int p = 0; p < np; p++) {
        pid_t pid = fork();
        if (pid) { ch.push_back(pid); continue; }
        FILE* o = fopen((string(argv[2]) + "." + std::to_string(p)).c_str(), "w");
        for (size_t i = p; i < jobs.size(); i += np) {
            fprintf(o, "@%s\n", jobs[i].id.c_str());
            fflush(o);
            string dir = string(argv[3]) + "/s" + std::to_string(getpid()) + "/";
            mkdir(dir.c_str(), 0755);
            pid_t q = fork();
            if (q == 0) {
                if (!dbg) { freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); }
                alarm(200);
                try { Run r(jobs[i], o, dir); r.all(); } catch (...) { fprintf(o, "{\"e\":\"lost\",\"sig\":0}\n"); }
                fflush(o);
                _exit(0);
            }
            int st;
            waitpid(q, &st, 0);
            if (WIFSIGNALED(st)) { fseek(o, 0, SEEK_END); fprintf(o, "\n{\"e\":\"lost\",\"sig\":%d}\n", WTERMSIG(st)); fflush(o); }
            system(("rm -rf '" + dir + "'").c_str());
        }
        fclose(o);
        _exit(0);
    }
    int rc = 0;
    for (pid_t c : ch) { int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 1; }
    return rc;
}
