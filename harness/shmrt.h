// Run-time for library code compiled with -fsanitize=thread but linked without the
// sanitizer: every access to memory shared through mmap(MAP_SHARED) becomes an event.
//   recording: a log of all stores (file, offset, old bytes, new bytes), file creations and sizes
//   replay:    before every load the log may be advanced, so a reader runs against a writer
//              that is at any point of its log, and the writer moves at any load
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace shm {
struct Entry {
    int file; // index into files
    uint64_t off;
    uint32_t len; // 0: file creation / size change to off
    uint32_t pos; // position of the bytes in pool
    uint32_t oldpos;
    const void* pc;
};
struct Recorder {
    bool on = false; // recording
    std::vector<Entry> log;
    std::string pool;
    uint64_t loads = 0; // loads seen while counting or replaying
    bool replay = false;
    bool count_loads = false;
    bool nosleep = false; // waiting takes no time
    uint64_t max_loads = 0;
    // schedule: at load number first, bring the log to position second
    std::vector<std::pair<uint64_t, long>> sched;
    size_t next = 0;
    long* at = nullptr; // replay position, shared by forked readers: entries [0, at) are applied
    uint64_t total_stores = 0;
};
extern Recorder R;
extern std::string g_root; // only files below this directory are tracked

void start(); // begin recording (clears the log)
void stop(); // end recording
void settle_now(); // complete the last log entry
void seek(long pos); // apply / undo log entries so that [0,pos) are in memory
const std::string& file_name(int idx);

// page image of all files below a directory
struct Image {
    struct F {
        uint64_t size = 0;
        std::map<uint64_t, std::string> page;
    };
    std::map<std::string, F> f; // relative name
    void load(const std::string& dir);
    void apply(const Recorder& r, long from, long to, const std::string& dir);
    void write(const std::string& dir) const;
    // first difference with another image, "" if equal
    std::string diff(const Image& o) const;
};
}
