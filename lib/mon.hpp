// Shared runtime-monitoring harness: deterministic case loop, reporting, coverage accounting.
// A driver defines MON_MAIN(run_random, fixed_table). It never reads the clock to decide anything.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <exception>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>

namespace mon {
typedef uint64_t u64;
using std::string;
using std::vector;

inline u64 mix(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline u64 hash_str(const string& s, u64 h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix(h); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    unsigned below(unsigned n) { return n ? (unsigned)((next() >> 11) % n) : 0; }
    int range(int a, int b) { return a + (int)below((unsigned)(b - a + 1)); }
    bool chance(unsigned pct) { return below(100) < pct; }
    template<class T> const T& pick(const vector<T>& v) { return v[below((unsigned)v.size())]; }
    template<class T> void shuffle(vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below((unsigned)i)]); }
};

inline string show(const string& s) {
    string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
inline string show(const std::wstring& s) {
    string r = "L\"";
    char b[16];
    for (wchar_t c : s) {
        if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, sizeof b, "\\u{%x}", (unsigned)c); r += b; }
    }
    return r + "\"";
}
template<class S> inline string show(const vector<S>& v) { string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ' '; r += show(v[i]); } return r + "]"; }
inline string num(long long v) { return std::to_string(v); }

inline string json(const string& s) {
    string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

struct State {
    FILE* out = stdout;
    std::map<string, u64> counters;
    std::unordered_set<u64> seen;
    vector<string> samples;
    u64 evals = 0, viols = 0;
    std::map<string, int> viol_keys;
    bool verbose = false;
    volatile u64* progress = nullptr;
};
inline State& st() { static State s; return s; }

struct Ctx {
    Rng r;
    u64 idx;
    string cur;     // description of the current case, shown with a violation
    void fail(const string& key, const string& msg) {
        State& s = st();
        ++s.viols;
        int& n = s.viol_keys[key];
        if (++n <= 3 && s.viol_keys.size() <= 40) {
            fprintf(s.out, "{\"t\":\"viol\",\"idx\":%llu,\"key\":%s,\"msg\":%s,\"case\":%s}\n", (unsigned long long)idx, json(key).c_str(), json(msg.substr(0, 4000)).c_str(), json(cur.substr(0, 4000)).c_str());
            fflush(s.out);
        }
        if (s.verbose) fprintf(stderr, "FAIL %s: %s\n  case: %s\n", key.c_str(), msg.c_str(), cur.c_str());
    }
    // an evaluation of the property by its oracle, on a distinct non-trivial case
    void eval() { ++st().evals; }
    void nontrivial(const string& canon) { if (st().seen.size() < 3000000) st().seen.insert(hash_str(canon)); }
    void nontrivial(u64 h) { if (st().seen.size() < 3000000) st().seen.insert(mix(h)); }
    void count(const char* name, u64 n = 1) { st().counters[name] += n; }
    void sample(const string& s) { if (st().samples.size() < 3) st().samples.push_back(s.substr(0, 600)); }
    bool want_sample() const { return st().samples.size() < 3; }
};

typedef std::function<void(Ctx&)> Case;
struct Fixed { string name; Case fn; };

inline void on_cpu(int) { static const char m[] = "\nMON-HANG: case exceeded its CPU budget\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(97); }

inline int run(int argc, char** argv, const vector<Fixed>& fixed, const Case& random_case) {
    u64 seed = 1, n = 0, shard = 0, shards = 1, start = 0, only = ~0ull;
    int cpu = 20;
    string out, hashes, prog;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        auto val = [&] { return string(argv[++i]); };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--n") n = strtoull(val().c_str(), 0, 10);
        else if (a == "--shard") shard = strtoull(val().c_str(), 0, 10);
        else if (a == "--shards") shards = strtoull(val().c_str(), 0, 10);
        else if (a == "--start") start = strtoull(val().c_str(), 0, 10);
        else if (a == "--case") only = strtoull(val().c_str(), 0, 10);
        else if (a == "--cpu") cpu = atoi(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--hashes") hashes = val();
        else if (a == "--progress") prog = val();
        else if (a == "--verbose") st().verbose = true;
    }
    State& s = st();
    if (!out.empty()) { s.out = fopen(out.c_str(), "a"); if (!s.out) return 3; }
    static u64 dummy;
    s.progress = &dummy;
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 8)) return 3;
        void* p = mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) return 3;
        s.progress = (volatile u64*)p;
    }
    signal(SIGPROF, on_cpu);
    auto arm = [&](int sec) { itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, 0); };
    const u64 total = fixed.size() + n;
    auto one = [&](u64 i) {
        *s.progress = i + 1;
        Ctx c;
        c.idx = i;
        c.r = Rng(mix(seed * 1000003ull + 17) ^ mix(i + 0x5bd1e995));
        static unsigned since_arm = 0;
        if (since_arm++ % 16 == 0 || only != ~0ull || i < fixed.size()) arm(cpu);
        try {
            if (i < fixed.size()) { c.cur = "fixed case " + fixed[i].name; fixed[i].fn(c); }
            else random_case(c);
        } catch (const std::exception& e) {
            c.fail("unexpected-exception", string("unexpected exception escaped to the driver: ") + e.what());
        } catch (...) {
            c.fail("unexpected-exception", "unexpected non-standard exception escaped to the driver");
        }
    };
    if (only != ~0ull) one(only);
    else for (u64 i = start; i < total; ++i) if (i % shards == shard) one(i);
    arm(0);
    *s.progress = 0;
    fprintf(s.out, "{\"t\":\"sum\",\"evals\":%llu,\"viols\":%llu,\"fixed\":%llu,\"counters\":{", (unsigned long long)s.evals, (unsigned long long)s.viols, (unsigned long long)fixed.size());
    bool first = true;
    for (auto& c : s.counters) { fprintf(s.out, "%s%s:%llu", first ? "" : ",", json(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(s.out, "},\"samples\":[");
    for (size_t i = 0; i < s.samples.size(); ++i) fprintf(s.out, "%s%s", i ? "," : "", json(s.samples[i]).c_str());
    fprintf(s.out, "]}\n");
    if (s.out != stdout) fclose(s.out); else fflush(stdout);
    if (!hashes.empty()) {
        FILE* f = fopen(hashes.c_str(), "ab");
        if (!f) return 3;
        vector<u64> v(s.seen.begin(), s.seen.end());
        if (!v.empty() && fwrite(v.data(), 8, v.size(), f) != v.size()) return 3;
        fclose(f);
    }
    return 0;
}
} // namespace mon

#define MON_MAIN(FIXED, RANDOM) int main(int argc, char** argv) { return mon::run(argc, argv, FIXED, RANDOM); }
