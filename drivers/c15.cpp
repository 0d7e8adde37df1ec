// C15: configuration files read by name while read() is made to fail, to be interrupted or to be
// short at chosen points. The wrapper below is the monitor: it knows whether the file was delivered
// in full, and the table of open descriptors is compared before and after every call.
#include "spell.hpp"
#include <sstream>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <errno.h>
using namespace cli; using mon::Ctx;

namespace fault {
static bool on = false; static ino_t ino = 0; static dev_t dev = 0;
static int fail_at = -1, err = EIO, eintr_every = 0, short_to = 0;      // plan
static int calls = 0, failed = 0, interrupted = 0; static long delivered = 0; static bool eof = false;
}
extern "C" ssize_t read(int fd, void* b, size_t n) {
    using namespace fault;
    struct stat s;
    if (!on || fstat(fd, &s) || s.st_ino != ino || s.st_dev != dev) return syscall(SYS_read, fd, b, n);
    int k = calls++;
    if (eintr_every && k % eintr_every == 0) { ++interrupted; errno = EINTR; return -1; }
    if (fail_at >= 0 && k >= fail_at) { ++failed; errno = err; return -1; }
    if (short_to && n > (size_t)short_to) n = (size_t)short_to;
    ssize_t r = syscall(SYS_read, fd, b, n);
    if (r > 0) delivered += r; else if (r == 0) eof = true; else ++failed;
    return r;
}
static vector<string> open_files() {
    // the sanitizer's memory watchdog opens files of /proc at any time
    static dev_t proc = [] { struct stat b; return stat("/proc/self/statm", &b) ? (dev_t)0 : b.st_dev; }();
    vector<string> v;
    for (int fd = 0; fd < 200; ++fd) { struct stat b; if (!fstat(fd, &b) && b.st_dev != proc) v.push_back(std::to_string(fd) + "=" + std::to_string(b.st_dev) + ":" + std::to_string(b.st_ino)); }
    return v;
}
struct Out { enum K { OPTS, READ_ERROR, PARSE_ERROR, OTHER } k = OPTS; string text, what; };
static string n8(const string& s) { return s; }
static string n8(const std::wstring& w) { string s; for (wchar_t ch : w) s += ch < 128 ? (char)ch : '?'; return s; }
template<class CH> string opts(const vector<po::basic_option<CH> >& v) { string r; for (auto& o : v) { r += o.string_key + (o.unregistered ? "(u)=" : "="); for (auto& x : o.value) r += mon::show(n8(x)); r += ";"; } return r; }
template<class CH> Out by_name(const string& fn, const po::options_description& d, bool unreg) {
    Out o;
    try { o.text = opts<CH>(po::parse_config_file<CH>(fn.c_str(), d, unreg).options); }
    catch (const po::reading_file& e) { o.k = Out::READ_ERROR; o.what = e.what(); }
    catch (const po::error& e) { o.k = Out::PARSE_ERROR; o.what = e.what(); }
    catch (const std::exception& e) { o.k = Out::OTHER; o.what = string(typeid(e).name()) + ": " + e.what(); }
    return o;
}
template<class CH> Out by_text(const string& t, const po::options_description& d, bool unreg) {
    Out o;
    try { std::basic_istringstream<CH> is(std::basic_string<CH>(t.begin(), t.end())); o.text = opts<CH>(po::parse_config_file(is, d, unreg).options); }
    catch (const po::error& e) { o.k = Out::PARSE_ERROR; o.what = e.what(); }
    return o;
}
static string dir() { static string d = string(getenv("VERIF_WORK") ? getenv("VERIF_WORK") : "/tmp") + "/c15-" + std::to_string(getpid()); return d; }
static void describe(po::options_description& d) { d.add_options()("alpha", po::value<vector<string> >(), "d")("sec.beta", po::value<vector<string> >(), "d")("wild.*", po::value<vector<string> >(), "d"); }
static string gen(Rng& r, bool& bad) {
    string t; bad = false;
    unsigned target = r.chance(40) ? r.below(200) : r.chance(60) ? r.below(9000) + 8000 : r.below(30000);
    if (r.chance(3)) return "";
    while (t.size() < target) {
        unsigned k = r.below(100);
        if (k < 60) t += (r.chance(50) ? "alpha = " : "alpha=") + string(r.below(r.chance(90) ? 40 : 3000), (char)('a' + r.below(26)));
        else if (k < 75) t += "[sec]\nbeta = x" + std::to_string(r.below(1000)) + "\n[]";
        else if (k < 85) t += "#" + string(r.below(80), 'c');
        else if (k < 90) t += "";
        t += "\n";
        if (t.find("[]") != string::npos) { size_t p; while ((p = t.find("[]\n")) != string::npos) t.replace(p, 3, "[wild]\nw = 1\n[sec]\n"); t += "beta = y\n"; for (unsigned i = 0; t.size() < target; ++i) t += "beta = " + string(r.below(60), 'z') + "\n"; }
    }
    if (r.chance(10)) { bad = true; size_t p = t.size() ? t.find('\n', r.below((unsigned)t.size())) : string::npos; t.insert(p == string::npos ? t.size() : p + 1, r.chance(50) ? "no option line\n" : "unknown-name = 1\n"); }
    if (!t.empty() && r.chance(30)) t.pop_back();
    return t;
}
template<class CH> void one(Ctx& c, const string& fn, const string& text, const po::options_description& d, bool unreg, const char* kind) {
    Rng& r = c.r; using namespace fault;
    fail_at = -1; eintr_every = 0; short_to = 0; err = EIO; calls = failed = interrupted = 0; delivered = 0; eof = false;
    static const int errs[] = {EIO, EISDIR, EAGAIN, ENXIO, ESTALE, ENOMEM, EBADF, EINVAL, EFAULT, EOVERFLOW};
    unsigned plan = r.below(10); bool interrupt = r.chance(20);
    if (interrupt) eintr_every = 2 + (int)r.below(3);
    if (r.chance(35)) short_to = r.chance(50) ? 1 + (int)r.below(40) : 512 + (int)r.below(4000);
    if (plan < 6) { unsigned est = (unsigned)(text.size() / (short_to ? (size_t)short_to : 8191) + 2); fail_at = (int)r.below(r.chance(50) ? std::min(est, 4u) : est + 1); err = errs[r.below(10)]; if (r.chance(60)) err = EIO; }
    Out want = by_text<CH>(text, d, unreg);
    vector<string> before = open_files();
    on = true; Out got = by_name<CH>(fn, d, unreg); on = false;
    vector<string> after = open_files();
    bool full = delivered == (long)text.size() && !failed;
    c.cur = string(kind) + " file of " + std::to_string(text.size()) + " bytes " + mon::show(text.substr(0, 200)) + " fail at read " + std::to_string(fail_at) + " errno " + std::to_string(err) + " short " + std::to_string(short_to) + " eintr " + std::to_string(eintr_every) + "; reads " + std::to_string(calls) + " delivered " + std::to_string(delivered) + " failed " + std::to_string(failed);
    c.eval(); c.count("reads", (unsigned)calls); if (interrupted) c.count("interrupted");
    if (before != after) c.fail("descriptor-leak", mon::show(before) + " -> " + mon::show(after));
    if (failed) {
        c.count(delivered ? "failed-midway" : "failed-at-start"); c.nontrivial(c.cur); if (c.want_sample() && delivered) c.sample(c.cur.substr(0, 120) + " ... -> " + got.what);
        if (got.k == Out::OPTS) c.fail("truncated-result", "options returned for a file whose reading failed: " + got.text.substr(0, 300));
        else if (got.k == Out::OTHER) c.fail("read-error-class", got.what);
        else if (got.k == Out::READ_ERROR) { if (got.what.find(fn) == string::npos) c.fail("file-not-named", got.what); }
        // a defect in the part that was read may be reported instead, but only a real one
        else if (want.k != Out::PARSE_ERROR || want.what != got.what) c.fail("spurious-error", got.what);
    } else if (want.k == Out::PARSE_ERROR) {
        c.count("parse-errors");
        if (got.k != Out::PARSE_ERROR || got.what != want.what) c.fail("outcome", got.text.substr(0, 300) + got.what + " expected error " + want.what);
    } else {
        c.count(short_to ? "complete-short-reads" : "complete");
        if (got.k != Out::OPTS) c.fail("spurious-error", got.what);
        else if (!full) c.fail("truncated-result", "options returned though the file was not read to its end");
        else if (got.text != want.text) c.fail("outcome", "got " + got.text.substr(0, 500) + " expected " + want.text.substr(0, 500));
    }
}
static void random_case(Ctx& c) {
    Rng& r = c.r; static bool made = false; static int n = 0;
    if (!made) { mkdir(dir().c_str(), 0700); made = true; atexit([] { rmdir(dir().c_str()); }); }
    bool bad; string text = gen(r, bad), fn = dir() + "/f" + std::to_string(n++ % 7) + (r.chance(20) ? " with %canonical_option% name" : ".cfg");
    FILE* o = fopen(fn.c_str(), "wb"); if (!o) throw std::runtime_error("scratch file"); fwrite(text.data(), 1, text.size(), o); fclose(o);
    struct stat s; stat(fn.c_str(), &s); fault::ino = s.st_ino; fault::dev = s.st_dev;
    po::options_description d; describe(d);
    bool unreg = r.chance(40);
    one<char>(c, fn, text, d, unreg, "narrow"); one<wchar_t>(c, fn, text, d, unreg, "wide");
    unlink(fn.c_str());
}
template<class CH> void must_fail(Ctx& c, const string& fn, const string& what) {
    po::options_description d; describe(d); c.cur = what + " " + mon::show(fn); c.eval(); c.nontrivial(c.cur + (sizeof(CH) > 1 ? "w" : "n")); c.count("unopenable");
    vector<string> before = open_files(); Out o = by_name<CH>(fn, d, true);
    if (open_files() != before) c.fail("descriptor-leak", what);
    if (o.k != Out::READ_ERROR) c.fail(o.k == Out::OPTS ? "truncated-result" : "read-error-class", "no reading_file error: " + o.text + o.what);
    else if (!fn.empty() && o.what.find(fn) == string::npos) c.fail("file-not-named", o.what);
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"names that can not be read", [](Ctx& c) {
        string base = dir() + "-x"; mkdir(base.c_str(), 0700);
        int fd = open((base + "/plain").c_str(), O_CREAT | O_WRONLY, 0600); close(fd);
        if (symlink("loop", (base + "/loop").c_str())) {} if (symlink("nowhere", (base + "/dangling").c_str())) {}
        vector<std::pair<string, string> > v = {{base, "directory"}, {base + "/", "directory"}, {base + "/absent", "absent file"}, {base + "/absent/x", "absent directory"}, {base + "/plain/x", "file used as directory"}, {base + "/" + string(300, 'n'), "name too long"}, {base + "/loop", "symbolic link loop"}, {base + "/dangling", "dangling link"}, {"", "empty name"}, {base + "/plain/", "file with slash"}};
        for (auto& x : v) { must_fail<char>(c, x.first, x.second); must_fail<wchar_t>(c, x.first, x.second); }
        for (const char* n : {"/plain", "/loop", "/dangling"}) unlink((base + n).c_str());
        rmdir(base.c_str());
    }});
    f.push_back({"bytes a wide file can not decode", [](Ctx& c) {
        string fn = dir() + ".bytes"; po::options_description d; describe(d);
        for (string text : {string("alpha = ok\nalpha = \xff\n"), "alpha = ok\n# \x80" + string("\nalpha = later\n"), string(9000, '\n') + "alpha=\xc3(\n"}) {
            FILE* o = fopen(fn.c_str(), "wb"); fwrite(text.data(), 1, text.size(), o); fclose(o);
            c.cur = "wide " + mon::show(text.substr(0, 60)); c.eval(); c.nontrivial(c.cur);
            Out x = by_name<wchar_t>(fn, d, false);
            if (x.k == Out::OPTS) c.fail("truncated-result", x.text); 
            Out y = by_name<char>(fn, d, false), z = by_text<char>(text, d, false);
            if (y.k != z.k || y.text != z.text) c.fail("outcome", y.text + " expected " + z.text);
        }
        unlink(fn.c_str());
    }});
    f.push_back({"non-ASCII text in a UTF-8 locale", [](Ctx& c) {
        string fn = dir() + ".utf8"; po::options_description d; describe(d);
        std::locale old = std::locale::global(std::locale("C.utf8"));
        for (int pad = 0; pad < 1100; pad += pad < 60 || pad > 980 ? 1 : 40) {
            string text = "alpha = " + string((size_t)pad, 'x') + "\xd1\x8f\xe2\x82\xac\xf0\x9f\x98\x80\nalpha = 2";
            FILE* o = fopen(fn.c_str(), "wb"); fwrite(text.data(), 1, text.size(), o); fclose(o);
            c.cur = "wide UTF-8 file, padding " + std::to_string(pad); c.eval(); c.nontrivial(c.cur);
            std::wstring got, want = std::wstring((size_t)pad, L'x') + L"\x44f\x20ac\x1f600|2|";
            try { for (auto& x : po::parse_config_file<wchar_t>(fn.c_str(), d).options) got += x.value[0] + L"|"; } catch (const std::exception& e) { c.fail("spurious-error", e.what()); }
            if (got != want) c.fail("outcome", mon::show(got));
            // cut inside the last character
            text = "alpha = 1\nalpha = " + string((size_t)pad, 'x') + "\xe2\x82"; o = fopen(fn.c_str(), "wb"); fwrite(text.data(), 1, text.size(), o); fclose(o);
            Out x = by_name<wchar_t>(fn, d, false); if (x.k == Out::OPTS) c.fail("truncated-result", "a file ending within a character: " + x.text);
        }
        std::locale::global(old); unlink(fn.c_str());
    }});
    f.push_back({"every failing read of a file", [](Ctx& c) {
        string fn = dir() + ".every", text; po::options_description d; describe(d);
        for (int i = 0; i < 60; ++i) text += "alpha = v" + std::to_string(i) + "\n";
        FILE* o = fopen(fn.c_str(), "wb"); fwrite(text.data(), 1, text.size(), o); fclose(o);
        struct stat s; stat(fn.c_str(), &s); using namespace fault; ino = s.st_ino; dev = s.st_dev;
        for (int st = 1; st <= 64; st += st < 8 ? 1 : 7) for (int k = 0;; ++k) {
            fail_at = k; err = EIO; eintr_every = 0; short_to = st; calls = failed = 0; delivered = 0; eof = false;
            on = true; Out x = (k + st) % 2 ? by_name<char>(fn, d, false) : by_name<wchar_t>(fn, d, false); on = false;
            c.eval(); c.cur = "read " + std::to_string(k) + " of " + std::to_string(st) + " bytes fails"; c.nontrivial(c.cur); c.count("failed-midway");
            if (!failed) { if (x.k != Out::OPTS) c.fail("spurious-error", x.what); break; }
            if (x.k != Out::READ_ERROR) c.fail("truncated-result", x.text + x.what);
        }
        fail_at = -1; short_to = 0; unlink(fn.c_str());
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
