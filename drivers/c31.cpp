// C31: everything the library is given lies in read-only pages that end at a guard page and are gone
// after the call; the state of the process and of the user's streams is recorded around every call;
// every call is repeated with other left-over state (errno, stream formatting) and must say the same.
#include "hist.hpp"
#include "utf8.hpp"
#include "winmain.hpp"
#include <boost/program_options/environment_iterator.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <locale>
#include <memory>
#include <sys/stat.h>
using namespace cli; using mon::Ctx; typedef std::wstring W;
extern char** environ;
static Ctx* C;

// ---- memory that can be read, up to its last byte, and only for a while
struct Pages {
    struct Block { char* at; size_t size; }; vector<Block> all; bool ro = false;
    static size_t page() { static size_t p = (size_t)sysconf(_SC_PAGESIZE); return p; }
    void* put(const void* data, size_t n, size_t align) {
        size_t p = page(), k = (n + p - 1) / p * p; if (!k) k = p;
        char* at = (char*)mmap(0, k + p, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (at == (char*)MAP_FAILED) abort();
        if (mprotect(at + k, p, PROT_NONE)) abort();
        char* to = at + (k - n); if ((size_t)to % align) abort();
        memset(at, '-', k - n); if (n) memcpy(to, data, n);
        if (mprotect(at, k, PROT_READ)) abort();
        all.push_back(Block{at, k + p}); return to;
    }
    template<class CH> const CH* str(const std::basic_string<CH>& s) { return (const CH*)put(s.c_str(), (s.size() + 1) * sizeof(CH), sizeof(CH)); }
    template<class T> T* arr(const vector<T>& v) { return (T*)put(v.data(), v.size() * sizeof(T), alignof(T)); }
    void gone() { for (auto& b : all) munmap(b.at, b.size); C->count("blocks-unmapped", all.size()); all.clear(); }
    ~Pages() { for (auto& b : all) munmap(b.at, b.size); }
};

// ---- the state of the process
static string stream_state(const std::ios& s) { char b[160]; snprintf(b, sizeof b, "%x/%ld/%x/%x/%p/%p", (unsigned)s.flags(), (long)s.precision(), (unsigned)s.rdstate(), (unsigned)s.exceptions(), (void*)s.rdbuf(), (void*)s.tie()); return string(b) + s.getloc().name(); }
static string fds() { string r; if (DIR* d = opendir("/proc/self/fd")) { std::set<string> o; int me = dirfd(d); while (dirent* e = readdir(d)) { if (e->d_name[0] == '.' || atoi(e->d_name) == me) continue; char b[512]; string n = string("/proc/self/fd/") + e->d_name; ssize_t k = readlink(n.c_str(), b, sizeof b); if (k <= 0 || !strncmp(b, "/proc/", 6)) continue; o.insert(string(e->d_name) + ">" + string(b, (size_t)k)); } closedir(d); for (auto& x : o) r += x + " "; } return r; }
static string signals() { string r; for (int s = 1; s < 32; ++s) { struct sigaction a; memset(&a, 0, sizeof a); if (sigaction(s, 0, &a)) continue; char b[64]; snprintf(b, sizeof b, "%d:%p/%x ", s, (void*)a.sa_handler, (unsigned)a.sa_flags); if (a.sa_handler != SIG_DFL) r += b; } sigset_t m; sigprocmask(0, 0, &m); for (int s = 1; s < 32; ++s) if (sigismember(&m, s)) r += " m" + std::to_string(s); return r; }
static string size_of(int fd) { struct stat s; if (fstat(fd, &s) || !S_ISREG(s.st_mode)) return "-"; return std::to_string((long long)s.st_size); }
struct Process {
    string clocale, locale, cwd, open, sig, cout_, cerr_, clog_, cin_, sizes; mode_t mask; int round; char** env; string envtext; int exc; std::terminate_handler term; std::new_handler nh;
    Process() {
        clocale = setlocale(LC_ALL, 0); locale = std::locale().name(); char b[4096]; cwd = getcwd(b, sizeof b) ? b : "?"; open = fds(); sig = signals();
        cout_ = stream_state(std::cout); cerr_ = stream_state(std::cerr); clog_ = stream_state(std::clog); cin_ = stream_state(std::cin);
        std::cout.flush(); std::clog.flush(); fflush(stdout); fflush(stderr); sizes = size_of(1) + "," + size_of(2) + "," + std::to_string((long long)std::cout.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::out));
        mask = umask(0); umask(mask); round = fegetround(); env = environ; if (env) for (char** e = env; *e; ++e) envtext += string(*e) + "\n"; exc = std::uncaught_exceptions(); term = std::get_terminate(); nh = std::get_new_handler();
    }
    string differs(const Process& o) const {
        if (clocale != o.clocale || locale != o.locale) return "locale: " + clocale + "/" + locale + " became " + o.clocale + "/" + o.locale;
        if (cwd != o.cwd) return "directory: " + cwd + " became " + o.cwd; bool same = open == o.open; for (int k = 0; !same && k < 20; ++k) { usleep(2000); same = open == fds(); }   // the sanitizer's own thread looks at its memory use now and then
        if (!same) return "open files: " + open + " became " + o.open; if (sig != o.sig) return "signals: " + sig + " became " + o.sig;
        if (cout_ != o.cout_ || cerr_ != o.cerr_ || clog_ != o.clog_ || cin_ != o.cin_) return "standard streams: " + cout_ + " " + cerr_ + " " + clog_ + " " + cin_ + " became " + o.cout_ + " " + o.cerr_ + " " + o.clog_ + " " + o.cin_;
        if (sizes != o.sizes) return "output was written: " + sizes + " became " + o.sizes; if (mask != o.mask) return "umask"; if (round != o.round) return "rounding mode"; if (env != o.env) return "environ"; if (envtext != o.envtext) return "environment: " + mon::show(envtext) + " became " + mon::show(o.envtext);
        if (exc != o.exc) return "uncaught exceptions"; if (term != o.term || nh != o.nh) return "handlers"; return "";
    }
};
static string opts(const vector<po::option>& v) { string s; for (auto& o : v) s += o.string_key + "@" + std::to_string(o.position_key) + mon::show(o.value) + mon::show(o.original_tokens) + (o.unregistered ? "u" : "") + (o.case_insensitive ? "i" : "") + ";"; return s; }
static string opts(const vector<po::woption>& v) { string s; for (auto& o : v) s += o.string_key + "@" + std::to_string(o.position_key) + mon::show(o.value) + mon::show(o.original_tokens) + (o.unregistered ? "u" : "") + (o.case_insensitive ? "i" : "") + ";"; return s; }
static string text(const std::exception_ptr& e) {
    try { std::rethrow_exception(e); }
    catch (const po::ambiguous_option& x) { return string("ambiguous ") + x.what() + mon::show(x.alternatives()); }
    catch (const po::error_with_option_name& x) { return string("named ") + x.what() + "|" + x.get_option_name(); }
    catch (const std::exception& x) { return string("error ") + x.what(); }
    catch (...) { return "foreign"; }
}
static vector<std::pair<std::exception_ptr, string> > kept;     // errors, to be read again when all they came from is gone
// one call, watched: as it is, and again with something else left over in errno
static string guard(const std::function<string()>& f) { try { return f(); } catch (...) { std::exception_ptr e = std::current_exception(); string t = text(e); kept.push_back(std::make_pair(e, t)); C->count("errors-kept"); return t; } }
static string watched(const char* what, const std::function<string()>& f, bool twice = true) {
    Process before; errno = 0; string r = guard(f); Process after; string d = before.differs(after);
    if (!d.empty()) C->fail("process-state", string(what) + ": " + d);
    C->count(what); C->eval();
    static const int left[] = {ERANGE, EINVAL, EILSEQ, ENOMEM, ENOENT, 12345}; int n = !twice ? 0 : strcmp(what, "configuration-file") ? 1 : 134;   // a file is opened, read and closed: every number there is
    for (int k = 0; k < n; ++k) { errno = n > 1 ? k : C->r.chance(40) ? left[C->r.below(6)] : (int)C->r.below(134); int e = errno; string q = guard(f); if (q != r) { C->fail("errno-matters", string(what) + ": with errno " + std::to_string(e) + " gives " + q + " instead of " + r); break; } }
    return r;
}
// the same text twice: from pages and from ordinary memory
static void same(const char* what, const string& a, const string& b) { if (a != b) C->fail("input-representation", string(what) + ": from read-only memory " + a + " otherwise " + b); }

// a table declared out of guarded memory, which is gone before the table is used
static void declare(Pages& p, const Table& t, po::options_description& d, const string& text) {
    for (auto& o : t) { if (o.ar == FLAG) { if (C->r.chance(50)) d.add_options()(p.str(o.decl()), p.str(text)); else d.add_options()(p.str(o.decl()), semantic(o.ar), p.str(text)); } else if (C->r.chance(20)) d.add_options()(p.str(o.decl()), semantic(o.ar)); else d.add_options()(p.str(o.decl()), semantic(o.ar), p.str(text)); }
}
static string help_of(const po::options_description& d) { std::ostringstream os; os << d; return os.str(); }
static string names_of(const po::options_description& d) { string s; for (auto& o : d.options()) { s += o->format_name() + "|" + o->description() + "|" + o->long_name() + "|" + o->format_parameter() + ";"; auto l = o->long_names(); for (size_t i = 0; i < l.second; ++i) s += l.first[i] + ","; } return s; }

static void command_line(Rng& r) {
    GenOpt g; g.wild = r.chance(25); Table t = gen_table(r, g);
    std::unique_ptr<po::options_description> d(new po::options_description("All")), plain(new po::options_description("All"));
    { Pages p; Rng keep = C->r; declare(p, t, *d, "about it"); p.gone(); C->r = keep; for (auto& o : t) { if (o.ar == FLAG) { if (C->r.chance(50)) plain->add_options()(o.decl().c_str(), "about it"); else plain->add_options()(o.decl().c_str(), semantic(o.ar), "about it"); } else if (C->r.chance(20)) plain->add_options()(o.decl().c_str(), semantic(o.ar)); else plain->add_options()(o.decl().c_str(), semantic(o.ar), "about it"); } }
    same("declaring", names_of(*d), names_of(*plain)); same("printing", help_of(*d), help_of(*plain));
    int style = gen_style(r); const bool unreg = r.chance(35); Pos q = gen_pos(r, t); vector<string> a = r.chance(60) ? gen_good_args(r, t, style) : gen_args(r, t); for (auto& s : a) s = s.c_str();
    C->cur = case_desc(t, a, style, unreg, &q);
    std::unique_ptr<po::positional_options_description> pos(new po::positional_options_description), plainpos(new po::positional_options_description(make_pos(q)));
    { Pages p; for (auto& x : q.adds) pos->add(p.str(x.first), x.second); p.gone(); }
    const string h = help_of(*d), nm = names_of(*d);
    // argv: the array has no element more than it says
    unsigned how = r.below(3);
    std::unique_ptr<po::parsed_options> res; std::unique_ptr<po::wparsed_options> wres; string got, want; Pages p;
    if (how < 2) {
        vector<const char*> av; av.push_back(p.str(string("program"))); for (auto& s : a) av.push_back(p.str(s)); const char* const* v = p.arr(av);
        got = watched("narrow-argv", [&] { if (how == 0 || pos->max_total_count() == 0) { po::parsed_options x = po::parse_command_line((int)av.size(), v, *d, style); res.reset(new po::parsed_options(x)); return opts(x.options); } po::command_line_parser c((int)av.size(), v); c.options(*d).style(style).positional(*pos); if (unreg) c.allow_unregistered(); po::parsed_options x = c.run(); res.reset(new po::parsed_options(x)); return opts(x.options); });
        want = guard([&] { po::command_line_parser c(a); c.options(*plain).style(style); if (!(how == 0 || pos->max_total_count() == 0)) { c.positional(*plainpos); if (unreg) c.allow_unregistered(); } return opts(c.run().options); });
    } else {
        vector<W> w; for (auto& s : a) w.push_back(boost::from_utf8(u8::clean(s))); for (auto& s : w) s = s.c_str();
        vector<const wchar_t*> av; av.push_back(p.str(W(L"program"))); for (auto& s : w) av.push_back(p.str(s)); const wchar_t* const* v = p.arr(av);
        got = watched("wide-argv", [&] { po::wcommand_line_parser c((int)av.size(), v); c.options(*d).style(style).positional(*pos); if (unreg) c.allow_unregistered(); po::wparsed_options x = c.run(); wres.reset(new po::wparsed_options(x)); return opts(x.options); });
        want = guard([&] { po::wcommand_line_parser c(w); c.options(*plain).style(style).positional(*plainpos); if (unreg) c.allow_unregistered(); return opts(c.run().options); });
    }
    same("parsing", got, want);
    p.gone(); pos.reset();
    // vectors given are not changed
    vector<string> copy(a); const vector<string>& ca = copy; string again = watched("vector-arguments", [&] { po::command_line_parser c(ca); c.options(*d).style(style).positional(*plainpos); if (unreg) c.allow_unregistered(); return opts(c.run().options); }); if (copy != a) C->fail("arguments-changed", mon::show(copy));
    // nor is a parsed result by what reads it
    if (res || wres) {
        const string o = res ? opts(res->options) : opts(wres->options); po::variables_map m, e;
        watched("store", [&] { po::variables_map f; if (res) po::store(*res, f); else po::store(*wres, f); return map_text(f); });
        guard([&] { if (res) po::store(*res, m); else po::store(*wres, m); return string(); });
        watched("notify", [&] { po::notify(m); return map_text(m); });
        watched("collect", [&] { return res ? mon::show(po::collect_unrecognized(res->options, po::include_positional)) : mon::show(po::collect_unrecognized(wres->options, po::exclude_positional)); });
        if ((res ? opts(res->options) : opts(wres->options)) != o) C->fail("result-changed", "by storing or collecting: " + o);
        const po::variables_map& cm = m; string before = map_text(m); watched("lookup", [&] { string s; for (auto& x : t) s += std::to_string(cm.count(x.key("wild-x"))) + (cm[x.key("wild-x")].empty() ? "-" : "+") + (cm[x.key("wild-x")].defaulted() ? "d" : ""); s += cm["no such"].empty() ? "" : "?"; return s; }); if (map_text(m) != before) C->fail("map-changed", "by lookups");
        if (o.size() > 8) C->nontrivial(C->cur);
        if (C->want_sample()) C->sample(C->cur + " -> " + o);
    }
    if (help_of(*d) != h || names_of(*d) != nm) C->fail("table-changed", "by parsing");
    // the errors do not need anything any more
    d.reset(); plain.reset(); plainpos.reset(); res.reset(); wres.reset();
}
// an environment that can only be read
static void environment(Rng& r) {
    GenOpt g; Table t = gen_table(r, g); po::options_description d; build(t, d);
    vector<string> vars; static const vector<string> names = {"VPM_ALPHA", "VPM_", "VPM", "VPM_FOO", "vpm_foo", "OTHER", "VPM_X=Y", "", "=", "PATH", "VPM_VERBOSE"};
    for (unsigned n = r.below(8); n--;) { string s = r.pick(names); if (r.chance(92)) s += "=" + gen_value(r); if (r.chance(10)) s += string(500 + r.below(9000), 'v'); else if (r.chance(5)) s = "VPM_" + string(500 + r.below(4000), 'N') + "=" + gen_value(r); s = s.c_str(); vars.push_back(s); } C->cur = "environment " + mon::show(vars);
    Pages p; vector<char*> av; for (auto& s : vars) av.push_back(const_cast<char*>(p.str(s))); av.push_back(0); char** v = p.arr(av);
    char** old = environ; environ = v; string name; { Pages q; const char* pre = q.str(string("VPM_"));
    auto run = [&](unsigned k) { return k == 0 ? opts(po::parse_environment(d, pre).options) : k == 1 ? opts(po::parse_environment(d, string("VPM_")).options) : opts(po::parse_environment(d, [](const string& n) { return n.size() > 4 ? "x" + n.substr(4) : string(); }).options); };
    string x = watched("environment", [&] { return run(0); }); if (x != guard([&] { return run(1); })) C->fail("input-representation", "prefix as characters and as a string differ");
    watched("environment", [&] { return run(2); });
    watched("environment", [&] { string s; for (boost::environment_iterator i(environ), e; i != e; ++i) s += i->first + "=" + i->second + ";"; return s; }); }
    environ = old; if (vars.size() > 1) C->nontrivial(C->cur);
}
// the user's streams: set up in any way, read to their end, left as they were
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return ','; } string do_grouping() const override { return "\1"; } };
struct WGrouping : std::numpunct<wchar_t> { wchar_t do_thousands_sep() const override { return L','; } string do_grouping() const override { return "\1"; } };
template<class CH> static void disturb(Rng& r, std::basic_ios<CH>& s, bool out) {
    static const vector<std::ios::fmtflags> f = {std::ios::hex, std::ios::boolalpha, std::ios::showbase, std::ios::uppercase, std::ios::scientific, std::ios::showpos, std::ios::unitbuf, std::ios::oct};
    for (unsigned k = r.below(4); k--;) s.setf(r.pick(f));
    if (r.chance(40)) s.precision((int)r.below(30));
    if (!out) { if (r.chance(40)) s.unsetf(std::ios::skipws); if (r.chance(30)) s.width((int)r.below(6)); if (r.chance(30)) s.fill((CH)'*'); if (r.chance(40)) s.setf(std::ios::left, std::ios::adjustfield); }
    if (r.chance(30)) s.imbue(std::locale(std::locale(s.getloc(), new Grouping), new WGrouping));
    if (r.chance(20)) s.exceptions(std::ios::badbit);
}
static std::ostringstream* tied = 0;
template<class CH> static string state(const std::basic_ios<CH>& s) { char b[200]; snprintf(b, sizeof b, "flags %x precision %ld fill %x exceptions %x buffer %p tie %p locale %d", (unsigned)s.flags(), (long)s.precision(), (unsigned)s.fill(), (unsigned)s.exceptions(), (void*)s.rdbuf(), (void*)s.tie(), (int)(std::use_facet<std::numpunct<CH> >(s.getloc()).thousands_sep())); return string(b) + s.getloc().name(); }
template<class CH> static void config(Rng& r) {
    typedef std::basic_string<CH> S; GenOpt g; Table t = gen_table(r, g); for (size_t i = 0; i < t.size(); ++i) if (t[i].longs.empty()) t[i].longs.push_back("n" + std::to_string(i)); po::options_description d; build(t, d); d.add_options()("num", po::value<int>())("real", po::value<double>())("yes", po::value<bool>());
    string s; for (unsigned n = r.below(8); n--;) { const Opt& o = t[r.below((unsigned)t.size())]; string nm = r.pick(o.longs); size_t k = nm.find('.'); unsigned w = r.below(10); if (w < 4) s += nm + "=" + plain_value(r); else if (w == 4) s += "num = " + std::to_string(r.below(100000)); else if (w == 5) s += "real=1.5"; else if (w == 6) s += "yes=true"; else if (w == 7 && k != string::npos) s += "[" + nm.substr(0, k) + "]\n" + nm.substr(k + 1) + "=v"; else if (w == 8) s += "  # c"; else s += r.chance(80) ? "  " + nm + "  =  a  b " : "nonsense"; if (n || r.chance(70)) s += r.chance(10) ? "\r\n" : "\n"; }
    const bool unreg = r.chance(50); C->cur = "text " + mon::show(s) + (unreg ? " unregistered" : ""); S in(s.begin(), s.end());
    auto run = [&](std::basic_istream<CH>& is) { po::basic_parsed_options<CH> x = po::parse_config_file(is, d, unreg); po::variables_map m; po::store(x, m); return opts(x.options) + map_text(m); };
    string want = guard([&] { std::basic_istringstream<CH> is(in); return run(is); });
    std::basic_istringstream<CH> is(in); std::basic_ostringstream<CH> other; disturb(r, is, false); if (r.chance(30)) is.tie(&other); if (sizeof(CH) == 1 && r.chance(20)) is.clear(std::ios::goodbit);
    const string st0 = state(is); string got = watched(sizeof(CH) > 1 ? "wide-configuration" : "configuration", [&] { return run(is); }, false);
    if (got != want) C->fail("stream-state-matters", "gives " + got + " instead of " + want + " for a stream with " + st0);
    if (state(is) != st0) C->fail("stream-changed", st0 + " became " + state(is));
    if (!other.str().empty()) C->fail("tied-stream-written", "");
    if (s.size() > 10) C->nontrivial(C->cur);
    // files: the name is only read, and the file closed again, also after an error
    if (r.chance(25)) {
        const string fn = "c31-config-" + std::to_string(getpid()); { std::ofstream f(fn.c_str()); if (r.chance(85)) f << s; if (r.chance(20)) f << "\nbroken"; } if (r.chance(30)) chmod(fn.c_str(), 0444); struct stat a, b; if (stat(fn.c_str(), &a)) abort(); Pages p; const char* name = p.str(r.chance(90) ? fn : r.chance(50) ? string("no such") : string("/"));
        watched("configuration-file", [&] { po::basic_parsed_options<CH> x = po::parse_config_file<CH>(name, d, unreg); return opts(x.options); }); p.gone();
        if (stat(fn.c_str(), &b) || a.st_size != b.st_size || a.st_mtim.tv_sec != b.st_mtim.tv_sec || a.st_mtim.tv_nsec != b.st_mtim.tv_nsec || a.st_mode != b.st_mode || a.st_nlink != b.st_nlink) C->fail("file-changed", fn); unlink(fn.c_str());
    }
}
static void help(Rng& r) {
    std::unique_ptr<po::options_description> d, plain; unsigned len = r.chance(50) ? 80 : 30 + r.below(100); string cap = r.chance(50) ? "Caption" : "";
    Pages p; static const vector<string> words = {"word", "the", "x", "\n", " ", "\t", "a longer sentence about it", "\xd1\x8f", "%", "12345"};
    d.reset(new po::options_description(cap, len, len / 2)); plain.reset(new po::options_description(cap, len, len / 2)); unsigned n = 1 + r.below(6); std::set<string> used;
    for (unsigned i = 0; i < n; ++i) { string nm = "name" + std::to_string(i) + (r.chance(50) ? string(",") + (char)('a' + i) : ""), ds; bool tab = false; for (unsigned k = r.below(20); k--;) { string w = r.pick(words); if (w == "\t") { if (tab) continue; tab = true; } if (w == "\n") tab = false; ds += w + " "; } unsigned k = r.below(5); string vn = r.chance(40) ? "VALUE" : "";
        for (int j = 0; j < 2; ++j) { po::options_description& x = j ? *plain : *d; const char* a = j ? nm.c_str() : p.str(nm); const char* b = j ? ds.c_str() : p.str(ds); const po::value_semantic* v;
            switch (k) { case 0: x.add_options()(a, b); continue; case 1: { auto* s = po::value<double>()->default_value(2.5)->implicit_value(1234567.0); if (!vn.empty()) s->value_name(vn); v = s; break; } case 2: v = po::value<int>()->default_value(123456)->implicit_value(-7); break; case 3: v = po::value<bool>()->default_value(true); break; default: v = po::value<string>()->default_value("def ault", "shown"); } x.add_options()(a, v, b); } }
    p.gone(); const string want = help_of(*plain); C->cur = "help " + mon::show(want.substr(0, 300));
    std::ostringstream os; disturb(r, os, true); std::ostringstream other; if (r.chance(40)) os.tie(&other); const string st0 = state(os); string sub;
    string got = watched("print", [&] { os.str(""); if (r.chance(50)) os << *d; else d->print(os); return os.str(); }, false);
    if (got != want) C->fail("stream-state-matters", "prints " + mon::show(got) + " instead of " + mon::show(want) + " to a stream with " + st0);
    if (state(os) != st0) C->fail("stream-changed", st0 + " became " + state(os)); if (!other.str().empty()) C->fail("tied-stream-written", "");
    C->nontrivial(C->cur);
}
static void texts(Rng& r) {
    string s; for (unsigned n = r.below(6); n--;) s += gen_value(r) + (r.chance(50) ? " " : ""); if (r.chance(50)) { string o; for (char ch : s) if (ch != '\\') o += ch; s = o; } const string k = s; W w = boost::from_utf8(u8::clean(s)); const W kw = w; C->cur = "text " + mon::show(s);
    watched("split", [&] { return mon::show(po::split_unix(s)); }); watched("split", [&] { return mon::show(po::split_unix(w)); }); watched("windows-split", [&] { return mon::show(po::split_winmain(s)); }); watched("windows-split", [&] { return mon::show(po::split_winmain(w)); });
    watched("conversion", [&] { return mon::show(boost::from_utf8(s)); }); watched("conversion", [&] { return mon::show(boost::to_utf8(w)); }); watched("conversion", [&] { return mon::show(boost::from_local_8_bit(s)); }); watched("conversion", [&] { return mon::show(boost::to_local_8_bit(w)); });
    if (s != k || w != kw) C->fail("arguments-changed", mon::show(s));
    static const vector<string> vals = {"1", "-1", "99999999999999999999", "1e400", "1e-400", "abc", "", "true", "yes", "0x1", "1.5", "300", "-129"}; string v = r.pick(vals); const vector<string> one(1, v); C->cur = "value " + v;
#define TRY(T) watched("value", [&] { std::unique_ptr<const po::value_semantic> x(po::value<T >()); boost::any a; x->parse(a, one, true); return std::to_string(boost::any_cast<T >(a)); });
    TRY(int) TRY(double) TRY(bool) TRY(short) TRY(float) TRY(long long) TRY(unsigned char)
    if (one[0] != v) C->fail("arguments-changed", one[0]);
    watched("errors", [&]() -> string { Pages p; try { throw po::reading_file(p.str(string("name-of-file"))); } catch (...) { p.gone(); throw; } }, false);
    watched("errors", [&]() -> string { throw po::required_option(s); }); watched("errors", [&]() -> string { vector<string> alts(2, s); alts.push_back("x"); throw po::ambiguous_option(alts); });
    watched("errors", [&]() -> string { throw po::invalid_option_value(w); }); watched("errors", [&]() -> string { throw po::validation_error(po::validation_error::invalid_option_value, s, v, po::command_line_style::allow_long); });
    C->nontrivial(C->cur);
}
static void random_case(Ctx& c) {
    C = &c; Rng& r = c.r; static std::ostringstream out; static bool once = (std::cout.rdbuf(out.rdbuf()), std::clog.rdbuf(out.rdbuf()), true); (void)once;
    static const vector<std::locale> locales = [] { vector<std::locale> v(2, std::locale::classic()); for (const char* n : {"C.utf8", "C.UTF-8", "en_US.UTF-8"}) try { v.push_back(std::locale(n)); break; } catch (...) {} return v; }();
    std::locale old = std::locale::global(r.pick(locales)); struct Back { std::locale l; ~Back() { std::locale::global(l); setlocale(LC_ALL, "C"); } } back{old};
    if (r.chance(30)) setlocale(LC_ALL, r.chance(50) ? "C" : "C.UTF-8");   // the C library's idea of the locale apart from the C++ library's
    static const int rounds[] = {FE_TONEAREST, FE_TONEAREST, FE_UPWARD, FE_TOWARDZERO}; fesetround(rounds[r.below(4)]); mode_t um = umask(r.chance(50) ? 022 : 077); if (r.chance(30)) { std::cout.setf(std::ios::hex, std::ios::basefield); std::cerr.precision(11); }
    unsigned k = r.below(12);
    if (k < 5) command_line(r); else if (k < 6) environment(r); else if (k < 8) config<char>(r); else if (k < 9) config<wchar_t>(r); else if (k < 11) help(r); else texts(r);
    fesetround(FE_TONEAREST); umask(um); std::cout.flags(std::ios::skipws | std::ios::dec);
    for (auto& e : kept) { c.count("errors-read-again"); string t = text(e.first); if (t != e.second) c.fail("error-changed", "was " + e.second + " is " + t); } kept.clear();
    if (!out.str().empty()) { c.fail("output-written", mon::show(out.str())); out.str(""); }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"monitor sees what it must", [](Ctx& c) {
        // the monitor itself, against deeds it has to notice
        C = &c; c.cur = "self-test"; c.eval(); c.nontrivial("self-test"); auto sees = [&](const char* what, const std::function<void()>& deed, const std::function<void()>& undo) { Process a; deed(); Process b; if (a.differs(b).empty()) c.fail("monitor-blind", what); else c.count("deeds-noticed"); undo(); Process d; if (!a.differs(d).empty()) c.fail("monitor-unstable", string(what) + a.differs(d)); };
        char** olde = environ; vector<char*> blk; char x[] = "A=b"; blk.push_back(x); blk.push_back(0);
        sees("environ", [&] { environ = blk.data(); }, [&] { environ = olde; }); mode_t m = 0; sees("umask", [&] { m = umask(0123); }, [&] { umask(m); });
        sees("rounding", [] { fesetround(FE_DOWNWARD); }, [] { fesetround(FE_TONEAREST); }); int fd = -1; sees("file", [&] { fd = open("/dev/null", O_RDONLY); }, [&] { close(fd); });
        sees("signal", [] { signal(SIGUSR1, SIG_IGN); }, [] { signal(SIGUSR1, SIG_DFL); }); int here = open(".", O_RDONLY | O_DIRECTORY); if (here >= 0) { sees("directory", [] { if (chdir("/")) abort(); }, [&] { if (fchdir(here)) abort(); }); close(here); }
        std::ios::fmtflags fl = std::cout.flags(); sees("stream", [] { std::cout.setf(std::ios::hex, std::ios::basefield); }, [&] { std::cout.flags(fl); });
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
