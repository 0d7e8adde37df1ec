// C25: every allocation of an operation is made to fail in turn (once, and from there on). The
// monitor is the allocator: it injects, counts what is live, and so sees leaks; the oracle is the
// same operation with memory available.
#include "hist.hpp"
#include "winmain.hpp"
#include "utf8.hpp"
#include <memory>
#include <fstream>
#include <new>
#include <unistd.h>
#include <cctype>
using namespace cli; using mon::Ctx; using std::wstring;
namespace mem {
static long live = 0, asked = 0, fail_at = -1, injected = 0; static bool sticky = false, on = false;
static inline bool refuse() { if (!on) return false; ++asked; if (fail_at >= 0 && (sticky ? asked > fail_at : asked == fail_at + 1)) { ++injected; return true; } return false; }
static void* get(size_t n) { if (refuse()) return 0; void* p = malloc(n ? n : 1); if (p) ++live; return p; }
static void put(void* p) { if (p) { --live; free(p); } }
}
void* operator new(size_t n) { void* p = mem::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = mem::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mem::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mem::get(n); }
void operator delete(void* p) noexcept { mem::put(p); }
void operator delete[](void* p) noexcept { mem::put(p); }
void operator delete(void* p, size_t) noexcept { mem::put(p); }
void operator delete[](void* p, size_t) noexcept { mem::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mem::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mem::put(p); }

// An operation. exec() runs with failing memory and leaves its result in members; everything else runs without failures.
struct Job {
    virtual ~Job() {}
    virtual void prepare() {}              // input objects that exec() consumes
    virtual void exec() = 0;
    virtual string text() = 0;             // of the result
    virtual void drop() = 0;               // destroys the result and what prepare() made
    virtual string inputs() { return ""; } // of all objects the operation must leave alone if it fails
    virtual string also_after() { return ""; } // a further operation, after a good exec()
};
template<class CH> static string opts(const vector<po::basic_option<CH> >& v) { string s; for (auto& o : v) { s += o.string_key + "@" + std::to_string(o.position_key) + mon::show(o.value) + mon::show(o.original_tokens) + (o.unregistered ? "u" : "") + (o.case_insensitive ? "i" : "") + ";"; } return s; }
static string describe(const po::options_description& d) { string s; for (auto& o : d.options()) { s += o->format_name() + o->format_parameter() + o->key("k*") + o->description(); auto l = o->long_names(); for (size_t i = 0; i < l.second; ++i) s += l.first[i] + ","; } return s; }
static wstring wide(const string& s) { return u8::dec(u8::clean(s)); }

struct Cmd {   // what a command line is parsed with
    Table t; po::options_description d; po::positional_options_description pos; Pos p; int style; bool unreg; vector<string> args; int extra;
    Cmd(Rng& r) : d("options") {
        GenOpt g; g.wild = r.chance(30); t = gen_table(r, g);
        po::options_description sub("sub"); Table a(t.begin(), t.begin() + (long)(t.size() / 2)), b(t.begin() + (long)(t.size() / 2), t.end());
        build(a, d); build(b, sub); d.add(sub);
        style = r.chance(15) ? -1 : gen_style(r); p = gen_pos(r, t); pos = make_pos(p); unreg = r.chance(40); extra = (int)r.below(6);
        int st = style < 0 ? (int)st::unix_style : style; args = r.chance(70) ? gen_good_args(r, t, st) : gen_args(r, t);
        if (r.chance(15)) args.insert(args.begin(), "@x=" + plain_value(r));
    }
    template<class CH> void set(po::basic_command_line_parser<CH>& x) const {
        x.options(d); if (style >= 0) x.style(style); if (p.used) x.positional(pos); if (unreg) x.allow_unregistered();
        if (extra == 0) x.extra_parser([](const string& s) { return s.size() > 3 && s[0] == '@' ? std::make_pair(string("foo"), s.substr(3) + " from the extra parser") : std::make_pair(string(), string()); });
        if (extra == 1) x.extra_style_parser([](vector<string>& a) { vector<po::option> v; if (!a.empty() && !a[0].empty() && a[0][0] == '@') { po::option o; o.string_key = "foo"; o.value.push_back(a[0].substr(1)); o.original_tokens.push_back(a[0]); v.push_back(o); a.erase(a.begin()); } return v; });
    }
    string show() const { return case_desc(t, args, style < 0 ? 0 : style, unreg, &p); }
};
template<class CH> struct ParseJob : Job {
    Cmd c; vector<std::basic_string<CH> > a; std::unique_ptr<po::basic_parsed_options<CH> > res;
    static void fill(vector<string>& o, const vector<string>& i) { o = i; } static void fill(vector<wstring>& o, const vector<string>& i) { for (auto& s : i) o.push_back(wide(s)); }
    ParseJob(Rng& r) : c(r) { fill(a, c.args); }
    void exec() { po::basic_command_line_parser<CH> p(a); c.set(p); res.reset(new po::basic_parsed_options<CH>(p.run())); }
    string text() { return opts(res->options); }
    void drop() { res.reset(); }
    string inputs() { return describe(c.d); }
};
struct ArgvJob : Job {
    Cmd c; vector<const char*> av; std::unique_ptr<po::parsed_options> res;
    ArgvJob(Rng& r) : c(r) { av.push_back("prog"); for (auto& s : c.args) av.push_back(s.c_str()); av.push_back(0); }
    void exec() { res.reset(new po::parsed_options(po::parse_command_line((int)av.size() - 1, av.data(), c.d, c.style < 0 ? 0 : c.style))); }
    string text() { return opts(res->options); }
    void drop() { res.reset(); }
};
static string config_text(Rng& r, const RTable& t) {
    string s; unsigned n = r.below(9);
    for (unsigned i = 0; i < n; ++i) {
        const Rich& o = t[r.below((unsigned)t.size())]; string nm = r.pick(o.longs); if (r.chance(8)) nm = "unknown-option-name-longer-than-a-small-string"; size_t p = nm.find('.');
        string v = r.chance(30) ? string(r.below(300), 'x') : plain_value(r);
        if (r.chance(20)) s += "# comment " + string(r.below(60), 'c') + "\n"; if (r.chance(10)) s += "\n";
        if (p != string::npos && r.chance(60)) s += "[" + nm.substr(0, p) + "]\n" + nm.substr(p + 1) + " = " + v + "\n"; else s += nm + "=" + v + "\n";
        if (r.chance(3)) s += "a line which is not understood\n";
        if (r.chance(10)) s += nm + " = \xe2\x82\xac uro\n";
    }
    if (!s.empty() && r.chance(30)) s.pop_back();
    return s;
}
template<class CH> struct ConfigJob : Job {
    RTable t; World w; std::basic_string<CH> in; bool unreg, file; string fn; std::unique_ptr<std::basic_istringstream<CH> > is; std::unique_ptr<po::basic_parsed_options<CH> > res;
    static void fill(string& o, const string& i) { o = i; } static void fill(wstring& o, const string& i) { o = wide(i); }
    ConfigJob(Rng& r) : t(gen_rich(r, 8, true, false)), w(t, false) { string s = config_text(r, t); unreg = r.chance(50); file = r.chance(35); fill(in, s);
        if (file) { fn = string(getenv("VERIF_WORK") ? getenv("VERIF_WORK") : "/tmp") + "/c25-" + std::to_string(getpid()) + ".cfg"; std::ofstream f(fn.c_str()); for (char& ch : s) if ((unsigned char)ch >= 128) ch = '?'; f << s; } }
    ~ConfigJob() { if (file) unlink(fn.c_str()); }
    void prepare() { if (!file) is.reset(new std::basic_istringstream<CH>(in)); }
    void exec() { res.reset(new po::basic_parsed_options<CH>(file ? po::parse_config_file<CH>(fn.c_str(), w.all, unreg) : po::parse_config_file(*is, w.all, unreg))); }
    string text() { return opts(res->options); }
    void drop() { res.reset(); is.reset(); }
    string inputs() { return describe(w.all); }
};
struct EnvJob : Job {
    RTable t; World w; bool prefix; std::unique_ptr<po::parsed_options> res;
    EnvJob(Rng& r) : t(gen_rich(r, 4, false, false)), w(t, false), prefix(r.chance(50)) {}
    void exec() { res.reset(new po::parsed_options(prefix ? po::parse_environment(w.all, "VPM_") : po::parse_environment(w.all, [](const string& n) { return n.substr(0, 4) == "VPM_" ? "mapped name of " + n.substr(4) : string(); }))); }
    string text() { return opts(res->options); }
    void drop() { res.reset(); }
};
// a map with a history, and a further source
struct StoreJob : Job {
    RTable t; World w; vector<Source> hist; vector<std::unique_ptr<po::parsed_options> > old; std::unique_ptr<po::parsed_options> p; std::unique_ptr<po::wparsed_options> wp; std::unique_ptr<po::variables_map> m; bool wide_source, notify_after; string what;
    StoreJob(Rng& r) : t(gen_rich(r, 8, true, true)), w(t, true) {
        ValueIds ids; unsigned n = r.below(3); for (unsigned i = 0; i < n; ++i) { hist.push_back(gen_source(r, w, ids, false)); try { old.emplace_back(new po::parsed_options(parse_source(r, w, hist.back()))); } catch (const std::exception&) {} }
        Source s; for (int k = 0; k < 4; ++k) { s = gen_source(r, w, ids, true); if (!s.occ.empty()) break; } hist.push_back(s); p.reset(new po::parsed_options(parse_source(r, w, s)));
        if (r.chance(15)) { po::option x; x.string_key = "an option which does not exist"; x.value.push_back("1"); p->options.insert(p->options.begin() + (long)r.below((unsigned)p->options.size() + 1), x); what = "+unknown"; }
        wide_source = r.chance(30); if (wide_source) wp.reset(new po::wparsed_options(*p)); notify_after = r.chance(50);
        prepare();
    }
    // the map is made once: failures happen on the very map later attempts use
    void prepare() { if (m) return; m.reset(new po::variables_map); for (auto& o : old) try { po::store(*o, *m); } catch (const std::exception&) {} }
    void exec() { if (wp) po::store(*wp, *m); else po::store(*p, *m); }
    string text() { return map_text(*m); }
    string inputs() { return map_text(*m) + describe(w.all); }
    void drop() { }
    string also_after() { w.sinks.events.clear(); try { po::notify(*m); } catch (const std::exception& e) { return string("notify: ") + e.what(); } string s; for (auto& e : w.sinks.events) s += e.key + e.text + ";"; return s; }
    string show() { string s = cli::show(t); for (auto& x : hist) s += " " + x.show(t); return s + what + (wide_source ? " wide" : ""); }
};
struct NotifyJob : Job {
    RTable t; World w; po::variables_map m, empty; string src; unsigned got;
    NotifyJob(Rng& r) : t(gen_rich(r, 8, r.chance(30), true)), w(t, true) { ValueIds ids; for (unsigned i = 1 + r.below(2); i--;) { Source s = gen_source(r, w, ids, false); src += s.show(t); try { po::store(parse_source(r, w, s), m); } catch (const std::exception&) {} } }
    void prepare() { w.sinks.events.clear(); w.sinks.events.reserve(64); }
    void exec() { po::notify(m); }
    string text() { string s; for (auto& e : w.sinks.events) s += e.key + e.text + ";"; for (auto& o : t) if (o.bound && o.ty != T_UNT && o.ty != T_UFLAG) s += o.key() + "=" + w.sinks.text(o) + ";"; return s + map_text(m); }
    void drop() { w.sinks.events.clear(); w.sinks.events.shrink_to_fit(); }
    string inputs() { return map_text(m); }
};
struct LookupJob : Job {
    Table t; po::options_description d; vector<string> names; vector<const po::option_description*> found; std::unique_ptr<po::variables_map> m, m2; unsigned flags; bool thrower; vector<const po::variable_value*> vals; vector<string> keys;
    LookupJob(Rng& r) { GenOpt g; g.wild = r.chance(40); g.max_opts = 9; t = gen_table(r, g); build(t, d); flags = r.below(8); thrower = r.chance(30);
        for (unsigned i = 1 + r.below(5); i--;) { auto& o = r.pick(t); string n = o.longs.empty() ? string("-") + o.sh : r.pick(o.longs); if (r.chance(40)) n = n.substr(0, 1 + r.below((unsigned)n.size())); if (r.chance(20)) n = swapcase(r, n); if (r.chance(10)) n += "-and-more-text-behind-it"; names.push_back(n); }
        m.reset(new po::variables_map); m2.reset(new po::variables_map); try { po::store(po::command_line_parser(gen_good_args(r, t, st::unix_style)).options(d).run(), *m2); } catch (const std::exception&) {} m->next(m2.get()); }
    void exec() { for (auto& n : names) { found.push_back(thrower ? &d.find(n, flags & 1, flags & 2, flags & 4) : d.find_nothrow(n, flags & 1, flags & 2, flags & 4)); vals.push_back(&(*m)[n]); if (m2->count(n)) vals.push_back(&m2->at(n)); if (found.back()) { keys.push_back(found.back()->key(n)); keys.push_back(found.back()->canonical_display_name(1)); keys.push_back(found.back()->format_name()); } } }
    string text() { string s; for (auto* f : found) s += (f ? f->format_name() : "-") + ";"; for (auto* v : vals) s += v->empty() ? "." : any_text(v->value()); for (auto& k : keys) s += k + ","; return s; }
    void drop() { found = {}; vals = {}; keys = {}; found.shrink_to_fit(); vals.shrink_to_fit(); keys.shrink_to_fit(); }
    string inputs() { return describe(d) + map_text(*m) + map_text(*m2); }
};
struct SplitJob : Job {
    string s; wstring ws; unsigned kind; vector<string> a; vector<wstring> b;
    SplitJob(Rng& r) : kind(r.below(4)) { for (unsigned i = r.below(9); i--;) s += r.pick(vector<string>{"word ", "\"quoted text of some length\" ", "a\\ b", "'x' ", "\\\\ ", "thirty-one-characters-and-more-in-one-word ", "\t", "\"\" "}); if (r.chance(10)) s += "\\"; if (r.chance(5)) s += "\""; ws = wide(s); }
    void exec() { switch (kind) { case 0: a = po::split_unix(s); break; case 1: b = po::split_unix(ws); break; case 2: a = po::split_winmain(s); break; default: b = po::split_winmain(ws); } }
    string text() { return mon::show(a) + mon::show(b); }
    void drop() { vector<string>().swap(a); vector<wstring>().swap(b); }
};
struct ConvertJob : Job {
    string s; wstring ws; unsigned kind; string a; wstring b;
    ConvertJob(Rng& r) : kind(r.below(6)) { for (unsigned i = r.below(200); i--;) ws += (wchar_t)(r.chance(60) || kind >= 4 ? 32 + r.below(90) : r.chance(50) ? 0x400 + r.below(200) : 0x20ac); s = u8::enc(ws); }
    void exec() { switch (kind) { case 0: a = boost::to_utf8(ws); break; case 1: b = boost::from_utf8(s); break; case 2: a = po::to_internal(ws); break; case 3: a = po::to_internal(s); break; case 4: a = boost::to_local_8_bit(ws); break; default: b = boost::from_local_8_bit(s); } }
    string text() { return mon::show(a) + mon::show(b); }
    void drop() { string().swap(a); wstring().swap(b); }
};
struct CollectJob : Job {
    Cmd c; vector<po::option> o; vector<po::woption> wo; bool w; po::collect_unrecognized_mode mode; vector<string> a; vector<wstring> b;
    CollectJob(Rng& r) : c(r), w(r.chance(40)), mode(r.chance(50) ? po::include_positional : po::exclude_positional) { for (auto& s : c.args) s = u8::clean(s); try { po::command_line_parser p(c.args); c.unreg = true; c.set(p); auto x = p.run(); o = x.options; if (w) wo = po::wparsed_options(x).options; } catch (const std::exception&) {} }
    void exec() { if (w) b = po::collect_unrecognized(wo, mode); else a = po::collect_unrecognized(o, mode); }
    string text() { return mon::show(a) + mon::show(b); }
    void drop() { vector<string>().swap(a); vector<wstring>().swap(b); }
    string inputs() { return opts(o) + opts(wo); }
};
struct CopyJob : Job {
    StoreJob s; std::unique_ptr<po::variables_map> c; std::unique_ptr<po::wparsed_options> w; std::unique_ptr<po::parsed_options> q; std::unique_ptr<po::options_description> d;
    CopyJob(Rng& r) : s(r) { s.wp.reset(); }
    void exec() { c.reset(new po::variables_map(*s.m)); w.reset(new po::wparsed_options(*s.p)); q.reset(new po::parsed_options(*s.p)); po::variables_map o; o = *c; *c = o; }
    string text() { return map_text(*c) + opts(w->options) + opts(q->options); }
    void drop() { c.reset(); w.reset(); q.reset(); }
    string inputs() { return s.inputs(); }
};
// parsing, storing and notifying together, as a program does it
struct WholeJob : Job {
    RTable t; World w; vector<string> args; string cfg; std::unique_ptr<std::istringstream> is; std::unique_ptr<po::variables_map> m;
    WholeJob(Rng& r) : t(gen_rich(r, 8, r.chance(30), true)), w(t, true) { for (unsigned i = r.below(6); i--;) { const Rich& o = r.pick(t); args.push_back("--" + r.pick(o.longs)); if (!o.flag()) args.push_back(r.chance(80) ? std::to_string(r.below(100)) : "text"); } cfg = config_text(r, t); }
    void prepare() { is.reset(new std::istringstream(cfg)); m.reset(new po::variables_map); w.sinks.events.clear(); w.sinks.events.reserve(64); }
    void exec() { po::store(po::command_line_parser(args).options(w.all).run(), *m); po::store(po::parse_config_file(*is, w.all, true), *m); po::store(po::parse_environment(w.all, "VPM_"), *m); po::notify(*m); }
    string text() { string s = map_text(*m); for (auto& e : w.sinks.events) s += e.key + e.text + ";"; return s; }
    void drop() { is.reset(); m.reset(); w.sinks.events.clear(); w.sinks.events.shrink_to_fit(); }
    string inputs() { return describe(w.all); }
};
struct ErrorJob : Job {
    std::unique_ptr<Cmd> c; std::exception_ptr e; string first, s; vector<string> args;
    ErrorJob(Rng& r) { for (int k = 0; k < 40; ++k) { c.reset(new Cmd(r)); c->args = gen_args(r, c->t); c->unreg = false; try { po::command_line_parser p(c->args); c->set(p); p.run(); } catch (const std::exception&) { e = std::current_exception(); break; } } }
    void exec() { if (!e) return; try { std::rethrow_exception(e); } catch (const po::unknown_option& x) { po::unknown_option y(x); y = x; s = y.what(); } catch (const po::ambiguous_option& x) { po::ambiguous_option y(x); s = y.what(); } catch (const po::error_with_option_name& x) { s = x.what(); } catch (const std::exception& x) { s = x.what(); } }
    string text() { string().swap(s); exec(); return s; }    // the message may be shortened while there is no memory, but is whole again later
    void drop() { string().swap(s); }
};

struct Outcome2 { bool ok = false; string text, error; bool foreign = false; };
static Outcome2 attempt(Job& j, long at, bool sticky) {
    Outcome2 o; j.prepare();
    mem::asked = 0; mem::injected = 0; mem::fail_at = at; mem::sticky = sticky; mem::on = true;
    try { j.exec(); mem::on = false; o.ok = true; }
    catch (const std::exception& e) { mem::on = false; o.error = typeid(e).name(); }
    catch (...) { mem::on = false; o.error = "not a std::exception"; o.foreign = true; }
    if (o.ok) o.text = j.text();
    return o;
}
static string canon(const Outcome2& o) { return o.ok ? o.text : "error " + o.error; }

static void explore(Ctx& c, Job& j, const string& kind, Rng& r, long limit, StoreJob* st) {
    for (const char* k : {"injected", "reported", "retries", "completed-nevertheless"}) c.count(k, 0);   // the counters use memory as well
    // with memory: twice, so that what is made once in a process exists
    Outcome2 normal = st ? Outcome2() : attempt(j, -1, false); string after; if (!st) { j.drop(); normal = attempt(j, -1, false); }
    long n; string before = j.inputs();
    std::unique_ptr<po::variables_map> keep;
    if (st) {   // a copy of the map tells the normal result, then the map is as before
        keep.reset(new po::variables_map(*st->m)); normal = attempt(j, -1, false); after = st->also_after(); st->m.reset(new po::variables_map(*keep)); n = mem::asked;
        normal = attempt(j, -1, false); after = st->also_after(); st->m.reset(new po::variables_map(*keep)); n = mem::asked;
        if (normal.ok && map_text(*st->m) != map_text(*keep)) return;
    } else { n = mem::asked; j.drop(); }
    if (normal.foreign) { c.fail("foreign-exception", kind); return; }
    c.count("operations"); c.count(("op-" + kind).c_str()); c.count("allocation-points", (mon::u64)n);
    const string want = canon(normal);
    vector<std::pair<long, bool> > plan;
    for (long k = 0; k < n; ++k) if (n <= limit || k < limit / 3 || (long)r.below((unsigned)n) < limit) { plan.push_back({k, false}); if (k % 3 == 0 || k + 4 > n) plan.push_back({k, true}); }
    unsigned swallowed = 0;
    for (auto& pl : plan) {
        // the descriptions of places and modes belong to the case
        if (st && normal.ok && st->m->size() != keep->size()) st->m.reset(new po::variables_map(*keep));
        const long live = mem::live; c.eval();
        { Outcome2 o = attempt(j, pl.first, pl.second); long hit = mem::injected; c.count("injected", (mon::u64)hit); const bool okk = o.ok; const string got = canon(o);
          if (!hit) { c.fail("not-repeatable", kind + ": the operation asks for memory " + std::to_string(n) + " times, then " + std::to_string(mem::asked) + " times"); return; }
          const string where = kind + ", allocation " + std::to_string(pl.first + 1) + " of " + std::to_string(n) + (pl.second ? " and all later ones fail" : " fails");
          if (o.foreign) { c.fail("foreign-exception", where); return; }
          if (okk) { ++swallowed; if (got != want) { c.fail("wrong-result", where + ": the operation completes with " + mon::show(got.substr(0, 700)) + " instead of " + mon::show(want.substr(0, 700))); return; } if (!normal.ok) { c.fail("wrong-result", where + ": completes where it is an error: " + want); return; } }
          else { c.count("reported"); if (st || kind == "notify" || kind == "lookup") { string now = j.inputs(); if (now != before) { c.fail("changed-by-failure", where + ": before " + mon::show(before.substr(0, 700)) + " after " + mon::show(now.substr(0, 700))); return; } } }
          if (st && okk) st->m.reset(new po::variables_map(*keep)); }
        j.drop();
        if (mem::live != live && !st) { c.fail("leak", kind + ", allocation " + std::to_string(pl.first + 1) + " of " + std::to_string(n) + (pl.second ? " and all later ones fail" : " fails") + ": " + std::to_string(mem::live - live) + " allocations are left"); return; }
        if (st && mem::live > live) { c.fail("leak", kind + ", allocation " + std::to_string(pl.first + 1) + " of " + std::to_string(n) + ": " + std::to_string(mem::live - live) + " allocations are left"); return; }
        // with memory again, on the same objects
        if (pl.first % 4 == 0 || pl.second || pl.first + 1 == n) {
            Outcome2 o = attempt(j, -1, false); c.count("retries");
            if (canon(o) != want) { c.fail("unusable-afterwards", kind + ", after allocation " + std::to_string(pl.first + 1) + " of " + std::to_string(n) + " failed: " + mon::show(canon(o).substr(0, 700)) + " instead of " + mon::show(want.substr(0, 700))); return; }
            if (st) { if (string a = st->also_after(); a != after) { c.fail("unusable-afterwards", kind + ", notify after the retry: " + mon::show(a) + " instead of " + mon::show(after)); return; } st->m.reset(new po::variables_map(*keep)); }
            j.drop();
        }
    }
    if (swallowed) c.count("completed-nevertheless", swallowed);
    if (j.inputs() != before) { c.fail("inputs-changed", kind); return; }
    if (n > 3) { c.nontrivial(c.cur + want); if (c.want_sample()) c.sample(kind + " " + std::to_string(n) + " allocations: " + c.cur + " -> " + want); }
}
static const unsigned N_KINDS = 15;
static void one(Ctx& c, unsigned kind, long limit) {
    Rng r(c.r.next());
    std::unique_ptr<Job> j; string name; StoreJob* st = 0;
    switch (kind) {
    case 0: { auto p = new ParseJob<char>(r); j.reset(p); name = "parse"; c.cur = p->c.show(); break; }
    case 1: { auto p = new ParseJob<wchar_t>(r); j.reset(p); name = "parse-wide"; c.cur = p->c.show(); break; }
    case 2: { auto p = new ArgvJob(r); j.reset(p); name = "parse-argv"; c.cur = p->c.show(); break; }
    case 3: { auto p = new ConfigJob<char>(r); j.reset(p); name = p->file ? "config-file" : "config"; c.cur = show(p->t) + mon::show(p->in); break; }
    case 4: { auto p = new ConfigJob<wchar_t>(r); j.reset(p); name = p->file ? "config-file-wide" : "config-wide"; c.cur = show(p->t) + mon::show(p->in); break; }
    case 5: { auto p = new EnvJob(r); j.reset(p); name = "environment"; c.cur = p->prefix ? "prefix" : "mapper"; break; }
    case 6: case 7: { auto p = new StoreJob(r); j.reset(p); st = p; name = "store"; c.cur = p->show(); break; }
    case 8: { auto p = new NotifyJob(r); j.reset(p); name = "notify"; c.cur = show(p->t) + p->src; break; }
    case 9: { auto p = new LookupJob(r); j.reset(p); name = "lookup"; c.cur = show(p->t) + mon::show(p->names) + std::to_string(p->flags); break; }
    case 10: { auto p = new SplitJob(r); j.reset(p); name = "split"; c.cur = mon::show(p->s) + std::to_string(p->kind); break; }
    case 11: { auto p = new ConvertJob(r); j.reset(p); name = "convert"; c.cur = mon::show(p->s) + std::to_string(p->kind); break; }
    case 12: { auto p = new CollectJob(r); j.reset(p); name = "collect"; c.cur = p->c.show(); break; }
    case 13: { auto p = new WholeJob(r); j.reset(p); name = "whole-program"; c.cur = show(p->t) + mon::show(p->args) + mon::show(p->cfg); break; }
    default: if (r.chance(50)) { auto p = new CopyJob(r); j.reset(p); name = "copy"; c.cur = p->s.show(); } else { auto p = new ErrorJob(r); j.reset(p); name = "message"; c.cur = p->c->show(); }
    }
    c.cur = name + ": " + c.cur;
    explore(c, *j, name, r, limit, st);
}
static void random_case(Ctx& c) { one(c, c.r.below(N_KINDS), 90); }
static vector<mon::Fixed> fixed() { vector<mon::Fixed> f; for (unsigned k = 0; k < N_KINDS; ++k) for (unsigned i = 0; i < 4; ++i) f.push_back({"all-points-" + std::to_string(k), [k](Ctx& c) { one(c, k, 3000); }}); return f; }
int main(int argc, char** argv) {
    static char e1[] = "VPM_ALPHA=text from the environment which is long", e2[] = "VPM_EPS=1", e3[] = "nonsense", e4[] = "PATH=x", *env[] = {e1, e2, e3, e4, 0};
    vector<char*> all; for (char** e = environ; *e; ++e) if (!strncmp(*e, "VERIF", 5) || strstr(*e, "SAN_OPTIONS")) all.push_back(*e); for (char** e = env; *e; ++e) all.push_back(*e); all.push_back(0); environ = all.data();
    return mon::run(argc, argv, fixed(), random_case);
}
