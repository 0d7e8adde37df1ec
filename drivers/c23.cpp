// C23: hostile inputs to every public entry point. The oracle is the instrumentation: sanitizers,
// the library's own assertions, the checked standard library, a monitor of the character
// classification functions' domain, memcheck for uninitialised memory, and "only exceptions derived
// from std::exception, and an end to everything" watched here. Driven by random bytes, by the mutated
// structure below or by libFuzzer (-DFUZZ): all three feed the same interpreter of a byte source.
#include "mon.hpp"
#include "winmain.hpp"
#include <boost/program_options.hpp>
#include <boost/program_options/environment_iterator.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <boost/program_options/detail/config_file.hpp>
#include <boost/optional.hpp>
#include <optional>
#include <locale>
#include <memory>
#include <sstream>
namespace po = boost::program_options; namespace st = boost::program_options::command_line_style;
using std::string; using std::vector; using mon::u64; typedef std::wstring W;
extern char** environ;

// the domain of the <cctype> functions: an unsigned char or EOF
static u64 ctype_calls = 0;
#ifdef CTYPE_MONITOR
static void domain(const char* f, int v) { ++ctype_calls; if (v < -1 || v > 255) { fprintf(stderr, "runtime error: %s called outside of its domain with %d\nSUMMARY: monitor: ctype-domain %s\n", f, v, f); abort(); } }
#define CT(F, BIT) extern "C" int F(int v) noexcept { domain(#F, v); return (*__ctype_b_loc())[v] & (unsigned short)BIT; }
#undef isspace
#undef isalpha
#undef isalnum
#undef isdigit
#undef isupper
#undef islower
#undef isprint
#undef ispunct
#undef iscntrl
#undef isxdigit
#undef tolower
#undef toupper
CT(isspace, _ISspace) CT(isalpha, _ISalpha) CT(isalnum, _ISalnum) CT(isdigit, _ISdigit) CT(isupper, _ISupper) CT(islower, _ISlower) CT(isprint, _ISprint) CT(ispunct, _ISpunct) CT(iscntrl, _IScntrl) CT(isxdigit, _ISxdigit)
extern "C" int tolower(int v) noexcept { domain("tolower", v); return (*__ctype_tolower_loc())[v]; }
extern "C" int toupper(int v) noexcept { domain("toupper", v); return (*__ctype_toupper_loc())[v]; }
#endif

// ---- the source of decisions
struct Src {
    const uint8_t* p = 0; const uint8_t* e = 0; mon::Rng* r = 0; bool small = false;
    unsigned byte() { if (r) return (unsigned)(r->next() >> 24) & 255; return p < e ? *p++ : 0; }
    unsigned below(unsigned n) { if (n < 2) return 0; if (r) return r->below(n); return (n > 256 ? byte() << 8 | byte() : byte()) % n; }
    bool chance(unsigned pct) { return below(100) < pct; }
    bool more() { return r || p < e; }
    template<class T> const T& pick(const vector<T>& v) { return v[below((unsigned)v.size())]; }
    // bytes of any kind, without the values that would end a C string if asked
    string text(bool zero = false) {
        static const vector<string> bits = {"--", "-", "/", "=", ",", "*", "alpha", "beta", "al", "-a", "-b", "--alpha", "--beta=1", "--alpha=", "a.*", "x.", "x.y", "[", "]", "[x]", "#", "\n", "\r", "\t", " ", "  ", "\"", "'", "\\", "\\n", "\\\"", "1", "-1", "99999999999999999999", "1e9999", "nan", "true", "off", "%value%", "%canonical_option%", "%", "\xc3\xa9", "\xc3", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x80", "\xff", "\xfe", "\xc0\xaf", "\xed\xa0\x80", "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\xef\xbb\xbf", "@f", "--file", "word word", "X_Y", "\x7f", "\x01"};
        string s; unsigned n = below(5);
        for (unsigned i = 0; i < n && more(); ++i) {
            unsigned k = below(20);
            if (k < 12) s += pick(bits);
            else if (k < 17) { unsigned m = below(6); while (m--) s += (char)byte(); }
            else if (k == 17) s += string(below(small ? 40 : 300), (char)byte());
            else if (k == 18) { string t = pick(bits); unsigned m = below(small ? 8 : 60); while (m--) s += t; }
            else { unsigned m = below(40); while (m--) s += (char)('a' + byte() % 4); }
        }
        if (!zero) { string o; for (char c : s) if (c) o += c; s.swap(o); }
        return s;
    }
    W wide() {
        if (chance(40)) { string s = text(true); return W(s.begin(), s.end()); }
        static const vector<unsigned> u = {0, 1, 'a', '-', '=', '[', ']', '"', '\\', '#', '\n', 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff, 0x80000000u, 0xffffffffu};
        W w; unsigned n = below(40); for (unsigned i = 0; i < n; ++i) w += chance(50) ? (wchar_t)pick(u) : (wchar_t)('a' + byte() % 26); return w;
    }
    vector<string> texts(unsigned max, bool zero = false) { vector<string> v; unsigned n = below(max); for (unsigned i = 0; i < n && more(); ++i) v.push_back(text(zero)); return v; }
    vector<W> wides(unsigned max) { vector<W> v; unsigned n = below(max); for (unsigned i = 0; i < n && more(); ++i) v.push_back(wide()); return v; }
};
// every byte of every result is read, and decided upon, so that memcheck sees uninitialised ones
struct Sink {
    u64 h = 1; unsigned values = 0;
    void n(u64 v) { if (v & 1) h = h * 31 + v; else h = h * 37 + v; ++values; }
    template<class CH> void s(const std::basic_string<CH>& t) { n(t.size()); for (CH c : t) n((u64)c); if (t.c_str()[t.size()]) n(1); }
    void s(const char* t) { s(string(t)); }
    template<class T> void s(const vector<T>& v) { n(v.size()); for (auto& x : v) s(x); }
    template<class CH> void o(const vector<po::basic_option<CH> >& v) { for (auto& x : v) { s(x.string_key); n((u64)x.position_key); s(x.value); s(x.original_tokens); n(x.unregistered); n(x.case_insensitive); } }
};
static Sink* sink; static mon::Ctx* ctx; static const char* scene = "";
static void count(const char* k) { if (ctx) ctx->count(k); }
static void broken(const char* key, const string& m) {
    if (ctx) { ctx->cur = string("scene ") + scene; ctx->fail(key, m); }
    else { fprintf(stderr, "SUMMARY: monitor: %s %s: %s\n", key, scene, m.c_str()); abort(); }
}
// runs one operation: it may only return or throw something derived from std::exception
template<class F> static bool op(const char* what, F f) {
    try { f(); count(what); return true; }
    catch (const po::error_with_option_name& e) { sink->s(e.what()); sink->s(e.get_option_name()); count("errors"); }
    catch (const std::bad_alloc&) { broken("memory-exhausted", what); }
    catch (const std::exception& e) { sink->s(e.what()); count("errors"); }
    catch (...) { broken("foreign-exception", what); }
    return false;
}

// ---- option tables
struct Own { string t; };
inline void validate(boost::any& v, const vector<string>& x, Own*, int) { po::validators::check_first_occurrence(v); Own o; o.t = po::validators::get_single_string(x, true); if (o.t == "bad") throw po::invalid_option_value(o.t); v = o; }
static void note(u64 v) { sink->n(v); }
struct Bound { int i = 0; string s; vector<string> vs; W w; vector<W> vw; bool b = false; double d = 0; boost::optional<int> oi; char c = 0; };
static string opt_name(Src& q) {
    static const vector<string> n = {"alpha,a", "beta,b", "alphabet", "x.*", "num,n", "verbose,v", "out", "level,l", "x", "mode", "x.y", "help,h,?", "gamma,delta,g", "file", ",z", "A", "Alpha", "x.y.z", "file-name,f", "be", "\xc3\xa9t\xc3\xa9", "word word", "w=v", "-dash", "--dd", "/slash", ",,", ",", "a,b,c", "q,q", "-"};
    if (q.chance(2)) return "*";
    string s = q.chance(90) ? q.pick(n) : q.text(); return s.empty() ? "e" : s;
}
static const po::value_semantic* semantic(Src& q, Bound& b) {
    auto common = [&](auto v) -> decltype(v) { if (q.chance(15)) v->composing(); if (q.chance(15)) v->multitoken(); if (q.chance(8)) v->zero_tokens(); if (q.chance(8)) v->required(); if (q.chance(10)) v->value_name(q.text()); return v; };
    switch (q.below(16)) {
    case 0: return new po::untyped_value(true);
    case 1: return new po::untyped_value(q.chance(50));
    case 2: return po::bool_switch(&b.b);
    case 3: { auto v = common(po::value<int>(&b.i)); if (q.chance(40)) v->default_value((int)q.byte()); if (q.chance(30)) v->implicit_value((int)q.byte()); return v; }
    case 4: { auto v = common(po::value<string>(&b.s)); if (q.chance(40)) v->default_value(q.text()); if (q.chance(30)) v->implicit_value(q.text(), q.text()); if (q.chance(20)) v->notifier([](const string& s) { note(s.size()); }); return v; }
    case 5: { auto v = common(po::value<vector<string> >(&b.vs)); if (q.chance(30)) v->default_value(q.texts(4), q.text()); if (q.chance(30)) v->implicit_value(q.texts(3), q.text()); if (q.chance(20)) v->notifier([](const vector<string>& s) { for (auto& x : s) note(x.size()); }); return v; }
    case 6: return common(po::value<vector<int> >());
    case 7: { auto v = common(po::value<double>(&b.d)); if (q.chance(30)) v->default_value(1.5); return v; }
    case 8: return common(po::value<bool>());
    case 9: { auto v = common(po::wvalue<W>(&b.w)); if (q.chance(20)) v->default_value(q.wide(), q.text()); return v; }
    case 10: return common(po::wvalue<vector<W> >(&b.vw));
    case 11: return common(po::wvalue<int>());
    case 12: return common(po::value<boost::optional<int> >(&b.oi));
    case 13: return common(po::value<Own>());
    case 14: return common(po::value<char>(&b.c));
    default: return common(po::wvalue<bool>());
    }
}
struct Table { Bound b; std::unique_ptr<po::options_description> d; vector<std::unique_ptr<po::options_description> > g; };
static string desc(Src& q) { string s; unsigned n = q.below(12); for (unsigned i = 0; i < n; ++i) { s += q.chance(70) ? string(q.below(20), 'w') : q.text(); s += q.pick(vector<string>{" ", " ", " ", "  ", "\n", "\t", ""}); } return s; }
static void gen_table(Src& q, Table& t, bool described = false) {
    unsigned len = q.chance(60) ? 80 : 3 + q.below(200), min = q.chance(60) ? len / 2 : q.below(len - 1); if (min + 1 >= len) min = len - 2;
    t.d.reset(q.chance(50) ? new po::options_description(len, min) : new po::options_description(q.text(), len, min));
    unsigned n = q.below(7);
    for (unsigned i = 0; i < n && q.more(); ++i) {
        string nm = opt_name(q), ds = described || q.chance(20) ? desc(q) : "d";
        if (q.chance(15)) t.d->add_options()(nm.c_str(), ds.c_str()); else if (q.chance(10)) t.d->add_options()(nm.c_str(), semantic(q, t.b)); else t.d->add_options()(nm.c_str(), semantic(q, t.b), ds.c_str());
        if (q.chance(15)) { t.g.emplace_back(new po::options_description(q.text(), len, min)); t.g.back()->add_options()(opt_name(q).c_str(), semantic(q, t.b), ds.c_str()); t.d->add(*t.g.back()); }
    }
}
static void look(Src& q, const po::variables_map& vm, const Table& t) {
    auto val = [&](const po::variable_value& v) {
        note(v.empty()); note(v.defaulted());
        switch (q.below(8)) {
        case 0: op("as", [&] { sink->s(v.as<string>()); }); break;
        case 1: op("as", [&] { note((u64)v.as<int>()); }); break;
        case 2: op("as", [&] { sink->s(v.as<vector<string> >()); }); break;
        case 3: op("as", [&] { sink->s(v.as<W>()); }); break;
        case 4: op("as", [&] { note(v.as<bool>()); }); break;
        default:
            if (auto p = boost::any_cast<string>(&v.value())) sink->s(*p);
            if (auto p = boost::any_cast<vector<string> >(&v.value())) sink->s(*p);
            if (auto p = boost::any_cast<W>(&v.value())) sink->s(*p);
            if (auto p = boost::any_cast<vector<W> >(&v.value())) sink->s(*p);
            if (auto p = boost::any_cast<vector<int> >(&v.value())) for (int x : *p) note((u64)x);
            if (auto p = boost::any_cast<int>(&v.value())) note((u64)*p);
            if (auto p = boost::any_cast<bool>(&v.value())) note(*p);
            if (auto p = boost::any_cast<char>(&v.value())) note((u64)*p);
            if (auto p = boost::any_cast<double>(&v.value())) note(*p > 1);
            if (auto p = boost::any_cast<Own>(&v.value())) sink->s(p->t);
            if (auto p = boost::any_cast<boost::optional<int> >(&v.value())) note(*p ? (u64)**p : 0);
        }
    };
    for (auto& x : vm) { sink->s(x.first); val(x.second); }
    string nm = q.text(); val(vm[nm]); op("at", [&] { val(vm.at(nm)); }); note(vm.count(nm)); val(vm["alpha"]);
    const Bound& b = t.b; note((u64)b.i); sink->s(b.s); sink->s(b.vs); sink->s(b.w); sink->s(b.vw); note(b.b); note(b.d > 1); note(b.oi ? (u64)*b.oi : 0); note((u64)b.c);
}
static int gen_style(Src& q) {
    static const vector<int> s = {0, st::unix_style, st::unix_style | st::case_insensitive, st::unix_style | st::allow_long_disguise, st::default_style, st::allow_long_disguise | st::long_allow_adjacent | st::long_allow_next | st::allow_slash_for_short | st::allow_guessing, st::allow_short | st::allow_slash_for_short | st::short_allow_adjacent, st::allow_short | st::allow_dash_for_short | st::short_allow_next | st::allow_sticky, st::unix_style | st::allow_slash_for_short | st::allow_long_disguise | st::case_insensitive, 0x1fff};
    return q.chance(70) ? q.pick(s) : (int)(q.byte() << 8 | q.byte()) & 0x1fff;
}
static vector<po::option> style_parser(Src* q, vector<string>& a) {
    vector<po::option> r; unsigned k = q->below(6);
    if (k < 3 || a.empty() || a[0] == "--") return r;
    po::option o; if (k == 4) { o.string_key = "alpha"; o.value.push_back(a[0]); } else if (k == 5) { o.string_key = q->text(); if (o.string_key.empty()) o.value.push_back(a[0]); } else o.value.push_back(a[0]);
    o.original_tokens.push_back(a[0]); a.erase(a.begin()); r.push_back(o);
    if (q->chance(20)) { po::option p; p.string_key = "beta"; r.push_back(p); }
    return r;
}

// ---- scenes
static void command_line(Src& q) {
    Table t; if (!op("tables", [&] { gen_table(q, t); })) return;
    po::positional_options_description pos; unsigned np = q.below(4); op("positional", [&] { for (unsigned i = 0; i < np; ++i) pos.add(q.chance(60) ? "file" : q.text().c_str(), (int)q.below(4)); if (q.chance(50)) pos.add(q.chance(70) ? "alpha" : q.text().c_str(), -1); });
    const int style = gen_style(q); const bool unreg = q.chance(40), usepos = q.chance(60); const unsigned ext = q.below(8);
    auto setup = [&](auto& p) { p.options(*t.d).style(style); if (usepos) p.positional(pos); if (unreg) p.allow_unregistered(); if (ext == 1) p.extra_parser([&](const string& s) { return s.size() > 1 && s[0] == '@' ? std::make_pair(string("alpha"), s.substr(1)) : q.chance(10) ? std::make_pair(q.text(), q.text()) : std::pair<string, string>(); }); if (ext == 2) p.extra_style_parser([&](vector<string>& a) { return style_parser(&q, a); }); };
    po::variables_map vm;
    if (q.chance(70)) {
        vector<string> a = q.texts(q.small ? 8 : 14, true);
        op("command-lines", [&] {
            po::command_line_parser p(a); setup(p); po::parsed_options r = p.run(); sink->o(r.options);
            for (auto m : {po::include_positional, po::exclude_positional}) sink->s(po::collect_unrecognized(r.options, m));
            op("stores", [&] { po::store(r, vm); }); look(q, vm, t); op("stores", [&] { po::store(r, vm, q.chance(50)); }); op("notifies", [&] { po::notify(vm); }); look(q, vm, t);
        });
        // the C interface
        vector<char*> av; vector<string> keep = a; for (auto& s : keep) av.push_back(&s[0]); av.push_back(0);
        op("argv", [&] { auto r = po::parse_command_line((int)a.size(), const_cast<const char* const*>(av.data()), *t.d, style); sink->o(r.options); });
    } else {
        vector<W> a = q.wides(10);
        op("wide-command-lines", [&] {
            po::wcommand_line_parser p(a); setup(p); po::wparsed_options r = p.run(); sink->o(r.options);
            for (auto m : {po::include_positional, po::exclude_positional}) sink->s(po::collect_unrecognized(r.options, m));
            op("stores", [&] { po::store(r, vm); }); op("notifies", [&] { po::notify(vm); }); look(q, vm, t);
        });
    }
    vm.clear(); look(q, vm, t);
    if (q.chance(20)) { Table t2; op("second-tables", [&] { gen_table(q, t2); po::command_line_parser p(q.texts(6)); p.options(*t2.d).style(style); po::store(p.run(), vm); look(q, vm, t2); }); }
}
static string config_text(Src& q, bool zero) { string s; unsigned n = q.below(q.small ? 6 : 10); static const vector<string> k = {"alpha=v", "beta=1", "x.y=2", "file=f", "num=3", "level=4", "# comment", "out=o", "alpha", "beta", "x.y", "file", "[x]", "[", "[]", "]", "#", "=", "alpha=1", "x.=", "*", "  y = 2 # c", "[a.b]", "[x"}; for (unsigned i = 0; i < n; ++i) { s += q.chance(50) ? q.pick(k) : q.text(zero); if (q.chance(40)) s += "=" + q.text(zero); s += q.pick(vector<string>{"\n", "\n", "\n", "\r\n", "\r", ""}); } return s; }
static void config(Src& q) {
    Table t; if (!op("tables", [&] { gen_table(q, t); })) return;
    const bool unreg = q.chance(40); po::variables_map vm;
    if (q.chance(65)) {
        string s = config_text(q, true);
        op("config-texts", [&] { std::istringstream is(s); auto r = po::parse_config_file(is, *t.d, unreg); sink->o(r.options); sink->s(po::collect_unrecognized(r.options, po::include_positional)); op("stores", [&] { po::store(r, vm); }); op("notifies", [&] { po::notify(vm); }); look(q, vm, t); });
        std::set<string> allowed; for (unsigned i = 0, n = q.below(5); i < n; ++i) allowed.insert(q.chance(60) ? q.pick(vector<string>{"alpha", "x.*", "x.y", "*", "b*"}) : "k" + q.text());
        op("config-iterators", [&] { std::istringstream is(s); po::detail::config_file_iterator it(is, allowed, unreg), end; for (; it != end; ++it) { sink->s(it->string_key); sink->s(it->value); } });
    } else {
        W s; if (q.chance(30)) s = q.wide(); string n = config_text(q, true); for (char ch : n) s += (wchar_t)(unsigned char)ch; if (q.chance(30)) s += q.wide();
        op("wide-config-texts", [&] { std::wistringstream is(s); auto r = po::parse_config_file(is, *t.d, unreg); sink->o(r.options); op("stores", [&] { po::store(r, vm); }); op("notifies", [&] { po::notify(vm); }); look(q, vm, t); });
    }
    if (q.chance(5)) for (const char* f : {"", "/", "/proc/self/mem", "/dev/null", "no/such/file"}) { op("config-files", [&] { auto r = po::parse_config_file<char>(f, *t.d, unreg); sink->o(r.options); }); op("config-files", [&] { auto r = po::parse_config_file<wchar_t>(f, *t.d, unreg); sink->o(r.options); }); }
}
static void environment(Src& q) {
    struct Keep { char** e; ~Keep() { environ = e; } } keep{environ};
    Table t; if (!op("tables", [&] { gen_table(q, t); })) return;
    vector<string> v; unsigned n = q.below(8); for (unsigned i = 0; i < n; ++i) { string s = q.chance(40) ? q.pick(vector<string>{"X_", "X", "X_alpha", "x_", "PATH"}) + q.text() : q.text(); if (q.chance(80)) s += "="; if (q.chance(70)) s += q.text(); v.push_back(s); }
    vector<char*> e; for (auto& s : v) e.push_back(&s[0]); e.push_back(0);
    environ = q.chance(4) ? 0 : e.data(); string pre = q.chance(60) ? q.pick(vector<string>{"X_", "", "X_ALPHA", "x"}) : q.text();
    po::variables_map vm;
    op("environments", [&] { auto r = po::parse_environment(*t.d, pre); sink->o(r.options); op("stores", [&] { po::store(r, vm); }); op("notifies", [&] { po::notify(vm); }); look(q, vm, t); });
    op("environments", [&] { auto r = po::parse_environment(*t.d, [&](const string& s) { return q.chance(50) ? s : q.chance(50) ? string() : q.text(); }); sink->o(r.options); });
    op("environment-iterators", [&] { if (!environ) return; boost::environment_iterator i(environ), end; for (; i != end; ++i) { sink->s(i->first); sink->s(i->second); } });
}
static void split(Src& q) {
    string s; unsigned n = q.below(6); for (unsigned i = 0; i < n; ++i) s += q.chance(50) ? q.text(true) : q.pick(vector<string>{"\\", "\"", "'", " ", "\\\\", "\\\"", "\t", "\\n", "a"});
    string a = q.text(true), b = q.text(true), c = q.text(true); W w(s.begin(), s.end()); if (q.chance(30)) w += q.wide();
    op("splits", [&] { sink->s(po::split_unix(s)); }); op("splits", [&] { sink->s(po::split_unix(w)); });
    op("splits", [&] { sink->s(po::split_unix(s, a, b, c)); }); op("splits", [&] { sink->s(po::split_unix(w, W(a.begin(), a.end()), W(b.begin(), b.end()), W(c.begin(), c.end()))); });
    op("windows-splits", [&] { sink->s(po::split_winmain(s)); }); op("windows-splits", [&] { sink->s(po::split_winmain(w)); });
}
static void convert(Src& q) {
    string s; W w; unsigned n = q.below(5); for (unsigned i = 0; i <= n; ++i) { s += q.text(true); w += q.wide(); }
    if (q.chance(10)) { unsigned k = 1 + q.below(q.small ? 10 : 60); string t = s; W u = w; while (--k && s.size() < 20000) { s += t; w += u; } }
    op("conversions", [&] { sink->s(boost::from_utf8(s)); }); op("conversions", [&] { sink->s(boost::to_utf8(w)); });
    op("conversions", [&] { sink->s(boost::from_local_8_bit(s)); }); op("conversions", [&] { sink->s(boost::to_local_8_bit(w)); });
    op("conversions", [&] { sink->s(po::to_internal(s)); sink->s(po::to_internal(w)); });
    static const std::locale utf8 = [] { try { return std::locale("C.utf8"); } catch (...) { return std::locale(); } }();
    auto& f = std::use_facet<std::codecvt<wchar_t, char, std::mbstate_t> >(utf8);
    op("conversions", [&] { sink->s(boost::from_8_bit(s, f)); }); op("conversions", [&] { sink->s(boost::to_8_bit(w, f)); });
}
static void help(Src& q) {
    Table t; if (!op("tables", [&] { gen_table(q, t, true); })) return;
    op("prints", [&] { std::ostringstream os; os << *t.d; sink->s(os.str()); }); note(t.d->get_option_column_width());
    for (auto& o : t.d->options()) {
        op("names", [&] { for (int f : {0, (int)st::allow_long, (int)st::allow_long_disguise, (int)st::allow_dash_for_short, (int)st::allow_slash_for_short, 0x1fff}) sink->s(o->canonical_display_name(f)); sink->s(o->format_name()); sink->s(o->format_parameter()); sink->s(o->long_name()); auto l = o->long_names(); for (size_t i = 0; i < l.second; ++i) sink->s(l.first[i]); sink->s(o->description()); sink->s(o->key(q.text())); note((u64)o->match(q.text(), q.chance(50), q.chance(50), q.chance(50))); note(o->semantic()->min_tokens()); note(o->semantic()->max_tokens()); note(o->semantic()->is_required()); note(o->semantic()->is_composing()); boost::any x; note(o->semantic()->apply_default(x)); });
        op("direct-parses", [&] { boost::any x; o->semantic()->parse(x, q.texts(4), q.chance(50)); o->semantic()->notify(x); });
    }
    string nm = q.chance(60) ? q.pick(vector<string>{"alpha", "al", "x.y", "x.", "-a", "-", "", "ALPHA", "--"}) : q.text(true);
    for (int k = 0; k < 8; ++k) { op("lookups", [&] { if (auto* d = t.d->find_nothrow(nm, k & 1, k & 2, k & 4)) sink->s(d->long_name()); }); op("lookups", [&] { sink->s(t.d->find(nm, k & 1, k & 2, k & 4).format_name()); }); }
}
static void errors(Src& q) {
    struct E : po::error_with_option_name { E(const string& t, const string& n, const string& o, int s) : po::error_with_option_name(t, n, o, s) {} };
    string a = q.text(true), b = q.text(true), c = q.text(true), d = q.text(true); static const vector<int> prefixes = {0, st::allow_long, st::allow_long_disguise, st::allow_dash_for_short, st::allow_slash_for_short}; int s = q.pick(prefixes);
    op("messages", [&] { E e(a, b, c, s); sink->s(e.what()); e.set_substitute(d, a); e.set_substitute_default(b, "<" + c, d); sink->s(e.what()); e.add_context(b, c, s); sink->s(e.what()); e.set_prefix(q.pick(prefixes)); e.set_original_token(d); e.set_option_name(a); sink->s(e.what()); E f(e); f = e; throw f; });
    op("messages", [&] { po::unknown_option e(a); sink->s(e.what()); throw e; });
    op("messages", [&] { vector<string> alts = q.texts(6); alts.push_back(q.text()); po::ambiguous_option e(alts); e.set_option_name(b); e.set_original_token(c); sink->s(e.what()); throw e; });
    for (int k = 0; k < 6; ++k) op("messages", [&] { po::validation_error e((po::validation_error::kind_t)(po::validation_error::multiple_values_not_allowed + k % 6), b, c, s); sink->s(e.what()); throw e; });
    for (int k = 0; k < 7; ++k) op("messages", [&] { po::invalid_command_line_syntax e((po::invalid_syntax::kind_t)(po::invalid_syntax::long_not_allowed + k), b, c, s); sink->s(e.tokens()); sink->s(e.what()); throw e; });
    op("messages", [&] { po::invalid_config_file_syntax e(a, po::invalid_syntax::unrecognized_line); sink->s(e.tokens()); throw e; });
    op("messages", [&] { po::invalid_option_value e(q.wide()); e.set_option_name(b); sink->s(e.what()); throw e; });
    op("messages", [&] { po::invalid_bool_value e(a); sink->s(e.what()); throw e; });
    op("messages", [&] { po::reading_file e(a.c_str()); sink->s(e.what()); throw e; });
    op("messages", [&] { po::required_option e(a); sink->s(e.what()); throw e; });
}
static void anything(Src& q) {
    Sink s; sink = &s;
    std::locale old = std::locale();
    static const std::locale utf8 = [] { try { return std::locale("C.utf8"); } catch (...) { return std::locale(); } }();
    if (q.chance(30)) std::locale::global(utf8);
    struct Back { std::locale& l; ~Back() { std::locale::global(l); } } back{old};
    switch (q.below(10)) {
    case 0: case 1: case 2: scene = "command line"; command_line(q); break;
    case 3: case 4: scene = "configuration"; config(q); break;
    case 5: scene = "environment"; environment(q); break;
    case 6: scene = "split"; split(q); break;
    case 7: scene = "convert"; convert(q); break;
    case 8: scene = "help"; help(q); break;
    default: scene = "errors"; errors(q);
    }
    if (ctx) { ctx->eval(); ctx->count("result-values", s.values); if (s.values > 20) ctx->nontrivial(s.h); if (s.h == 42) ctx->count("answer"); }
}
#ifdef FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { Src q; q.p = d; q.e = d + n; q.small = true; anything(q); return 0; }
#else
static void random_case(mon::Ctx& c) { ctx = &c; Src q; q.r = &c.r; q.small = getenv("VPM_SMALL") != 0; c.cur = "random scene"; anything(q); if (c.want_sample()) c.sample(string("scene ") + scene + ", " + std::to_string(sink ? 1 : 0)); sink = 0; c.count("ctype-calls", ctype_calls); ctype_calls = 0; ctx = 0; }
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    if (getenv("VPM_SMALL")) return f;
    f.push_back({"sizes", [](mon::Ctx& c) {
        // large inputs of every kind: nothing may recurse or grow without bound
        ctx = &c; Sink s; sink = &s; c.cur = "large inputs"; c.eval();
        po::options_description d; d.add_options()("alpha,a", po::value<vector<string> >()->multitoken(), "d")("beta,b", "d")("x.*", po::value<string>(), "d")("num", po::value<int>());
        const string big(400000, 'v');
        op("large", [&] { vector<string> a(4000, "v"); a.insert(a.begin(), "--alpha"); po::variables_map vm; po::store(po::command_line_parser(a).options(d).run(), vm); note(vm["alpha"].as<vector<string> >().size()); });
        op("large", [&] { vector<string> a(1, "-" + string(20000, 'b')); po::variables_map vm; auto r = po::command_line_parser(a).options(d).run(); note(r.options.size()); });
        op("large", [&] { sink->o(po::command_line_parser(vector<string>(1, "--alpha=" + big)).options(d).run().options); });
        op("large", [&] { sink->o(po::command_line_parser(vector<string>(1, "--" + big)).options(d).run().options); });
        op("large", [&] { po::variables_map vm; po::store(po::command_line_parser(vector<string>(1, "--num=" + big)).options(d).run(), vm); });
        op("large", [&] { std::istringstream is("[" + string(100000, '[') + "]\nx=" + big + "\n"); sink->o(po::parse_config_file(is, d, true).options); });
        op("large", [&] { string t; for (int i = 0; i < 5000; ++i) t += "x.k" + std::to_string(i) + "=1\n"; std::istringstream is(t); po::variables_map vm; po::store(po::parse_config_file(is, d), vm); note(vm.size()); });
        op("large", [&] { sink->s(po::split_unix(string(200000, '"'))); }); op("large", [&] { sink->s(po::split_unix(string(200000, ' '))); }); op("large", [&] { sink->s(po::split_winmain(string(200000, '\\') + "\"")); }); op("large", [&] { sink->s(po::split_winmain(string(200000, '"'))); });
        op("large", [&] { sink->s(boost::from_utf8(string(300000, '\xc3'))); }); op("large", [&] { sink->s(boost::to_utf8(W(300000, L'\x20ac'))); });
        op("large", [&] { po::options_description e; e.add_options()(string(3000, 'n').c_str(), string(30000, 'd').c_str()); std::ostringstream os; os << e; sink->s(os.str()); });
        op("large", [&] { po::unknown_option e(string(50000, '%')); sink->s(e.what()); string t; for (int i = 0; i < 5000; ++i) t += "%option%"; e.set_option_name(t); sink->s(e.what()); });
        op("large", [&] { po::options_description* in = new po::options_description("g"); in->add_options()("leaf", "d"); po::options_description all; for (int i = 0; i < 300; ++i) { po::options_description* out = new po::options_description("g"); out->add(*in); delete in; in = out; } all.add(*in); std::ostringstream os; os << all; sink->s(os.str()); delete in; });
        c.nontrivial(s.h); ctx = 0; sink = 0;
    }});
    f.push_back({"long runs in configuration", [](mon::Ctx& c) {
        ctx = &c; Sink s; sink = &s; c.cur = "a long run of one thing"; c.eval();
        po::options_description d; d.add_options()("alpha,a", po::value<string>(), "d")("x.*", po::value<string>(), "d");
        // a very long run of anything one step may skip over
        struct Run { string unit; unsigned n; };
        for (const Run& u : {Run{"\n", 1000000}, Run{"# c\n", 150000}, Run{" \n\t#\n", 100000}, Run{"\r\n", 200000}, Run{"[s]\n", 100000}, Run{"x.y=1\n", 30000}, Run{"nokey=1\n", 30000}}) {
            string t; for (unsigned i = 0; i < u.n; ++i) t += u.unit;
            op("large-runs", [&] { std::istringstream is(t); auto o = po::parse_config_file(is, d, true); note(o.options.size()); if (!o.options.empty()) sink->s(o.options.back().value); });
            op("large-runs", [&] { std::istringstream is(t + "x.z=1\n" + t); auto o = po::parse_config_file(is, d, true); note(o.options.size()); });
            op("large-runs", [&] { W w(t.begin(), t.end()); std::wistringstream is(w); auto o = po::parse_config_file(is, d, true); note(o.options.size()); });
        }
        c.nontrivial(s.h + 0); ctx = 0; sink = 0;
    }});
    f.push_back({"long runs in splits", [](mon::Ctx& c) {
        ctx = &c; Sink s; sink = &s; c.cur = "a long run of one thing"; c.eval();
        po::options_description d; d.add_options()("alpha,a", po::value<string>(), "d")("x.*", po::value<string>(), "d");
        for (const char* u : {" ", "\t", " \t", "''", "\"\"", "\\", "\\n", "\"", "a ", "'a' ", "a\\ "}) for (const char* end : {"", "x", "'", "\""}) {
            string t; for (unsigned i = 0; i < 150000; ++i) t += u; t += end;
            op("large-runs", [&] { note(po::split_unix(t).size()); }); op("large-runs", [&] { note(po::split_winmain(t).size()); }); op("large-runs", [&] { note(po::split_unix(W(t.begin(), t.end())).size()); });
        }
        c.nontrivial(s.h + 1); ctx = 0; sink = 0;
    }});
    f.push_back({"long runs elsewhere", [](mon::Ctx& c) {
        ctx = &c; Sink s; sink = &s; c.cur = "a long run of one thing"; c.eval();
        po::options_description d; d.add_options()("alpha,a", po::value<string>(), "d")("x.*", po::value<string>(), "d");
        for (const char* u : {"\n", "\t", " ", "w ", "\n ", "w\n", "w\tx\n", "w"}) { string t; for (unsigned i = 0; i < 60000; ++i) t += u; op("large-runs", [&] { po::options_description e; e.add_options()("name", t.c_str())("other", po::value<int>(), ("a\t" + t).c_str()); std::ostringstream os; os << e; note(os.str().size()); }); }
        for (const char* u : {"v,", ",", "-", "a"}) { string t; for (unsigned i = 0; i < 100000; ++i) t += u; op("large-runs", [&] { po::options_description e; e.add_options()(t.c_str(), "d"); note(e.options().size()); sink->s(po::command_line_parser(vector<string>(1, "--v")).options(e).run().options[0].string_key); }); }
        { vector<string> keep(100000, "N"); for (size_t i = 0; i < keep.size(); ++i) keep[i] += std::to_string(i) + "=v"; keep.push_back("X_alpha=1"); vector<char*> blk; for (auto& x : keep) blk.push_back(&x[0]); blk.push_back(0); char** o = environ; environ = blk.data();
          op("large-runs", [&] { note(po::parse_environment(d, "X_").options.size()); }); op("large-runs", [&] { note(po::parse_environment(d, [](const string&) { return string(); }).options.size()); }); op("large-runs", [&] { boost::environment_iterator i(environ), end; unsigned n = 0; for (; i != end; ++i) ++n; note(n); }); environ = o; }
        op("large-runs", [&] { std::set<string> allowed; allowed.insert("*"); string t(1000000, '\n'); std::istringstream is(t + "k=v"); po::detail::config_file_iterator it(is, allowed), end; for (; it != end; ++it) sink->s(it->string_key); });
        c.nontrivial(s.h + 2); ctx = 0; sink = 0;
    }});
    f.push_back({"all byte values in all places", [](mon::Ctx& c) {
        ctx = &c; Sink s; sink = &s; c.eval(); po::options_description d; d.add_options()("alpha,a", po::value<string>())("\xc3\xa9", "d")("*", po::value<string>()); int ci = st::unix_style | st::case_insensitive | st::allow_long_disguise;
        for (int b = 1; b < 256; ++b) for (const char* fmt : {"?", "-?", "--?", "/?", "a?", "--alpha=?", "-a?", "?=?", "--?=?", "[?]", "?a=b", "[a?]\n?=?"}) {
            string t; for (const char* f2 = fmt; *f2; ++f2) t += *f2 == '?' ? (char)b : *f2;
            c.cur = "text " + mon::show(t);
            for (int style : {0, ci, (int)(st::allow_short | st::allow_slash_for_short | st::short_allow_next | st::short_case_insensitive)}) op("byte-lines", [&] { sink->o(po::command_line_parser(vector<string>(2, t)).options(d).style(style).allow_unregistered().run().options); });
            op("byte-texts", [&] { std::istringstream is(t); sink->o(po::parse_config_file(is, d, true).options); });
            op("byte-names", [&] { for (int k = 0; k < 8; ++k) if (d.find_nothrow(t, k & 1, k & 2, k & 4)) note(1); });
            op("byte-splits", [&] { sink->s(po::split_winmain(t)); }); op("byte-splits", [&] { sink->s(po::split_unix(t, string(1, (char)b))); });
            vector<string> ev(1, t); ev[0] += "=v"; char* blk[] = {&ev[0][0], 0}; char** old = environ; environ = blk; op("byte-environments", [&] { sink->o(po::parse_environment(d, string()).options); }); environ = old;
            op("byte-bools", [&] { boost::any x; std::unique_ptr<const po::value_semantic> v(po::value<bool>()); v->parse(x, vector<string>(1, t), true); });
        }
        c.nontrivial(s.h); ctx = 0; sink = 0;
    }});
    f.push_back({"empty argument vectors", [](mon::Ctx& c) {
        ctx = &c; Sink s; sink = &s; c.eval(); po::options_description d; d.add_options()("a", "d"); c.cur = "argc 0, 1";
        char* none[] = {0}; char nm[] = "p"; char* one[] = {nm, 0};
        op("argv", [&] { sink->o(po::parse_command_line(0, (char**)none, d).options); sink->o(po::parse_command_line(1, (char**)one, d).options); sink->o(po::command_line_parser(0, (char**)none).options(d).run().options); });
        c.nontrivial(s.h + 1); ctx = 0; sink = 0;
    }});
    f.push_back({"options without tokens", [](mon::Ctx& c) {
        // a style parser need not record tokens; every error about its options has to do without
        ctx = &c; Sink s; sink = &s; c.eval(); c.cur = "style parser without original tokens";
        for (const char* nm : {"foo", "fo", "f", "dup", "-d", "-x", "nosuch", "many", "", "fl", "flag", "wild*", "w1", "--foo", "-t", "-u", "two"}) for (int nv = 0; nv < 4; ++nv) for (int no = 0; no < 3; ++no) for (int style : {(int)po::command_line_style::unix_style, (int)po::command_line_style::unix_style | (int)po::command_line_style::case_insensitive, (int)po::command_line_style::allow_short | (int)po::command_line_style::allow_dash_for_short}) for (int un = 0; un < 2; ++un) {
            if (!*nm && nv != 1) continue;
            po::options_description d; d.add_options()("foo", po::value<string>())("food", po::value<string>())("dup,d", po::value<string>())("dup2,d", "")("dup", "")("many", po::value<std::vector<string> >()->multitoken())("flag", "")("w*", po::value<string>())("two,t", "")("two,u", "");
            for (int rest = 0; rest < 6; ++rest) {
                std::vector<string> a(1, "%"); if (rest) a.push_back(rest == 1 ? "next" : rest == 2 ? "-d" : rest == 3 ? "--foo=1" : rest == 4 ? "-tu" : "-ut"); if (rest == 2) a.push_back("last");
                op("tokenless-options", [&] {
                    po::command_line_parser p(a); p.options(d).style(style); if (un) p.allow_unregistered();
                    p.extra_style_parser([&](std::vector<string>& t) { std::vector<po::option> r; if (t[0] == "%") { po::option o; o.string_key = nm; o.value.assign((size_t)nv, "v"); if (!*nm) o.original_tokens.clear(); for (int q = 0; q < no; ++q) o.original_tokens.push_back("%"); r.push_back(o); t.erase(t.begin()); } return r; });
                    po::parsed_options q = p.run(); sink->o(q.options); po::variables_map vm; po::store(q, vm); });
            }
        }
        c.nontrivial(s.h); ctx = 0; sink = 0;
    }});
    f.push_back({"section headers after each other", [](mon::Ctx& c) {
        // a short header after a long one: storage is reused, its end is near
        ctx = &c; Sink s; sink = &s; c.eval(); c.cur = "sections of lengths 0 to 70 after each other";
        po::options_description d; d.add_options()("*", po::value<string>());
        for (unsigned n = 0; n <= 70; ++n) for (unsigned m = 0; m <= 70; m += m < 3 ? 1 : 7) for (int dot = 0; dot < 3; ++dot) {
            string t = "[" + string(n, 's') + (dot == 1 ? "." : "") + "]\na=1\n[" + string(m, 't') + (dot == 2 ? "." : "") + "]\nb=2\n[]\nc=3\n[ ]\nd=4\n";
            op("section-runs", [&] { std::istringstream is(t); sink->o(po::parse_config_file(is, d, true).options); });
        }
        c.nontrivial(s.h); ctx = 0; sink = 0;
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
#endif
