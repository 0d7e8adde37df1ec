// C28: one transcript per case, compared between builds by the check. Inputs come from a seeded
// generator that draws in an order every compiler agrees on (the transcript starts with the input, so
// a difference there is told apart from one in the results). Must compile as C++14 and without RTTI.
#include "hist.hpp"
#include "utf8.hpp"
#include <new>
#include <sys/resource.h>
using namespace cli; using mon::Ctx; typedef std::wstring W;
extern char** environ;
// memory under control: what fresh and freed blocks hold, and whether addresses grow or shrink
namespace mem {
static int mode() { static int m = -1; if (m < 0) { const char* e = getenv("VPM_MEM"); m = e ? atoi(e) : 0; } return m; }
static char* top = 0; static const size_t ARENA = (size_t)6 << 30; static char* base = 0;
static unsigned turn = 0;
static void* get(size_t n) {
    int m = mode(); if (!m) return malloc(n ? n : 1);
    if (m < 3) { char* p = (char*)malloc(n + 16); if (!p) return 0; *(size_t*)p = n; memset(p + 16, m == 1 ? 0 : 0xff, n); return p + 16; }
    // addresses shrink from one allocation to the next, and are never used again
    if (!base) { base = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == (char*)MAP_FAILED) abort(); top = base + ARENA; }
    n = (n + 31 + (turn++ % 3) * 16) & ~(size_t)15; top -= n; if (top < base) { fprintf(stderr, "arena used up\n"); abort(); }
    *(size_t*)top = n; memset(top + 16, 0xa5, n - 16); return top + 16;
}
static void put(void* p) {
    if (!p) return; int m = mode(); if (!m) { free(p); return; }
    char* q = (char*)p - 16; size_t n = *(size_t*)q; if (m < 3) { memset(p, m == 1 ? 0 : 0xdd, n); __asm__ volatile("" : : "r"(p) : "memory"); free(q); return; }
    memset(p, 0x5a, n - 16); __asm__ volatile("" : : "r"(p) : "memory");
    if (n >= 65536) { char* a = (char*)(((size_t)q + 4095) & ~(size_t)4095); char* b = (char*)(((size_t)q + n) & ~(size_t)4095); if (a < b) madvise(a, (size_t)(b - a), MADV_DONTNEED); }
}
}
#if !defined(__SANITIZE_ADDRESS__) && !defined(VPM_PLAIN_NEW)
void* operator new(size_t n) { void* p = mem::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = mem::get(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { mem::put(p); }
void operator delete[](void* p) noexcept { mem::put(p); }
void operator delete(void* p, size_t) noexcept { mem::put(p); }
void operator delete[](void* p, size_t) noexcept { mem::put(p); }
#endif
// leaves values behind on the stack for whoever reads what was never written
static void __attribute__((noinline)) dirty_stack(unsigned char b) { volatile unsigned char a[24000]; for (size_t i = 0; i < sizeof a; ++i) a[i] = b; }

struct Script { string in, out; };
static Script* S;
static void put(const string& s) { S->out += s; S->out += '\n'; }
static string flat(const string& s) { return mon::show(s); }
static string flat(const W& s) { return mon::show(s); }
template<class CH> static string opts(const vector<po::basic_option<CH> >& v) { string s; for (size_t i = 0; i < v.size(); ++i) { s += v[i].string_key + "@" + std::to_string(v[i].position_key) + "["; for (size_t k = 0; k < v[i].value.size(); ++k) s += flat(v[i].value[k]) + " "; s += "]["; for (size_t k = 0; k < v[i].original_tokens.size(); ++k) s += flat(v[i].original_tokens[k]) + " "; s += string("]") + (v[i].unregistered ? "u" : "") + (v[i].case_insensitive ? "i" : "") + ";"; } return s; }
// what kind of error, found the way a user does: by catching it
template<class F> static bool guard(const char* what, F f) {
    const string w(what);
    try { f(); return true; }
    catch (const po::unknown_option& e) { put(w + " unknown_option " + e.what() + "|" + e.get_option_name()); }
    catch (const po::ambiguous_option& e) { string s; for (size_t i = 0; i < e.alternatives().size(); ++i) s += e.alternatives()[i] + ","; put(w + " ambiguous_option " + e.what() + "|" + s); }
    catch (const po::invalid_command_line_syntax& e) { put(w + " invalid_command_line_syntax " + std::to_string(e.kind()) + " " + e.what() + "|" + e.tokens()); }
    catch (const po::invalid_config_file_syntax& e) { put(w + " invalid_config_file_syntax " + e.what() + "|" + e.tokens()); }
    catch (const po::invalid_bool_value& e) { put(w + " invalid_bool_value " + e.what()); }
    catch (const po::invalid_option_value& e) { put(w + " invalid_option_value " + e.what()); }
    catch (const po::multiple_occurrences& e) { put(w + " multiple_occurrences " + e.what()); }
    catch (const po::validation_error& e) { put(w + " validation_error " + std::to_string(e.kind()) + " " + e.what()); }
    catch (const po::required_option& e) { put(w + " required_option " + e.what()); }
    catch (const po::error_with_option_name& e) { put(w + " error_with_option_name " + e.what()); }
    catch (const po::too_many_positional_options_error& e) { put(w + " too_many_positional " + e.what()); }
    catch (const po::invalid_command_line_style& e) { put(w + " invalid_style " + e.what()); }
    catch (const po::reading_file& e) { put(w + " reading_file " + e.what()); }
    catch (const po::error& e) { put(w + " error " + e.what()); }
    catch (const std::logic_error& e) { put(w + " logic_error " + e.what()); }
    catch (const std::exception& e) { put(w + " std::exception " + e.what()); }
    return false;
}
struct Late { string t; };
inline void validate(boost::any& v, const vector<string>& x, Late*, int) { po::validators::check_first_occurrence(v); const string& s = po::validators::get_single_string(x, true); if (s == "bad") throw po::validation_error(po::validation_error::invalid_option_value, "", s); Late l; l.t = s; v = l; }
static void map_out(const po::variables_map& m) { string s; for (po::variables_map::const_iterator i = m.begin(); i != m.end(); ++i) { s += i->first + (i->second.defaulted() ? "(d)=" : "="); if (const Late* l = boost::any_cast<Late>(&i->second.value())) s += "L" + l->t; else if (i->second.empty()) s += "-"; else s += any_text(i->second.value()); s += ";"; } put(s); }
static W widen(const string& s) { return u8::dec(u8::clean(s)); }

static void command_line(Rng& r) {
    GenOpt g; g.wild = r.chance(35); g.max_opts = 9; Table t = gen_table(r, g); po::options_description d("All"); build(t, d);
    d.add_options()("late", po::value<Late>(), "late")("wl", po::wvalue<W>(), "wide")("wv", po::wvalue<vector<W> >()->multitoken(), "wides");
    int style = gen_style(r); if (r.chance(10)) style = (int)r.below(8192);
    const bool unreg = r.chance(40); Pos p = gen_pos(r, t); po::positional_options_description pos = make_pos(p);
    vector<string> a = r.chance(60) ? gen_good_args(r, t, style) : gen_args(r, t);
    static const vector<string> extra = {"--late=1", "--late=bad", "--wl=\xe2\x82\xac", "--wv", "--late", "--wl=\xff"};
    for (unsigned k = r.below(3); k--;) { size_t at = r.below((unsigned)a.size() + 1); string x = r.pick(extra); a.insert(a.begin() + (long)at, x); }
    S->in += case_desc(t, a, style, unreg, &p);
    po::variables_map m;
    guard("parse", [&] {
        po::command_line_parser c(a); c.options(d).style(style).positional(pos); if (unreg) c.allow_unregistered();
        po::parsed_options q = c.run(); put(opts(q.options));
        vector<string> u = po::collect_unrecognized(q.options, po::include_positional); put(mon::show(u));
        guard("store", [&] { po::store(q, m); }); map_out(m); guard("notify", [&] { po::notify(m); });
    });
    vector<W> w; for (size_t i = 0; i < a.size(); ++i) w.push_back(widen(a[i]));
    guard("wide", [&] { po::wcommand_line_parser c(w); c.options(d).style(style).positional(pos); if (unreg) c.allow_unregistered(); po::wparsed_options q = c.run(); put(opts(q.options)); po::variables_map n; guard("wstore", [&] { po::store(q, n); }); map_out(n); });
    vector<const char*> av; av.push_back("program"); for (size_t i = 0; i < a.size(); ++i) av.push_back(a[i].c_str()); av.push_back(0);
    guard("argv", [&] { po::parsed_options q = po::parse_command_line((int)av.size() - 1, &av[0], d, style); put(opts(q.options)); });
    for (unsigned k = 0; k < 4; ++k) { const Opt& o = t[r.below((unsigned)t.size())]; string n = o.longs.empty() ? string("-") + o.sh : o.longs[0]; n = n.substr(0, 1 + r.below((unsigned)n.size())); bool b1 = r.chance(50), b2 = r.chance(50), b3 = r.chance(50);
        S->in += "lookup " + n; guard("find", [&] { const po::option_description& x = d.find(n, b1, b2, b3); put(x.format_name() + x.key(n) + x.canonical_display_name(style) + x.long_name()); }); }
}
static void histories(Rng& r) {
    RTable t = gen_rich(r, 9, true, true); World w(t, true); ValueIds ids; po::variables_map m, behind; m.next(&behind); S->in += show(t);
    for (unsigned n = 1 + r.below(4); n--;) {
        Source s = gen_source(r, w, ids, true); S->in += s.show(t); const bool wide = r.chance(30), other = r.chance(25); const unsigned seed = r.below(100000); Rng q(seed);
        guard("source", [&] { po::parsed_options p = parse_source(q, w, s); put(opts(p.options)); po::variables_map& x = other ? behind : m; if (wide) po::store(po::wparsed_options(p), x); else po::store(p, x); });
        map_out(m); w.sinks.events.clear(); guard("notify", [&] { po::notify(m); });
        string e; for (size_t i = 0; i < w.sinks.events.size(); ++i) e += w.sinks.events[i].key + w.sinks.events[i].text + ";"; for (size_t i = 0; i < t.size(); ++i) if (t[i].bound && t[i].ty != T_UNT && t[i].ty != T_UFLAG) e += t[i].key() + "=" + w.sinks.text(t[i]); put(e);
        string l; for (size_t i = 0; i < t.size(); ++i) { const po::variable_value& v = m[t[i].key()]; l += v.empty() ? "-" : any_text(v.value()); l += v.defaulted() ? "d" : ""; } put(l);
    }
}
static void config(Rng& r) {
    GenOpt g; g.wild = r.chance(30); Table t = gen_table(r, g); for (size_t i = 0; i < t.size(); ++i) if (t[i].longs.empty() && r.chance(95)) t[i].longs.push_back("n" + std::to_string(i)); po::options_description d; build(t, d); const bool unreg = r.chance(50);
    string s; for (unsigned n = r.below(9); n--;) {
        const Opt& o = t[r.below((unsigned)t.size())]; string nm = o.longs.empty() ? string("zz") : r.pick(o.longs); if (nm[nm.size() - 1] == '*') nm += "x"; size_t p = nm.find('.'); string v = r.chance(50) ? plain_value(r) : gen_value(r); unsigned k = r.below(12);
        if (k < 6) s += nm + "=" + v; else if (k == 6) s += " \t" + nm + "\t = " + v + "  # c"; else if (k == 7 && p != string::npos) s += "[" + nm.substr(0, p) + "]\n" + nm.substr(p + 1) + "=" + v; else if (k == 8) s += "[sec]"; else if (k == 9) s += "unknown.name=" + v; else if (k == 10 && r.chance(30)) s += v; else s += "# " + v;
        s += r.chance(10) ? "\r\n" : "\n";
    }
    S->in += cli::show(t) + mon::show(s);
    po::variables_map m; guard("config", [&] { std::istringstream is(s); po::parsed_options q = po::parse_config_file(is, d, unreg); put(opts(q.options)); guard("store", [&] { po::store(q, m); }); map_out(m); });
    guard("wconfig", [&] { std::wistringstream is(widen(s)); po::wparsed_options q = po::parse_config_file(is, d, unreg); put(opts(q.options)); po::variables_map n; guard("wstore", [&] { po::store(q, n); }); map_out(n); });
    static const vector<string> vars = {"VPM_ALPHA", "VPM_FOO", "VPM_", "VPMX", "vpm_foo", "OTHER", "VPM_FOO_BAR"};
    vector<string> ev; for (unsigned n = r.below(6); n--;) { string x = r.pick(vars); if (r.chance(90)) x += "=" + gen_value(r); ev.push_back(x); } S->in += mon::show(ev);
    vector<char*> blk; for (size_t i = 0; i < ev.size(); ++i) blk.push_back(&ev[i][0]); blk.push_back(0); char** old = environ; environ = &blk[0];
    guard("environment", [&] { put(opts(po::parse_environment(d, "VPM_").options)); put(opts(po::parse_environment(d, [](const string& n) { return n.size() > 4 ? n.substr(2) : string(); }).options)); });
    environ = old;
    for (const char* f : {"/", "/dev/null", "no/such"}) guard("file", [&] { put(opts(po::parse_config_file<char>(f, d, unreg).options)); put(opts(po::parse_config_file<wchar_t>(f, d, unreg).options)); });
}
static string text_of(Rng& r, unsigned words) {
    string s; for (unsigned n = r.below(words); n--;) { unsigned k = r.below(20); if (k < 14) s += string(1 + r.below(12), (char)('a' + n % 26)); else if (k == 14) s += string(20 + r.below(90), 'L'); else if (k == 15) s += "\xd1\x8f"; else s += "w"; unsigned e = r.below(20); s += e < 14 ? " " : e < 16 ? "  " : e < 18 ? "\n" : e == 18 ? "\t" : ""; } return s;
}
static void help(Rng& r) {
    unsigned len = r.chance(50) ? 80 : 5 + r.below(120), min = r.chance(50) ? len / 2 : r.below(len - 3); if (min + 2 > len) min = 1;
    vector<std::shared_ptr<po::options_description> > g; g.push_back(std::make_shared<po::options_description>("Top", len, min)); S->in += std::to_string(len) + "/" + std::to_string(min);
    for (unsigned i = r.below(3); i--;) { string cap = text_of(r, 4); g.push_back(std::make_shared<po::options_description>(cap, len, min)); }
    for (size_t k = 0; k < g.size(); ++k) { GenOpt o; o.wild = true; Table t = gen_table(r, o); S->in += cli::show(t);
        for (size_t i = 0; i < t.size(); ++i) { string text = text_of(r, 40); S->in += text; unsigned kind = r.below(7); string vn = r.chance(30) ? text_of(r, 3) : ""; string decl = t[i].decl();
            const po::value_semantic* v; switch (kind) { case 0: v = new po::untyped_value(true); break; case 1: { po::typed_value<int>* x = po::value<int>()->default_value((int)i); if (!vn.empty()) x->value_name(vn); v = x; break; } case 2: { po::typed_value<string>* x = po::value<string>()->implicit_value("imp"); v = x; break; } case 3: v = po::value<double>()->default_value(0.1 * (double)i); break; case 4: v = po::bool_switch(); break; case 5: { po::typed_value<string>* x = po::value<string>()->default_value("def ault")->implicit_value("i", "\xd1\x8f"); if (!vn.empty()) x->value_name(vn); v = x; break; } default: v = po::value<vector<int> >()->multitoken(); }
            guard("declare", [&] { g[k]->add_options()(decl.c_str(), v, text.c_str()); }); } }
    for (size_t k = g.size(); k-- > 1;) { size_t to = r.below((unsigned)k); g[to]->add(*g[k]); }
    guard("print", [&] { std::ostringstream os; os << *g[0]; put(os.str()); });
    guard("column", [&] { std::ostringstream os; g[0]->print(os, len < 45 ? len - 2 : 40); put(os.str() + std::to_string(g[0]->get_option_column_width())); });
}
template<class T> static string num(T v) { return std::to_string(v); }
static string num(char v) { return std::to_string((unsigned)(unsigned char)v); }   // plain characters are signed here and unsigned there
static void texts(Rng& r) {
    static const vector<string> bits = {"a", " ", "\"", "'", "\\", "\\\\", "\\n", "word", "\t", "%", "%option%", "%value%", "\xd1\x8f", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff", "\xc3", "="};
    string s; for (unsigned n = r.below(30); n--;) s += r.pick(bits); W w = widen(s); S->in += mon::show(s);
    guard("split", [&] { put(mon::show(po::split_unix(s))); }); guard("wsplit", [&] { vector<W> v = po::split_unix(w); for (size_t i = 0; i < v.size(); ++i) put(flat(v[i])); });
    guard("from_utf8", [&] { put(flat(boost::from_utf8(s))); }); guard("to_utf8", [&] { put(flat(boost::to_utf8(w))); }); guard("local", [&] { put(flat(boost::from_local_8_bit(s))); }); guard("tolocal", [&] { put(flat(boost::to_local_8_bit(w))); });
    struct E : po::error_with_option_name { E(const string& t, const string& n, const string& o, int p) : po::error_with_option_name(t, n, o, p) {} };
    guard("message", [&] { E e("about %canonical_option% and '%value%' in %original_token% %other%", s, "--" + s, st::allow_long); e.set_substitute("value", "%option%" + s); e.set_substitute_default("other", "%other%", s); E f(e); put(f.what()); throw f; });
    guard("value", [&] { throw po::validation_error(po::validation_error::invalid_option, s, s, st::allow_long); }); guard("wvalue", [&] { throw po::invalid_option_value(w); }); guard("bool", [&] { throw po::invalid_bool_value(s); }); guard("required", [&] { throw po::required_option(s); });
    static const vector<string> vals = {"1", "-1", "0x10", "1e3", "1.5", " 1", "1 ", "", "true", "YES", "oFf", "99999999999", "-0", "+7", "nan", "inf", "\xff", "1,2", "false", "on", "off", "yes", "no", "0", "tRue", "2147483647", "2147483648", "-2147483648", "-2147483649", "65535", "65536", "32768", "-32769", "255", "256", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "1e38", "4e38", "1e-46", "1e309", "1e-400", ".5", "5.", "1e", "010", "1.0000000000000001", "0.1"};
    string v; vector<string> one; W wv; vector<W> wone;
#define TRY(T) guard(#T, [&] { std::unique_ptr<const po::value_semantic> x(po::value<T >()); boost::any a; x->parse(a, one, utf8); put(a.empty() ? "-" : "ok " + num(boost::any_cast<T >(a))); });
#define WTRY(T) guard("w" #T, [&] { std::unique_ptr<const po::value_semantic> x(po::wvalue<T >()); boost::any a; x->parse(a, po::to_internal(wone), true); put(a.empty() ? "-" : "ok " + num(boost::any_cast<T >(a))); });
    for (unsigned rep = 0; rep < 4; ++rep) {
    v = r.pick(vals); if (r.chance(20)) v += r.pick(bits);
    for (unsigned m = r.chance(50) ? 1 + r.below(2) : 0; m-- && !v.empty();) { size_t at = r.below((unsigned)v.size()); unsigned how = r.below(6); if (how == 0) v[at] = (char)(v[at] ^ 0x80); else if (how == 1) v[at] = (char)(v[at] ^ 0x20); else if (how == 2) v[at] = (char)(v[at] ^ (1 << r.below(8))); else if (how == 3) v.insert(v.begin() + (long)at, v[at]); else if (how == 4) v.erase(v.begin() + (long)at); else v[at] = (char)r.below(256); }
    const bool utf8 = r.chance(30); S->in += mon::show(v) + (utf8 ? "u" : ""); one.assign(1, v); wone.assign(1, widen(v)); put(mon::show(v));
    TRY(int) TRY(unsigned) TRY(short) TRY(long long) TRY(double) TRY(float) TRY(bool) TRY(char) TRY(unsigned char)
    WTRY(int) WTRY(double) WTRY(bool)
    }
}
static void random_case(Ctx& c) {
    static FILE* f = 0; static const char* show = getenv("VPM_SHOW");
    if (!f) { const char* e = getenv("VPM_TRANSCRIPT"); string n = e ? string(e) + "." + std::to_string(getpid()) : "/dev/null"; f = fopen(n.c_str(), "ab"); if (!f) abort(); }
    Script s; S = &s; Rng r(c.r.next()); dirty_stack((unsigned char)(mem::mode() * 83 + 1));
    unsigned k = r.below(12); const char* name;
    if (k < 4) { name = "command-line"; command_line(r); } else if (k < 6) { name = "history"; histories(r); } else if (k < 8) { name = "config"; config(r); } else if (k < 10) { name = "help"; help(r); } else { name = "texts"; texts(r); }
    c.eval(); c.count("transcripts"); c.count(name); c.count("transcript-bytes", s.out.size()); c.nontrivial(s.in);
    mon::u64 rec[3] = {c.idx, mon::hash_str(s.in), mon::hash_str(s.out)}; if (fwrite(rec, 8, 3, f) != 3) abort(); if (c.idx % 64 < 8) fflush(f);
    if (show) { FILE* o = fopen(show, "wb"); fwrite(s.out.data(), 1, s.out.size(), o); fclose(o); o = fopen((string(show) + ".in").c_str(), "wb"); string x = string(name) + ": " + s.in; fwrite(x.data(), 1, x.size(), o); fclose(o); }
    if (c.want_sample()) c.sample(string(name) + " " + s.in.substr(0, 200) + " -> " + s.out.substr(0, 200));
    fflush(f);
}
static vector<mon::Fixed> fixed() { return vector<mon::Fixed>(); }
int main(int argc, char** argv) {
#if !defined(__SANITIZE_ADDRESS__)
    struct rlimit l; l.rlim_cur = l.rlim_max = (rlim_t)(mem::mode() == 3 ? 9 : 2) << 30; setrlimit(RLIMIT_AS, &l);
#endif
    return mon::run(argc, argv, fixed(), random_case);
}
