// C32: the work, the memory and the stack a call needs, counted (branches taken by library code, bytes moved
// by the C library, bytes held, depth reached) on inputs that differ only in size.
#include <algorithm>
#include <cerrno>
#include <cwchar>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <cmath>
#include <sstream>
#include "mon.hpp"
#include <boost/program_options.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <boost/any.hpp>
#include "utf8.hpp"
#include "winmain.hpp"
namespace po = boost::program_options; using namespace mon; typedef std::wstring W; using mon::Ctx;
extern char** environ;
#define RAW __attribute__((no_sanitize_coverage))
// ---- meters
static bool on = false; static u64 steps = 0, moved = 0; static size_t live = 0, peak = 0, lowest = ~(size_t)0;
extern "C" RAW void __sanitizer_cov_trace_pc() { if (!on) return; ++steps; size_t a = (size_t)__builtin_frame_address(0); if (a < lowest) lowest = a; }
RAW static void* take(size_t n) { size_t* p = (size_t*)malloc(n + 16); if (!p) throw std::bad_alloc(); p[0] = n; live += n; if (live > peak) peak = live; if (on) steps += 20; return p + 2; }
RAW static void give(void* v) { if (!v) return; size_t* p = (size_t*)v - 2; live -= p[0]; free(p); if (on) steps += 10; }
RAW void* operator new(size_t n) { return take(n); } RAW void* operator new[](size_t n) { return take(n); }
RAW void operator delete(void* p) noexcept { give(p); } RAW void operator delete[](void* p) noexcept { give(p); } RAW void operator delete(void* p, size_t) noexcept { give(p); } RAW void operator delete[](void* p, size_t) noexcept { give(p); }
// the C library's loops, as the C++ library calls them
#define REAL(name, type) static type real = (type)dlsym(RTLD_NEXT, name)
extern "C" {
RAW void* memcpy(void* d, const void* s, size_t n) { if (on) moved += n; char* a = (char*)d; const char* b = (const char*)s; asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); return d; }
RAW void* memmove(void* d, const void* s, size_t n) { if (on) moved += n; char* a = (char*)d; const char* b = (const char*)s; if (a <= b || a >= b + n) { asm volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); } else { a += n - 1; b += n - 1; asm volatile("std\n\trep movsb\n\tcld" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); } return d; }
RAW void* memset(void* d, int c, size_t n) { if (on) moved += n; char* a = (char*)d; asm volatile("rep stosb" : "+D"(a), "+c"(n) : "a"(c) : "memory"); return d; }
void* my_memchr(const void*, int, size_t) __asm__("memchr"); RAW void* my_memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; size_t i = 0; for (; i < n; ++i) { asm volatile("" ::: "memory"); if (p[i] == (unsigned char)c) break; } if (on) moved += i; return i < n ? (void*)(p + i) : 0; }
RAW int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = (const unsigned char*)x, *b = (const unsigned char*)y; size_t i = 0; for (; i < n; ++i) { asm volatile("" ::: "memory"); if (a[i] != b[i]) break; } if (on) moved += i; return i < n ? (int)a[i] - (int)b[i] : 0; }
RAW size_t strlen(const char* s) { size_t n = 0; while (s[n]) { asm volatile("" ::: "memory"); ++n; } if (on) moved += n; return n; }
RAW size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) { asm volatile("" ::: "memory"); ++n; } if (on) moved += n * 4; return n; }
wchar_t* my_wmemchr(const wchar_t*, wchar_t, size_t) __asm__("wmemchr"); RAW wchar_t* my_wmemchr(const wchar_t* s, wchar_t c, size_t n) { size_t i = 0; for (; i < n; ++i) { asm volatile("" ::: "memory"); if (s[i] == c) break; } if (on) moved += 4 * i; return i < n ? (wchar_t*)(s + i) : 0; }
RAW int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { size_t i = 0; for (; i < n; ++i) { asm volatile("" ::: "memory"); if (a[i] != b[i]) break; } if (on) moved += 4 * i; return i < n ? (a[i] < b[i] ? -1 : 1) : 0; }
RAW wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { return (wchar_t*)memcpy(d, s, n * 4); }
RAW wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { return (wchar_t*)memmove(d, s, n * 4); }
RAW wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { if (on) moved += 4 * n; for (size_t i = 0; i < n; ++i) { asm volatile("" ::: "memory"); d[i] = c; } return d; }
}
struct Cost { double work; size_t held, deep, left; bool error; };
// runs f with the meters on; whatever f returns or throws is gone before the memory left over is read
static Cost meter(const std::function<void()>& f) {
    Cost c; c.error = false; const size_t before = live; peak = live; steps = moved = 0; size_t here = (size_t)__builtin_frame_address(0); lowest = here;
    on = true; try { f(); } catch (const std::exception& e) { c.error = true; (void)strlen(e.what()); } on = false;
    c.work = (double)steps + (double)moved / 8; c.held = peak - before; c.deep = here - lowest; c.left = live > before ? live - before : 0; return c;
}
typedef std::function<std::function<void()>(size_t)> Family;     // size -> prepared call
struct Axis { const char* name; double e; bool flat; unsigned n0, k; std::function<Family(Rng&, string&)> make; };

// ---- material
static string piece(Rng& r) { static const vector<string> p = {"a", "b", "B", "x", " ", "  ", "\t", "\n", "\"", "'", "\\", "\\\\", "-", "--", "/", "=", ":", ".", "*", ",", "#", "%", "%%", "%x%", "%option%", "[", "]", "a=b", "opt1", "--opt1", "-a", "1", "0", "\xd0\xb4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "~", "long-word", "\r\n", "0.", "word "}; return r.pick(p); }
struct Text { string pre, unit, post; string operator()(size_t n) const { string s = pre; s.reserve(pre.size() + post.size() + n * unit.size()); for (size_t i = 0; i < n; ++i) s += unit; return s + post; } string show() const { return mon::show(pre) + " + n * " + mon::show(unit) + " + " + mon::show(post); } };
static Text text(Rng& r, const char* drop = "") { Text t; if (r.chance(35)) { static const vector<string> one = {" ", "\t", "\n", "\\", "\"", "'", "-", "=", ".", "*", ",", "#", "%", "%%", "%a%", "[", "]", "a", "\r", "0", "/", "/a", "a ", " a", "a\n", "\xd0\xb4"}; do t.unit = r.pick(one); while (strchr(drop, t.unit[0])); static const vector<string> ends = {"", "", "a", "a=b", "opt1=b", "text", "\"", "."}; t.pre = r.pick(ends); t.post = r.pick(ends); string o; for (char c : t.pre) if (!strchr(drop, c)) o += c; t.pre = o; return t; }      // one thing over and over, from the start or to the end
    auto some = [&](unsigned lo, unsigned hi) { string s; for (unsigned k = lo + r.below(hi - lo + 1); k--;) s += piece(r); string o; for (char c : s) if (!strchr(drop, c)) o += c; return o; }; t.pre = some(0, 2); do t.unit = some(1, 3); while (t.unit.empty()); t.post = some(0, 2); return t; }
static void declare(po::options_description& d) {
    d.add_options()("opt0,a", "")("opt1,b", po::value<string>())("opt2,c", po::value<vector<string> >()->composing()->multitoken())("opt3,d", po::value<string>()->implicit_value("x"))("opt4,e", po::value<int>())("flag,f", po::bool_switch())("num,n", po::value<int>())("real,r", po::value<double>())("yes,y", po::value<bool>())("long.name", po::value<string>())("pat*", po::value<string>())("a,q", po::value<string>()->default_value("v"));
}
static int style(Rng& r) { namespace s = po::command_line_style; static const vector<int> v = {0, s::unix_style, s::unix_style | s::allow_long_disguise, s::unix_style | s::case_insensitive, s::allow_long | s::allow_short | s::allow_slash_for_short | s::allow_dash_for_short | s::long_allow_adjacent | s::long_allow_next | s::short_allow_adjacent | s::short_allow_next | s::allow_guessing, s::allow_short | s::allow_dash_for_short | s::allow_sticky | s::short_allow_adjacent | s::short_allow_next, s::allow_long_disguise | s::long_allow_adjacent | s::long_allow_next}; return r.pick(v); }
static po::command_line_parser& set(po::command_line_parser& p, const po::options_description& d, int st, bool unreg, const po::positional_options_description* q) { p.options(d).style(st); if (unreg) p.allow_unregistered(); if (q) p.positional(*q); return p; }
typedef std::shared_ptr<po::options_description> D; static D table() { D d(new po::options_description("All")); declare(*d); return d; }
static D many(size_t n, Rng r) { D d(new po::options_description("All")); for (size_t i = 0; i < n; ++i) { string s = "name" + std::to_string(i); switch (r.below(4)) { case 0: d->add_options()(s.c_str(), "text"); break; case 1: d->add_options()(s.c_str(), po::value<string>(), "text"); break; case 2: d->add_options()(s.c_str(), po::value<int>()->default_value(3), "text"); break; default: d->add_options()(s.c_str(), po::value<vector<string> >()->composing()); } } return d; }

static vector<Axis> axes() {
    vector<Axis> v;
    // texts: the length of one of them grows
#define COUNT_AXIS(NAME, E, N, ...) v.push_back(Axis{NAME, E, true, N, 8, [](Rng& r, string& d) -> Family { (void)r; (void)d; __VA_ARGS__ }});
#define TEXT_AXIS(NAME, DROP, ...) v.push_back(Axis{NAME, 1, true, 200, 16, [](Rng& r, string& d) -> Family { Text t = text(r, DROP); d = t.show(); (void)r; __VA_ARGS__ }});
    TEXT_AXIS("split-unix", "", return [=](size_t n) { string s = t(n); return [s] { po::split_unix(s); }; };)
    TEXT_AXIS("split-unix-wide", "", return [=](size_t n) { W s = boost::from_utf8(u8::clean(t(n))); return [s] { po::split_unix(s); }; };)
    TEXT_AXIS("split-windows", "", return [=](size_t n) { string s = t(n); return [s] { po::split_winmain(s); }; };)
    TEXT_AXIS("convert", "", int k = r.below(2); return [=](size_t n) { string s = t(n); W w = boost::from_utf8(u8::clean(s)); return std::function<void()>([=] { if (k) boost::from_utf8(s); else boost::to_utf8(w); }); };)
    COUNT_AXIS("convert-local", 1, 400, Text t = text(r); d = t.show(); bool k = r.chance(50); return [=](size_t n) { string s = t(n); W w = boost::from_utf8(u8::clean(s)); return std::function<void()>([=] { if (k) boost::from_local_8_bit(s); else boost::to_local_8_bit(w); }); };)
    TEXT_AXIS("argument", "", int st = style(r); bool unreg = r.chance(50); bool pos = r.chance(50); unsigned k = r.below(9); if (k == 8) { static const vector<string> u = {"a", "f", "af", "n", "1", "A", "?", "q", "e1"}; t.pre = r.pick(u); t.unit = r.pick(u); t.post = r.pick(u); d = t.show(); } d += " form " + std::to_string(k) + " style " + std::to_string(st) + (unreg ? " unregistered" : "") + (pos ? " positional" : "");
        return [=](size_t n) { D o = table(); string x = t(n); vector<string> a; switch (k) { case 0: a.push_back("--opt1=" + x); break; case 1: a.push_back("--" + x); break; case 2: a.push_back(x); break; case 3: a.push_back("--opt1"); a.push_back(x); break; case 4: a.push_back("--opt4=" + x); break; case 5: a.push_back("-b" + x); break; case 6: a.push_back("--"); a.push_back(x); break; case 8: a.push_back("-" + x); break; default: a.push_back("--pat" + x + "=v"); } a.push_back("-a");
            std::shared_ptr<po::positional_options_description> q(new po::positional_options_description); q->add("opt2", -1); return [=] { po::command_line_parser p(a); po::parsed_options r = set(p, *o, st, unreg, pos ? q.get() : 0).run(); po::variables_map m; po::store(r, m); po::notify(m); po::collect_unrecognized(r.options, po::include_positional); }; };)
    TEXT_AXIS("configuration-text", "", bool unreg = r.chance(50); bool nl = r.chance(50); Text u = t; if (nl) u.unit += "\n"; unsigned k = r.below(6); d += " form " + std::to_string(k) + (nl ? " lines" : "");
        return [=](size_t n) { D o = table(); string x = u(n); string s = k == 0 ? x : k == 1 ? "opt1=" + x : k == 2 ? "[" + x + "]\nname=v\n" : k == 3 ? "opt4=" + x + "\n" : k == 4 ? x + "=v" : "opt1=1 #" + x; return [=] { std::istringstream is(s); po::parsed_options r = po::parse_config_file(is, *o, unreg); po::variables_map m; po::store(r, m); }; };)
    TEXT_AXIS("environment-text", "", bool val = r.chance(50); return [=](size_t n) { D o = table(); std::shared_ptr<string> e(new string(string("VP_") + (val ? "OPT1=" : "") + t(n))); *e = e->c_str(); return [=] { char* v[] = {&(*e)[0], 0}; char** old = environ; environ = v; struct B { char** o; ~B() { environ = o; } } b{old}; po::variables_map m; po::store(po::parse_environment(*o, "VP_"), m); }; };)
    TEXT_AXIS("described-text", "", unsigned k = r.below(5); unsigned len = 40 + r.below(90); d += " form " + std::to_string(k) + " width " + std::to_string(len);
        return [=](size_t n) { string x = t(n); if (k) { string o; for (char c : x) if (k > 1 || c != '\t') o += c; x = o; } return [=] { po::options_description o(k == 4 ? x : string("Cap"), len, len / 2); if (k < 2) o.add_options()("name,n", po::value<string>(), x.c_str()); else if (k == 2) o.add_options()("name,n", po::value<string>()->value_name(x), "about"); else if (k == 3) o.add_options()("name,n", po::value<string>()->default_value("d", x)->implicit_value("i", x), "about"); o.add_options()("other", "about it"); std::ostringstream os; os << o; }; };)
    TEXT_AXIS("declared-names", "", return [=](size_t n) { string x = t(n); return [=] { po::options_description o; o.add_options()(x.c_str(), po::value<string>(), "about"); std::ostringstream os; os << o; o.find_nothrow("a", true); }; };)
    TEXT_AXIS("looked-up-name", "", bool ci = r.chance(50); return [=](size_t n) { D o = table(); string x = t(n); return [=] { o->find_nothrow(x, true, ci, ci); o->find(x, true, ci, ci); }; };)
    TEXT_AXIS("value-text", "", unsigned k = r.below(6); d += " type " + std::to_string(k); return [=](size_t n) { string x = t(n); vector<string> one(1, x); return [=] { boost::any a; std::unique_ptr<const po::value_semantic> s; switch (k) { case 0: s.reset(po::value<int>()); break; case 1: s.reset(po::value<double>()); break; case 2: s.reset(po::value<bool>()); break; case 3: s.reset(po::value<vector<int> >()); break; case 4: s.reset(po::value<string>()); break; default: s.reset(po::value<char>()); } s->parse(a, one, false); }; };)
    TEXT_AXIS("error-text", "", unsigned k = r.below(6); d += " kind " + std::to_string(k); return [=](size_t n) { string x = t(n); return [=] { switch (k) { case 0: throw po::required_option(x); case 1: throw po::unknown_option(x); case 2: { po::invalid_option_value e(x); e.set_option_name(x); e.add_context("opt", x, 1); throw e; } case 3: throw po::multiple_occurrences(); case 4: { po::validation_error e(po::validation_error::invalid_option_value, x, x, 1); throw e; } default: { vector<string> alts(2, x); alts.push_back("b"); po::ambiguous_option e(alts); e.set_option_name(x); throw e; } } }; };)
    // numbers of things: 1 = proportional, 2 = at most the square
    COUNT_AXIS("arguments", 2, 40, int st = style(r); bool unreg = r.chance(50); bool pos = r.chance(60); vector<string> unit; static const vector<string> toks = {"--opt1=v", "--opt1", "v", "-a", "-afa", "-bv", "--opt2=1", "--opt2", "--", "--unknown", "--unknown=v", "-z", "--pat1=x", "--opt0", "--flag", "/a", "-opt1", "--op", "-d", "--opt3", "w x", ""}; for (unsigned k = 1 + r.below(4); k--;) unit.push_back(r.pick(toks)); d = mon::show(unit) + " style " + std::to_string(st) + (unreg ? " unregistered" : "") + (pos ? " positional" : "");
        return [=](size_t n) { D o = table(); vector<string> a; for (size_t i = 0; i < n; ++i) a.insert(a.end(), unit.begin(), unit.end()); std::shared_ptr<po::positional_options_description> q(new po::positional_options_description); q->add("opt4", 2); q->add("opt2", -1); return [=] { po::command_line_parser p(a); po::parsed_options r = set(p, *o, st, unreg, pos ? q.get() : 0).run(); po::collect_unrecognized(r.options, po::include_positional); po::variables_map m; po::store(r, m); po::notify(m); }; };)
    COUNT_AXIS("composed-values", 2, 40, bool multi = r.chance(50); return [=](size_t n) { D o = table(); vector<string> a; if (multi) a.push_back("--opt2"); for (size_t i = 0; i < n; ++i) a.push_back(multi ? "v" : "--opt2=v"); return [=] { po::command_line_parser p(a); p.options(*o); po::parsed_options r = p.run(); po::variables_map m; po::store(r, m); }; };)
    COUNT_AXIS("stored-values", 1, 200, return [=](size_t n) { D o = table(); std::shared_ptr<po::parsed_options> x(new po::parsed_options(o.get())); for (size_t i = 0; i < n; ++i) x->options.push_back(po::option("opt2", vector<string>(1, "v"))); return [=] { (void)o; po::variables_map m; po::store(*x, m); po::notify(m); }; };)
    COUNT_AXIS("options-and-arguments", 2, 20, u64 s = r.next(); bool full = r.chance(50); return [=](size_t n) { D o = many(n, Rng(s)); vector<string> a; for (auto& x : o->options()) { string nm = x->long_name(); if (!full) nm = nm; a.push_back("--" + nm); if (x->semantic()->max_tokens()) a.back() += "=7"; } return [=] { po::command_line_parser p(a); p.options(*o); po::parsed_options r = p.run(); po::variables_map m; po::store(r, m); po::notify(m); }; };)
    COUNT_AXIS("options-one-argument", 1, 100, u64 s = r.next(); string tok = r.chance(50) ? "--name1" : r.chance(50) ? "--unknown" : "--nam"; return [=](size_t n) { D o = many(n, Rng(s)); return [=] { po::command_line_parser p(vector<string>(1, tok)); p.options(*o).allow_unregistered(); po::parsed_options r = p.run(); }; };)
    COUNT_AXIS("declaring", 1, 100, u64 s = r.next(); bool group = r.chance(50); return [=](size_t n) { return [=] { if (group) { po::options_description all; for (size_t i = 0; i < n; ++i) { po::options_description g("g"); g.add_options()(("n" + std::to_string(i)).c_str(), "x"); all.add(g); } } else many(n, Rng(s)); }; };)
    COUNT_AXIS("help", 1, 60, u64 s = r.next(); bool group = r.chance(50); return [=](size_t n) { D o; if (group) { o.reset(new po::options_description); for (size_t i = 0; i < n; ++i) { po::options_description g("g"); g.add_options()(("n" + std::to_string(i)).c_str(), "x"); o->add(g); } } else o = many(n, Rng(s)); return [=] { std::ostringstream os; os << *o; }; };)
    COUNT_AXIS("store-defaults", 2, 60, u64 s = r.next(); return [=](size_t n) { D o = many(n, Rng(s)); return [=] { po::parsed_options x(o.get()); po::variables_map m; po::store(x, m); po::notify(m); po::store(x, m); }; };)
    COUNT_AXIS("configuration-lines", 1, 100, bool unreg = r.chance(50); string line; static const vector<string> ls = {"opt2=v", "opt2 = a b", "# c", "", "[long]", "[x.y]", "unknown=1", "pat1=2", "  opt2  =  3  # c", "flag=on"}; string unit; for (unsigned k = 1 + r.below(3); k--;) unit += r.pick(ls) + "\n"; d = mon::show(unit); return [=](size_t n) { D o = table(); string s; for (size_t i = 0; i < n; ++i) s += unit; return [=] { std::istringstream is(s); po::parsed_options r = po::parse_config_file(is, *o, unreg); }; };)
    COUNT_AXIS("configuration-options", 1, 60, u64 s = r.next(); bool one = r.chance(50); return [=](size_t n) { D o = many(n, Rng(s)); string t; for (auto& x : o->options()) if (!one || t.empty()) t += x->long_name() + "=3\n"; return [=] { std::istringstream is(t); po::parsed_options r = po::parse_config_file(is, *o); }; };)
    COUNT_AXIS("configuration-patterns", 2, 30, return [=](size_t n) { D o(new po::options_description); string t; for (size_t i = 0; i < n; ++i) { o->add_options()(("p" + std::to_string(i) + ".*").c_str(), po::value<string>()); t += "p" + std::to_string(i) + ".x=1\n"; } return [=] { std::istringstream is(t); po::parsed_options r = po::parse_config_file(is, *o); po::variables_map m; po::store(r, m); }; };)
    COUNT_AXIS("environment-variables", 1, 60, bool known = r.chance(50); return [=](size_t n) { D o = table(); std::shared_ptr<vector<string> > e(new vector<string>); for (size_t i = 0; i < n; ++i) e->push_back(known ? "VP_FLAG=1" : "OTHER" + std::to_string(i) + "=x"); std::shared_ptr<vector<char*> > p(new vector<char*>); for (auto& s : *e) p->push_back(&s[0]); p->push_back(0); return [=] { (void)e; char** old = environ; environ = p->data(); struct B { char** o; ~B() { environ = o; } } b{old}; po::parse_environment(*o, "VP_"); }; };)
    COUNT_AXIS("positional-names", 2, 40, return [=](size_t n) { vector<string> a; D o(new po::options_description); std::shared_ptr<po::positional_options_description> q(new po::positional_options_description); for (size_t i = 0; i < n; ++i) { string s = "name" + std::to_string(i); o->add_options()(s.c_str(), po::value<string>()); q->add(s.c_str(), 1); a.push_back("v"); } return [=] { po::command_line_parser p(a); p.options(*o).positional(*q); po::parsed_options r = p.run(); po::variables_map m; po::store(r, m); }; };)
    COUNT_AXIS("huge-positional-count", 1, 1000, return [=](size_t n) { D o = table(); std::shared_ptr<po::positional_options_description> q(new po::positional_options_description); q->add("opt2", (int)n); return [=] { po::command_line_parser p(vector<string>(3, "v")); p.options(*o).positional(*q); p.run(); }; };)
    COUNT_AXIS("chained-maps (nested)", 1, 60, return [=](size_t n) { D o = table(); std::shared_ptr<vector<po::variables_map> > ms(new vector<po::variables_map>(n)); for (size_t i = 1; i < n; ++i) (*ms)[i].next(&(*ms)[i - 1]); po::parsed_options x(o.get()); po::store(x, (*ms)[0]); return [=] { (*ms)[n - 1]["a"]; (*ms)[n - 1]["none"]; }; };)
    COUNT_AXIS("alternatives", 1, 60, bool shared = r.chance(50); return [=](size_t n) { D o(new po::options_description); for (size_t i = 0; i < n; ++i) o->add_options()(("common" + std::to_string(i)).c_str(), po::value<string>()); vector<string> a(1, shared ? "--common" : "--common1"); return [=] { po::command_line_parser p(a); p.options(*o).run(); }; };)
    COUNT_AXIS("aliases", 2, 40, return [=](size_t n) { D o(new po::options_description); string s = "name"; for (size_t i = 0; i < n; ++i) s += ",alias" + std::to_string(i); o->add_options()((s + ",x").c_str(), po::value<vector<string> >()->composing()); vector<string> a; for (size_t i = 0; i < n; ++i) a.push_back("--alias" + std::to_string(i) + "=v"); return [=] { po::command_line_parser p(a); p.options(*o); po::parsed_options r = p.run(); po::variables_map m; po::store(r, m); std::ostringstream os; os << *o; }; };)
    COUNT_AXIS("repeated-stores", 2, 40, return [=](size_t n) { D o = table(); vector<string> a(1, "--opt2=v"); return [=] { po::variables_map m; for (size_t i = 0; i < n; ++i) { po::command_line_parser p(a); p.options(*o); po::store(p.run(), m); po::notify(m); } }; };)
    COUNT_AXIS("repeated-messages", 1, 200, return [=](size_t n) { return [=] { po::invalid_option_value e("value"); e.set_option_name("--name"); for (size_t i = 0; i < n; ++i) { e.what(); po::invalid_option_value f(e); f.what(); } }; };)
    COUNT_AXIS("elements", 1, 100, bool bad = r.chance(50); return [=](size_t n) { vector<string> x(n, "12"); if (bad) x.back() = "bad"; return [=] { std::unique_ptr<const po::value_semantic> s(po::value<vector<int> >()); boost::any a; s->parse(a, x, false); }; };)
    COUNT_AXIS("wide-arguments", 2, 40, bool u = r.chance(50); return [=](size_t n) { D o = table(); vector<W> a; for (size_t i = 0; i < n; ++i) { a.push_back(u ? L"--other=v" : L"free"); a.push_back(L"--opt2=v"); a.push_back(L"w"); } return [=] { po::wcommand_line_parser p(a); p.options(*o).allow_unregistered(); po::wparsed_options r = p.run(); po::collect_unrecognized(r.options, po::include_positional); po::variables_map m; po::store(r, m); }; };)
    COUNT_AXIS("user-parsers", 2, 30, bool tok = r.chance(50); return [=](size_t n) { D o = table(); vector<string> a(n, "opt2=v"); return [=] { po::command_line_parser p(a); p.options(*o); if (tok) p.extra_parser([](const string& s) { return s[0] == 'o' ? std::make_pair(string("opt2"), s.substr(5)) : std::pair<string, string>(); }); else p.extra_style_parser([](vector<string>& v) { vector<po::option> r; if (!v.empty() && v[0][0] == 'o') { r.push_back(po::option("opt2", vector<string>(1, "v"))); v.erase(v.begin()); } return r; }); po::parsed_options r = p.run(); po::variables_map m; po::store(r, m); }; };)
    COUNT_AXIS("configuration-file", 1, 100, bool wide = r.chance(50); return [=](size_t n) { D o = table(); const string fn = "c32-config-" + std::to_string(getpid()); { std::ofstream f(fn.c_str()); for (size_t i = 0; i < n; ++i) f << (i % 4 ? "opt2 = value\n" : "[]\n\n# c\n"); } return [=] { struct U { string n; ~U() { unlink(n.c_str()); } } u{fn}; if (wide) po::parse_config_file<wchar_t>(fn.c_str(), *o, true); else po::parse_config_file<char>(fn.c_str(), *o, true); }; };)
    COUNT_AXIS("copying", 1, 60, return [=](size_t n) { std::shared_ptr<po::variables_map> m(new po::variables_map); D o(new po::options_description); for (size_t i = 0; i < n; ++i) o->add_options()(("n" + std::to_string(i)).c_str(), po::value<string>()->default_value("x")); po::parsed_options x(o.get()); po::store(x, *m); return [=] { po::variables_map c(*m); c.clear(); }; };)
    COUNT_AXIS("groups (nested)", 2, 20, return [=](size_t n) { D o(new po::options_description("in")); o->add_options()("name", "x"); for (size_t i = 0; i < n; ++i) { D p(new po::options_description("g")); p->add(*o); o = p; } return [=] { std::ostringstream os; os << *o; }; };)
    return v;
}
static bool report = false;
static void one(Ctx& c, const Axis& a) {
    string d; Family f = a.make(c.r, d); c.cur = string(a.name) + " " + d; const size_t n = a.n0 + c.r.below(a.n0 / 4), m = n * a.k;
    { std::function<void()> warm = f(n); meter(warm); }
    Cost x, y; { std::function<void()> g = f(n); x = meter(g); } { std::function<void()> g = f(m); y = meter(g); }
    const double k = a.k, lim = std::pow(k, a.e) * 1.7;
    const double rw = y.work / (x.work + 500), rm = (double)y.held / ((double)x.held + 500);
    if (report) fprintf(stderr, "%.2f %.2f %-24s e=%.0f work %9.0f -> %11.0f (exp %.2f) held %7zu -> %8zu (exp %.2f) deep %zu -> %zu left %zu %zu %s%s %s\n", rw / lim, rm / (k * 3), a.name, a.e, x.work, y.work, std::log(y.work / x.work) / std::log(k), x.held, y.held, std::log((double)y.held / ((double)x.held + 1)) / std::log(k), x.deep, y.deep, x.left, y.left, x.error ? "E" : "", y.error ? "E" : "", d.c_str());
    if (rw > lim) c.fail("work", mon::show(string(a.name)) + " of size " + std::to_string(n) + " takes " + std::to_string((u64)x.work) + " steps, of size " + std::to_string(m) + " " + std::to_string((u64)y.work));
    if (rm > k * 3) c.fail("memory", string(a.name) + " of size " + std::to_string(n) + " holds " + std::to_string(x.held) + " bytes, of size " + std::to_string(m) + " " + std::to_string(y.held));
    if (!strstr(a.name, "nested") && y.deep > x.deep + 4000) c.fail("stack", string(a.name) + " of size " + std::to_string(n) + " goes " + std::to_string(x.deep) + " bytes deep, of size " + std::to_string(m) + " " + std::to_string(y.deep));
    if (y.left > x.left + 4000) c.fail("left-over", string(a.name) + " leaves " + std::to_string(x.left) + " bytes behind at size " + std::to_string(n) + ", " + std::to_string(y.left) + " at size " + std::to_string(m));
    c.eval(); c.count(a.name); c.count(x.error ? "ended-in-error" : "ended-well"); c.count("steps-counted", (u64)(x.work + y.work)); c.nontrivial(c.cur); if (c.want_sample()) c.sample(c.cur + ": " + std::to_string((u64)x.work) + " steps at " + std::to_string(n) + ", " + std::to_string((u64)y.work) + " at " + std::to_string(m));
}
static void random_case(Ctx& c) { static const vector<Axis> as = axes(); report = getenv("C32_REPORT") != 0; one(c, as[c.r.below(c.r.chance(50) ? 13 : (unsigned)as.size())]); }
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"the meters", [](Ctx& c) {
        // they see what they have to: work of instrumented code and of the C library, memory, depth
        c.cur = "self-test"; c.eval(); Cost a = meter([] { string s; for (int i = 0; i < 1000; ++i) s = "x" + s; }), b = meter([] { string s; for (int i = 0; i < 16000; ++i) s = "x" + s; }); if (b.work < a.work * 40) c.fail("meters-blind", "copying " + std::to_string(a.work) + " " + std::to_string(b.work));
        a = meter([] { vector<char> v(1000); }); b = meter([] { vector<char> v(100000); }); if (b.held < 50 * a.held || a.left || b.left) c.fail("meters-blind", "memory"); std::function<int(int)> deep = [&](int n) -> int { return n ? 1 + deep(n - 1) : 0; }; volatile int q = 0; a = meter([&] { q = deep(10); }); b = meter([&] { q = deep(1000); }); if (b.deep < a.deep + 10000) c.fail("meters-blind", "stack"); (void)q; c.count("meters-tested"); c.nontrivial("self-test");
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
