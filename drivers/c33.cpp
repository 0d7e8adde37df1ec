// C33: what an option's declaration says, said in any order, repeated, with any of the equivalent functions,
// is what the option is: asked directly, in help, and through every way of parsing.
#include "hist.hpp"
#include "utf8.hpp"
#include <boost/optional.hpp>
#include <boost/lexical_cast.hpp>
#include <iostream>
#include <limits>
#include <memory>
using namespace cli; using mon::Ctx; typedef std::wstring W;
static Ctx* C;
enum Kind { DEF, DEFT, IMP, IMPT, NAME, NOTE, COMP, MANY, ZERO, REQ, N_KIND };
static const char* kind_name[] = {"default_value", "default_value/text", "implicit_value", "implicit_value/text", "value_name", "notifier", "composing", "multitoken", "zero_tokens", "required"};
template<class T> struct Setting { Kind k; T v; string text; int id; };
// values of every type and how they are shown
template<class T> struct Of;
template<> struct Of<int> { static int make(Rng& r) { static const vector<int> v = {0, 1, -1, 42, 2147483647, -2147483647 - 1, 7}; return r.pick(v); } static const char* name() { return "int"; } };
template<> struct Of<double> { static double make(Rng& r) { static const vector<double> v = {0, 1.5, -2.25, 1e10, 0.1, 1234567.0, 1e-9}; return r.pick(v); } static const char* name() { return "double"; } };
template<> struct Of<string> { static string make(Rng& r) { static const vector<string> v = {"", "a", "two words", "=", "%", "-x", "\t", "caf\xc3\xa9", "no"}; return r.pick(v); } static const char* name() { return "string"; } };
template<> struct Of<bool> { static bool make(Rng& r) { return r.chance(50); } static const char* name() { return "bool"; } };
template<> struct Of<char> { static char make(Rng& r) { return "ax-1"[r.below(4)]; } static const char* name() { return "char"; } };
template<> struct Of<unsigned> { static unsigned make(Rng& r) { static const vector<unsigned> v = {0, 1, 4294967295u, 80}; return r.pick(v); } static const char* name() { return "unsigned"; } };
template<> struct Of<vector<int> > { static vector<int> make(Rng& r) { vector<int> v; for (unsigned n = r.below(3); n--;) v.push_back(Of<int>::make(r)); return v; } static const char* name() { return "vector<int>"; } };
template<> struct Of<vector<string> > { static vector<string> make(Rng& r) { vector<string> v; for (unsigned n = r.below(3); n--;) v.push_back(Of<string>::make(r)); return v; } static const char* name() { return "vector<string>"; } };
template<> struct Of<boost::optional<int> > { static boost::optional<int> make(Rng& r) { return r.chance(50) ? boost::optional<int>() : boost::optional<int>(Of<int>::make(r)); } static const char* name() { return "optional<int>"; } };
template<class T> static string say(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
static string say(const string& v) { return mon::show(v); }
template<class U> static string say(const vector<U>& v) { string s = "["; for (auto& x : v) s += say(x) + ","; return s + "]"; }
template<class U> static string say(const boost::optional<U>& v) { return v ? "some " + say(*v) : "none"; }
template<class T> struct HasText { static const bool value = true; }; template<class U> struct HasText<vector<U> > { static const bool value = false; }; template<class U> struct HasText<boost::optional<U> > { static const bool value = false; };
template<class T, bool B = HasText<T>::value> struct Text { template<class V> static void def(V* v, const T& x) { v->default_value(x); } template<class V> static void imp(V* v, const T& x) { v->implicit_value(x); } static string text(const T& x) { return boost::lexical_cast<string>(x); } };
template<class T> struct Text<T, false> { template<class V> static void def(V*, const T&) { abort(); } template<class V> static void imp(V*, const T&) { abort(); } static string text(const T&) { return ""; } };

template<class T> struct Log { T store; vector<string> calls; };
template<class T, class V> static void apply(V* v, const Setting<T>& s, Log<T>* log) {
    switch (s.k) {
    case DEF: Text<T>::def(v, s.v); break; case DEFT: v->default_value(s.v, s.text); break; case IMP: Text<T>::imp(v, s.v); break; case IMPT: v->implicit_value(s.v, s.text); break;
    case NAME: v->value_name(s.text); break; case NOTE: { int id = s.id; v->notifier([log, id](const T& x) { log->calls.push_back(std::to_string(id) + ":" + say(x)); }); break; }
    case COMP: v->composing(); break; case MANY: v->multitoken(); break; case ZERO: v->zero_tokens(); break; default: v->required(); }
}
template<class T> struct Said {
    bool def = false, imp = false, comp = false, multi = false, zero = false, req = false; T dv = T(), iv = T(); string dt, it, name; int note = -1;
    explicit Said(const vector<Setting<T> >& ss) {
        for (auto& s : ss) switch (s.k) { case DEF: def = true; dv = s.v; dt = Text<T>::text(s.v); break; case DEFT: def = true; dv = s.v; dt = s.text; break; case IMP: imp = true; iv = s.v; it = Text<T>::text(s.v); break; case IMPT: imp = true; iv = s.v; it = s.text; break; case NAME: name = s.text; break; case NOTE: note = s.id; break; case COMP: comp = true; break; case MANY: multi = true; break; case ZERO: zero = true; break; default: req = true; }
    }
    vector<Setting<T> > plain() const { vector<Setting<T> > r; if (def) r.push_back(Setting<T>{DEFT, dv, dt, 0}); if (imp) r.push_back(Setting<T>{IMPT, iv, it, 0}); if (!name.empty()) r.push_back(Setting<T>{NAME, T(), name, 0}); if (note >= 0) r.push_back(Setting<T>{NOTE, T(), "", note}); if (comp) r.push_back(Setting<T>{COMP, T(), "", 0}); if (multi) r.push_back(Setting<T>{MANY, T(), "", 0}); if (zero) r.push_back(Setting<T>{ZERO, T(), "", 0}); if (req) r.push_back(Setting<T>{REQ, T(), "", 0}); return r; }
    string shown(const string& arg) const { string n = name.empty() ? arg : name, r; if (imp && !it.empty()) r = "[=" + n + "(=" + it + ")]"; else r = n; if (def && !dt.empty()) r += " (=" + dt + ")"; return r; }
    unsigned least() const { return zero || imp ? 0 : 1; } unsigned most() const { return multi ? std::numeric_limits<unsigned>::max() : zero ? 0 : 1; }
};
template<class F> static string outcome(const F& f) { try { return f(); } catch (const std::exception& e) { return string(typeid(e).name()) + " " + e.what(); } }
template<class T> static string value(const boost::any& a) { const T* p = boost::any_cast<T>(&a); return a.empty() ? "empty" : p ? say(*p) : string("of type ") + a.type().name(); }
// all answers of the interface
template<class T> static string answers(const po::value_semantic& s) {
    string r = "min " + std::to_string(s.min_tokens()) + " max " + std::to_string(s.max_tokens()) + (s.is_composing() ? " composing" : "") + (s.is_required() ? " required" : "") + " name " + mon::show(s.name());
    boost::any a; bool d = s.apply_default(a); r += d ? " default " + value<T>(a) : a.empty() ? "" : " ?"; const po::typed_value_base* b = dynamic_cast<const po::typed_value_base*>(&s); r += b && b->value_type() == typeid(T) ? "" : " wrong type"; return r;
}
// what comes of every way to give the option
template<class T> static vector<string> lines(Rng& r) { vector<string> a; for (unsigned n = r.below(4); n--;) { static const vector<string> t = {"--opt", "--opt=1", "--opt=", "-o", "-o1", "-oyes", "1", "2.5", "text", "x", "--other", "--opt=yes", "--opt=bad", "--op", "--opt=-1", "-ofo", "--opt=two words"}; a.push_back(r.pick(t)); } return a; }
template<class T> struct Made { po::options_description d; boost::shared_ptr<Log<T> > log; boost::shared_ptr<const po::value_semantic> s; Made() : d("Opts"), log(new Log<T>()) {} };
template<class T> static string given(const Made<T>& m, const vector<vector<string> >& lines, const string& config, bool positional) {
    string r; m.log->store = T(); m.log->calls.clear(); po::variables_map vm;
    for (auto& a : lines) { r += outcome([&] { po::command_line_parser p(a); p.options(m.d); po::positional_options_description q; q.add("opt", -1); if (positional) p.positional(q); po::parsed_options x = p.run(); string s; for (auto& o : x.options) s += o.string_key + mon::show(o.value) + mon::show(o.original_tokens) + ";"; po::store(x, vm); return s; }); auto i = vm.find("opt"); r += i == vm.end() ? " absent" : string(i->second.defaulted() ? " defaulted " : " given ") + value<T>(i->second.value()); r += "\n"; }
    r += outcome([&] { std::istringstream is(config); po::store(po::parse_config_file(is, m.d), vm); return string("config"); }) + "\n";
    auto i = vm.find("opt"); r += (i == vm.end() ? " absent" : string(i->second.defaulted() ? " defaulted " : " given ") + value<T>(i->second.value())) + "\n";
    r += outcome([&] { po::notify(vm); return string("notified"); }) + " store " + say(m.log->store); for (auto& c : m.log->calls) r += " " + c; std::ostringstream os; os << m.d; return r + "\n" + os.str();
}
template<class T, class CH> static void declaration(Rng& r) {
    typedef po::typed_value<T, CH> V; vector<Setting<T> > ss; int ids = 0; string d = string(Of<T>::name()) + (sizeof(CH) > 1 ? " wide" : "");
    const unsigned many = r.chance(30) ? 12 : 6;
    for (unsigned n = r.below(many); n--;) { Setting<T> s; s.k = (Kind)r.below(N_KIND); if (!HasText<T>::value) { if (s.k == DEF) s.k = DEFT; if (s.k == IMP) s.k = IMPT; } s.id = ids++; static const vector<string> texts = {"", "shown", "two words", "%", "(=x)", "\xd1\x8f", "=", "]"}; s.v = Of<T>::make(r); s.text = r.pick(texts); ss.push_back(s); d += string(" ") + kind_name[s.k]; if (s.k < NAME) d += "(" + say(s.v) + ")"; if (s.k == DEFT || s.k == IMPT || s.k == NAME) d += mon::show(s.text); }
    const bool bound = r.chance(50); if (bound) d += " bound"; C->cur = d; const Said<T> m(ss); static const vector<string> args = {"arg", "arg", "ARG", "value"}; po::arg = r.pick(args); struct Back { ~Back() { po::arg = "arg"; } } back;
    auto make = [&](const vector<Setting<T> >& list, bool b) { boost::shared_ptr<Made<T> > x(new Made<T>()); V* v = b ? new V(&x->log->store) : new V(0); for (auto& s : list) apply<T>(v, s, x->log.get()); if (r.chance(50)) x->d.add_options()("opt,o", v, "about it"); else x->d.add(boost::shared_ptr<po::option_description>(new po::option_description("opt,o", v, "about it"))); x->d.add_options()("other,f", "flag"); x->s = x->d.find("opt", false).semantic(); return x; };
    boost::shared_ptr<Made<T> > x = make(ss, bound); const string before = answers<T>(*x->s);
    // what it says
    string want = "min " + std::to_string(m.least()) + " max " + std::to_string(m.most()) + (m.comp ? " composing" : "") + (m.req ? " required" : "") + " name " + mon::show(m.shown(po::arg)) + (m.def ? " default " + say(m.dv) : "");
    if (before != want) C->fail("declaration", "answers " + before + " instead of " + want);
    if (x->d.find("opt", false).format_parameter() != (m.most() ? m.shown(po::arg) : "")) C->fail("parameter", x->d.find("opt", false).format_parameter());
    { boost::any a; string got = outcome([&] { x->s->parse(a, vector<string>(), false); return value<T>(a); }), w; if (m.imp) w = say(m.iv); else { boost::any b; w = outcome([&] { std::unique_ptr<const po::value_semantic> q(po::value<T>()); q->parse(b, vector<string>(), false); return value<T>(b); }); if (sizeof(CH) > 1) { boost::any c; w = outcome([&] { std::unique_ptr<const po::value_semantic> q(new V(0)); q->parse(c, vector<string>(), false); return value<T>(c); }); } } if (got != w) C->fail("no-tokens", "gives " + got + " instead of " + w); }
    { T v = Of<T>::make(r); x->log->store = T(); x->log->calls.clear(); x->s->notify(boost::any(v)); string w = bound ? say(v) : say(T()); vector<string> c; if (m.note >= 0) c.push_back(std::to_string(m.note) + ":" + say(v)); if (say(x->log->store) != w || x->log->calls != c) C->fail("delivery", "of " + say(v) + ": stored " + say(x->log->store) + " called " + mon::show(x->log->calls)); }
    // said in another way
    vector<Setting<T> > other = ss; vector<string> how; unsigned way = r.below(4);
    if (way == 0) other = m.plain();                                                             // only what matters
    else if (way == 1) { other = m.plain(); r.shuffle(other); }                                  // in any order
    else if (way == 2) { other.clear(); vector<Setting<T> > noise = ss, last = m.plain(); for (auto& s : noise) { if (s.k < NAME || s.k == NOTE) { Setting<T> n = s; n.v = Of<T>::make(r); n.text = "noise"; n.id = 99; other.push_back(n); } else if (s.k == NAME && !m.name.empty()) { Setting<T> n = s; n.text = "noise"; other.push_back(n); } } r.shuffle(other); r.shuffle(last); other.insert(other.end(), last.begin(), last.end()); }   // after other values, which do not count
    else { vector<Setting<T> > twice; for (auto& s : ss) { twice.push_back(s); if (r.chance(40)) twice.push_back(s); } other = twice; }
    boost::shared_ptr<Made<T> > y = make(other, bound); string again = answers<T>(*y->s); if (again != before) C->fail("order", "said " + std::to_string(way) + " another way answers " + again + " instead of " + before);
    vector<vector<string> > ls; for (unsigned n = 1 + r.below(2); n--;) ls.push_back(lines<T>(r)); static const vector<string> confs = {"", "opt=1\n", "opt=\n", "opt=yes\nopt=no\n", "opt=two words\n", "other=1\n"}; const string cf = r.pick(confs); const bool pos = r.chance(40);
    string gx = given(*x, ls, cf, pos), gy = given(*y, ls, cf, pos); if (gx != gy) C->fail("order", "given " + mon::show(ls[0]) + " and " + mon::show(cf) + ": " + mon::show(gx) + " said another way: " + mon::show(gy));
    // using it changes nothing
    if (answers<T>(*x->s) != before) C->fail("changed-by-use", before + " became " + answers<T>(*x->s)); { string gz = given(*x, ls, cf, pos); if (gz != gx) C->fail("changed-by-use", mon::show(gx) + " then " + mon::show(gz)); }
    C->eval(); C->count("declarations"); if (ss.size() > 1) C->count("several-settings"); if (m.most() && !m.least()) C->count("optional-value"); C->count(gx.find("notified") != string::npos ? "went-well" : "refused"); if (ss.size() > 2) C->nontrivial(d); if (C->want_sample()) C->sample(d + " -> " + before);
    // a variable given and a function assigning it are the same
    if (bound && m.note < 0) { vector<Setting<T> > l = ss; boost::shared_ptr<Made<T> > z(new Made<T>()); V* v = new V(0); for (auto& s : l) apply<T>(v, s, z->log.get()); Log<T>* lg = z->log.get(); v->notifier([lg](const T& q) { lg->store = q; }); z->d.add_options()("opt,o", v, "about it")("other,f", "flag"); string gz = given(*z, ls, cf, pos); if (gz != gx) C->fail("bound-variable", mon::show(gx) + " with a function: " + mon::show(gz)); C->count("bound-compared"); }
}
// functions that are said to be the same as others
static void equivalents(Rng& r) {
    C->cur = "equivalents"; vector<vector<string> > ls(1, lines<bool>(r)); static const vector<string> confs = {"", "opt=1\n", "opt=no\n", "opt\n", "opt=bad\n"}; const string cf = r.pick(confs); bool pos = r.chance(30); C->cur += " " + mon::show(ls[0]) + mon::show(cf);
    { bool st = true; Made<bool> a, b, c; a.d.add_options()("opt,o", po::bool_switch(&a.log->store), "about")("other,f", "flag"); b.d.add_options()("opt,o", po::value<bool>(&b.log->store)->default_value(false)->zero_tokens(), "about")("other,f", "flag"); c.d.add_options()("opt,o", po::bool_switch()->notifier([&](bool v) { c.log->store = v; st = v; }), "about")("other,f", "flag"); string x = given(a, ls, cf, pos), y = given(b, ls, cf, pos), z = given(c, ls, cf, pos); if (x != y) C->fail("bool-switch", mon::show(x) + " as a value: " + mon::show(y)); if (x != z) C->fail("bool-switch", mon::show(x) + " with a function: " + mon::show(z)); if (answers<bool>(*a.d.find("opt", false).semantic()) != "min 0 max 0 name \"arg (=0)\" default 0") C->fail("bool-switch", answers<bool>(*a.d.find("opt", false).semantic())); }
    { Made<string> a, b, c, e; a.d.add_options()("opt,o", "about")("other,f", "flag"); b.d.add_options()("opt,o", new po::untyped_value(true), "about")("other,f", "flag"); c.d.add(boost::shared_ptr<po::option_description>(new po::option_description("opt,o", new po::untyped_value(true), "about"))); c.d.add_options()("other,f", "flag"); auto init = e.d.add_options(); init("opt,o", "about"); init("other,f", new po::untyped_value(true), "flag"); string x = given(a, ls, cf, pos); for (auto* o : {&b, &c, &e}) { string y = given(*o, ls, cf, pos); if (x != y) C->fail("untyped", mon::show(x) + " otherwise " + mon::show(y)); } auto s = a.d.find("opt", false).semantic(); if (s->min_tokens() || s->max_tokens() || s->is_composing() || s->is_required() || a.d.find("opt", false).format_parameter() != "") C->fail("untyped", "a flag is not one"); po::untyped_value u; if (u.min_tokens() != 1 || u.max_tokens() != 1 || u.is_composing() || u.is_required() || u.name() != "arg") C->fail("untyped", "takes one value"); boost::any an; if (((const po::value_semantic&)u).apply_default(an) || !an.empty()) C->fail("untyped", "has a default"); ((const po::value_semantic&)u).parse(an, vector<string>(1, "x"), false); if (value<string>(an) != "\"x\"") C->fail("untyped", "value " + value<string>(an)); ((const po::value_semantic&)u).notify(an); }
    { Made<string> a, b; a.d.add_options()("opt,o", po::value<string>(&a.log->store)); b.d.add_options()("opt,o", po::value<string>(&b.log->store), ""); a.d.add_options()("other,f", ""); b.d.add_options()("other,f", new po::untyped_value(true)); string x = given(a, ls, cf, pos), y = given(b, ls, cf, pos); if (x != y) C->fail("no-description", mon::show(x) + " otherwise " + mon::show(y)); }
    { Made<int> a, b; a.d.add_options()("opt,o", po::value<int>(&a.log->store), "about")("other,f", "flag"); b.d.add_options()("opt,o", po::wvalue<int>(&b.log->store), "about")("other,f", "flag"); string x = given(a, ls, cf, pos), y = given(b, ls, cf, pos); if (x != y) C->fail("wide-value", mon::show(x) + " as a wide value " + mon::show(y)); }
    C->eval(); C->count("equivalents"); C->nontrivial(C->cur);
}
static void random_case(Ctx& c) {
    C = &c; Rng& r = c.r;
    switch (r.below(13)) { case 0: declaration<int, char>(r); break; case 1: declaration<double, char>(r); break; case 2: case 3: declaration<string, char>(r); break; case 4: declaration<bool, char>(r); break; case 5: declaration<char, char>(r); break; case 6: declaration<unsigned, char>(r); break; case 7: declaration<vector<int>, char>(r); break; case 8: declaration<vector<string>, char>(r); break; case 9: declaration<boost::optional<int>, char>(r); break; case 10: declaration<int, wchar_t>(r); break; case 11: declaration<vector<int>, wchar_t>(r); break; default: equivalents(r); }
}
MON_MAIN(vector<mon::Fixed>(), random_case)
