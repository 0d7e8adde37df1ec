// Option tables, command-line generators and an independent reference model of the documented
// command-line semantics. The model is written from the documentation and the existing tests'
// expectations, over plain strings; it shares no code with the library.
#pragma once
#include "mon.hpp"
#include <boost/program_options.hpp>
#include <climits>

namespace cli {
namespace po = boost::program_options;
namespace st = boost::program_options::command_line_style;
using std::string; using std::vector; using mon::Rng;

// beyond CUSTOM: a user's own semantics, CUSTOM + 16 * fewest + most values (15: any number)
enum Arity { FLAG, SWITCH, ONE, UNTYPED1, IMPL, MULTI, VEC, MULTI0, N_ARITY, CUSTOM = 256, ARITY_END = 1023 };
inline Arity custom(unsigned mn, unsigned mx) { return (Arity)(CUSTOM + 16 * mn + mx); }
inline const char* arity_name(Arity a) { if (a >= CUSTOM) { static std::map<int, string> names; string& s = names[a]; s = std::to_string((a - CUSTOM) / 16) + ".." + (a % 16 == 15 ? "any" : std::to_string(a % 16)); return s.c_str(); } static const char* n[] = {"flag", "switch", "one", "untyped1", "implicit", "multi", "vec", "multi0"}; return n[a]; }
inline unsigned min_tok(Arity a) { return a >= CUSTOM ? unsigned(a - CUSTOM) / 16 : a == ONE || a == UNTYPED1 || a == MULTI || a == VEC ? 1 : 0; }
inline unsigned max_tok(Arity a) { return a >= CUSTOM ? (a % 16 == 15 ? UINT_MAX : unsigned(a) % 16) : a == FLAG || a == SWITCH ? 0 : a == MULTI || a == MULTI0 ? UINT_MAX : 1; }

struct Opt {
    vector<string> longs;
    char sh = 0;
    Arity ar = ONE;
    string decl() const {
        string r;
        for (size_t i = 0; i < longs.size(); ++i) { if (i) r += ','; r += longs[i]; }
        if (sh) { r += ','; r += sh; }
        return r;
    }
    string key(const string& given) const {
        if (!longs.empty()) return longs[0].find('*') != string::npos ? given : longs[0];
        return string("-") + sh;
    }
};
typedef vector<Opt> Table;
inline string show(const Table& t) { string r = "{"; for (auto& o : t) r += " " + o.decl() + ":" + arity_name(o.ar); return r + " }"; }

// a user's own semantic with bounds on the number of values
struct UserSemantic : po::value_semantic {
    unsigned mn, mx;
    UserSemantic(unsigned a, unsigned b) : mn(a), mx(b) {}
    string name() const { return "own"; }
    unsigned min_tokens() const { return mn; }
    unsigned max_tokens() const { return mx; }
    bool is_composing() const { return false; }
    bool is_required() const { return false; }
    void parse(boost::any& v, const vector<string>& t, bool) const { v = t; }
    bool apply_default(boost::any&) const { return false; }
    void notify(const boost::any&) const {}
};
inline po::value_semantic* semantic(Arity a) {
    if (a >= CUSTOM) return new UserSemantic(min_tok(a), max_tok(a));
    switch (a) {
    case FLAG: return new po::untyped_value(true);
    case SWITCH: return po::bool_switch();
    case ONE: return po::value<string>();
    case UNTYPED1: return new po::untyped_value();
    case IMPL: return po::value<string>()->implicit_value("<implicit>");
    case MULTI: return po::value<vector<string> >()->multitoken();
    case VEC: return po::value<vector<string> >();
    default: return po::value<vector<string> >()->multitoken()->implicit_value(vector<string>(1, "<implicit>"), "<implicit>");
    }
}
inline void build(const Table& t, po::options_description& d) {
    for (auto& o : t) d.add_options()(o.decl().c_str(), semantic(o.ar), "d");
}

inline string lower(string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }
inline bool starts(const string& s, const string& p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }

enum Err { OK, UNKNOWN, AMBIGUOUS, EMPTY_ADJ, MISSING, EXTRA, TOO_MANY, BAD_STYLE, OTHER };
inline const char* err_name(Err e) { static const char* n[] = {"ok", "unknown_option", "ambiguous_option", "empty_adjacent_parameter", "missing_parameter", "extra_parameter", "too_many_positional", "invalid_style", "other"}; return n[e]; }
struct ModelError { Err e; string token; vector<string> alts; };

struct Hit { int opt = -1; bool full = false; };

// name lookup by the documented rule
struct Lookup { enum R { NONE, FOUND, AMBIG } r = NONE; int opt = -1; vector<string> alts; };
inline Lookup lookup(const Table& t, const string& name, bool guess, bool lci, bool sci) {
    vector<int> full, approx;
    string n = lci ? lower(name) : name;
    for (size_t i = 0; i < t.size(); ++i) {
        bool f = false, a = false;
        for (const string& l0 : t[i].longs) {
            if (l0.empty()) continue;
            string l = lci ? lower(l0) : l0;
            if (l == n) f = true;
            if (l.back() == '*' && starts(n, l.substr(0, l.size() - 1))) a = true;
            if (guess && starts(l, n)) a = true;
        }
        if (t[i].sh) {
            string s = string("-") + t[i].sh;   // a short option is named with its dash
            if (sci ? lower(s) == lower(name) : s == name) f = true;
        }
        if (f) full.push_back((int)i); else if (a) approx.push_back((int)i);
    }
    Lookup r;
    const vector<int>& c = full.empty() ? approx : full;
    if (c.size() > 1) { r.r = Lookup::AMBIG; for (int i : c) r.alts.push_back(t[(size_t)i].key(name)); }
    else if (c.size() == 1) { r.r = Lookup::FOUND; r.opt = c[0]; }
    return r;
}

struct Parsed {
    string key; int pos = -1; vector<string> val, orig; bool unreg = false; bool after_term = false;
};
inline string show(const Parsed& p) { return "(" + p.key + "," + std::to_string(p.pos) + "," + mon::show(p.val) + "," + mon::show(p.orig) + (p.unreg ? ",unreg)" : ")"); }
inline string show(const vector<Parsed>& v) { string r; for (auto& p : v) r += show(p); return r; }

struct Pos { vector<std::pair<string, int> > adds; // count -1 is the trailing name
    bool used = false;
    unsigned limit() const { unsigned n = 0; for (auto& a : adds) { if (a.second < 0) { if (!a.first.empty()) return UINT_MAX; } else n += (unsigned)a.second; } return n; }
    string name(unsigned p) const { unsigned n = 0; string tr; for (auto& a : adds) { if (a.second < 0) { tr = a.first; continue; } n += (unsigned)a.second; if (p < n) return a.first; } return tr; }
    string show() const { string r = "<"; for (auto& a : adds) r += " " + a.first + "x" + std::to_string(a.second); return r + " >"; }
};

struct Model {
    const Table& t; int style; bool unreg_ok; const Pos* pos;
    bool has(int f) const { return (style & f) != 0; }
    bool lci() const { return has(st::long_case_insensitive); }
    bool sci() const { return has(st::short_case_insensitive); }
    bool guess() const { return has(st::allow_guessing); }
    Lookup find(const string& n) const { return lookup(t, n, guess(), lci(), sci()); }

    struct Raw { string name; vector<string> vals, origs; bool last = true; bool unreg = false; };
    // a user's parser: consumes arguments from the front, or none if it declines
    typedef std::function<vector<Raw>(vector<string>&)> Custom;
    Custom custom;
    vector<Raw> syntactic(const string& tok) const {
        if (custom) { vector<string> one(1, tok); vector<Raw> r = custom(one); if (!r.empty()) return r; if (one.empty()) return r; }
        return builtin(tok);
    }
    // the options a single argument denotes syntactically; empty if it is not an option
    vector<Raw> builtin(const string& tok) const {
        vector<Raw> r;
        if (has(st::allow_long) && tok.size() >= 3 && starts(tok, "--") && tok[2] != '=') { r.push_back(long_form(tok.substr(2), tok)); return r; }
        if (has(st::allow_long_disguise) && tok.size() >= 2 && tok[1] != '=' &&
            ((tok[0] == '-' && tok[1] != '-') || (tok[0] == '/' && has(st::allow_slash_for_short)))) {
            string body = tok.substr(1);
            Lookup l = find(body.substr(0, body.find('=')));
            if (l.r == Lookup::AMBIG) throw ModelError{AMBIGUOUS, tok, l.alts};
            if (l.r == Lookup::FOUND) { r.push_back(long_form(body, tok)); return r; }
        }
        if (has(st::allow_short) && has(st::allow_dash_for_short) && tok.size() >= 2 && tok[0] == '-' && tok[1] != '-') {
            string rest = tok.substr(1);
            for (;;) {
                Raw x; x.name = string("-") + rest[0]; rest.erase(0, 1);
                Lookup l = lookup(t, x.name, false, false, sci());
                if (l.r == Lookup::AMBIG) throw ModelError{AMBIGUOUS, x.name, l.alts};
                if (l.r == Lookup::FOUND && has(st::allow_sticky) && max_tok(t[(size_t)l.opt].ar) == 0 && !rest.empty()) { x.last = false; r.push_back(x); continue; }
                if (!rest.empty()) x.vals.push_back(rest);
                x.origs.push_back(tok);
                r.push_back(x);
                return r;
            }
        }
        if (has(st::allow_short) && has(st::allow_slash_for_short) && tok.size() >= 2 && tok[0] == '/') {
            Raw x; x.name = string("-") + tok[1];
            if (tok.size() > 2) x.vals.push_back(tok.substr(2));
            x.origs.push_back(tok);
            r.push_back(x);
        }
        return r;
    }
    Raw long_form(const string& body, const string& tok) const {
        Raw x; size_t e = body.find('=');
        x.name = body.substr(0, e);
        x.origs.push_back(tok);
        if (e != string::npos) { x.vals.push_back(body.substr(e + 1)); if (x.vals[0].empty()) throw ModelError{EMPTY_ADJ, tok, {}}; }
        return x;
    }
    void finish(const vector<Raw>& rs, const vector<string>& args, size_t& i, const string& tok, vector<Parsed>& res) const {
        size_t n = args.size();
            for (size_t k = 0; k < rs.size(); ++k) {
                bool last = k + 1 == rs.size();
                Parsed p; p.key = rs[k].name;
                p.val = rs[k].vals; p.orig = rs[k].origs; p.unreg = rs[k].unreg;
                if (p.key.empty()) { res.push_back(p); continue; }
                Lookup l = find(p.key);
                if (l.r == Lookup::AMBIG) throw ModelError{AMBIGUOUS, tok, l.alts};
                if (l.r == Lookup::NONE) {
                    if (!unreg_ok) throw ModelError{UNKNOWN, tok, {}};
                    p.unreg = true; res.push_back(p); continue;
                }
                const Opt& o = t[(size_t)l.opt];
                p.key = o.key(p.key);
                unsigned mn = min_tok(o.ar), mx = max_tok(o.ar);
                size_t avail = p.val.size() + (last ? n - i : 0);
                if (avail < mn) throw ModelError{MISSING, tok, {p.key}};
                if (!p.val.empty() && mx == 0) throw ModelError{EXTRA, tok, {p.key}};
                while (last && p.val.size() < mn && i < n) {
                    const string& nx = args[i];
                    if (!syntactic(nx).empty()) {
                        Lookup l2 = find(nx);
                        if (l2.r == Lookup::AMBIG) throw ModelError{AMBIGUOUS, nx, l2.alts};
                        if (l2.r == Lookup::FOUND) throw ModelError{MISSING, tok, {p.key}};
                    }
                    p.val.push_back(nx); p.orig.push_back(nx); ++i;
                }
                res.push_back(p);
            }
    }
    vector<Parsed> parse(const vector<string>& args) const {
        vector<Parsed> res; size_t i = 0, n = args.size();
        while (i < n) {
            const string tok = args[i];
            vector<Raw> rs;
            if (custom) {
                vector<string> rest(args.begin() + (long)i, args.end());
                size_t before = rest.size();
                rs = custom(rest);
                if (rest.size() != before) { i += before - rest.size(); finish(rs, args, i, tok, res); continue; }
            }
            rs = builtin(tok);
            if (rs.empty() && tok == "--") {
                for (++i; i < n; ++i) { Parsed p; p.val.push_back(args[i]); p.orig.push_back(args[i]); p.after_term = true; res.push_back(p); }
                break;
            }
            ++i;
            if (rs.empty()) { Parsed p; p.val.push_back(tok); p.orig.push_back(tok); res.push_back(p); continue; }
            finish(rs, args, i, tok, res);
        }
        // options that may take more values take the positional arguments right behind them
        vector<Parsed> out;
        for (size_t k = 0; k < res.size(); ) {
            Parsed p = res[k++];
            if (!p.key.empty()) {
                Lookup l = find(p.key);
                if (l.r == Lookup::AMBIG) throw ModelError{AMBIGUOUS, p.orig.empty() ? p.key : p.orig[0], l.alts};
                if (l.r == Lookup::FOUND && min_tok(t[(size_t)l.opt].ar) < max_tok(t[(size_t)l.opt].ar))
                    while (p.val.size() < max_tok(t[(size_t)l.opt].ar) && k < res.size() && res[k].key.empty() && !res[k].after_term) {
                        p.val.push_back(res[k].val[0]); p.orig.push_back(res[k].orig[0]); ++k;
                    }
            }
            out.push_back(p);
        }
        unsigned np = 0;
        for (auto& p : out) if (p.key.empty()) {
            p.pos = (int)np;
            if (pos && pos->used) { if (np >= pos->limit()) throw ModelError{TOO_MANY, p.val[0], {}}; p.key = pos->name(np); }
            ++np;
        }
        return out;
    }
};

// outcome of the real parser, in the model's terms
struct Outcome { Err e = OK; vector<Parsed> opts; string what; vector<string> alts; string desc() const { return e == OK ? show(opts) : string("error ") + err_name(e) + " '" + what + "'"; } };
inline Outcome from_exception(std::exception_ptr ep) {
    Outcome o;
    try { std::rethrow_exception(ep); }
    catch (const po::unknown_option& e) { o.e = UNKNOWN; o.what = e.what(); }
    catch (const po::ambiguous_option& e) { o.e = AMBIGUOUS; o.what = e.what(); o.alts = e.alternatives(); }
    catch (const po::invalid_command_line_syntax& e) {
        o.what = e.what();
        o.e = e.kind() == po::invalid_syntax::empty_adjacent_parameter ? EMPTY_ADJ : e.kind() == po::invalid_syntax::missing_parameter ? MISSING : e.kind() == po::invalid_syntax::extra_parameter ? EXTRA : OTHER;
    }
    catch (const po::too_many_positional_options_error& e) { o.e = TOO_MANY; o.what = e.what(); }
    catch (const po::invalid_command_line_style& e) { o.e = BAD_STYLE; o.what = e.what(); }
    catch (const std::exception& e) { o.e = OTHER; o.what = e.what(); }
    return o;
}
inline vector<Parsed> convert(const vector<po::option>& v) {
    vector<Parsed> r;
    for (auto& x : v) { Parsed p; p.key = x.string_key; p.pos = x.position_key; p.val = x.value; p.orig = x.original_tokens; p.unreg = x.unregistered; r.push_back(p); }
    return r;
}
inline po::positional_options_description make_pos(const Pos& p) {
    po::positional_options_description d;
    for (auto& a : p.adds) d.add(a.first.c_str(), a.second);
    return d;
}
// Runs the real parser through one of its public entry points, chosen by the arguments themselves, so
// that every command-line check watches all of them: the vector constructor, the (argc, argv)
// constructor, parse_command_line, and the setters in another order.
inline Outcome real_parse(const po::options_description& d, const vector<string>& args, int style, bool unreg, const Pos* pos, po::parsed_options* keep = 0) {
    Outcome o;
    unsigned h = 2166136261u; bool nul = false;
    for (auto& a : args) { for (char c : a) { h = (h ^ (unsigned char)c) * 16777619u; nul |= c == 0; } h = (h ^ 0x5fu) * 16777619u; }
    unsigned route = ((h >> 16) ^ h ^ (unsigned)style) % 4;
    vector<const char*> argv; argv.push_back("program");
    for (auto& a : args) argv.push_back(a.c_str());
    int argc = (int)argv.size();
    argv.push_back(0);
    if (args.empty() && route == 1) argc = 0;
    if (nul) route = 0;
    const bool positional = pos && pos->used;
    try {
        po::parsed_options r(&d);
        po::positional_options_description pd;
        if (positional) pd = make_pos(*pos);
        if (route == 3 && !unreg && !positional) {
            r = po::parse_command_line(argc, &argv[0], d, style >= 0 ? style : 0);
        } else if (route == 0 || route == 3) {
            po::command_line_parser p(args);
            p.options(d);
            if (style >= 0) p.style(style);
            if (unreg) p.allow_unregistered();
            if (positional) p.positional(pd);
            r = p.run();
        } else if (route == 1) {
            po::command_line_parser p(argc, &argv[0]);
            if (unreg) p.allow_unregistered();
            if (style >= 0) p.style(style);
            p.options(d);
            if (positional) p.positional(pd);
            r = p.run();
        } else {
            po::basic_command_line_parser<char> p(args);
            if (positional) p.positional(pd);
            if (unreg) p.allow_unregistered();
            p.options(d);
            if (style >= 0) p.style(style);
            r = p.run();
        }
        o.opts = convert(r.options);
        if (keep) *keep = r;
    } catch (const std::exception&) { o = from_exception(std::current_exception()); }
    return o;
}
inline Outcome model_parse(const Table& t, const vector<string>& args, int style, bool unreg, const Pos* pos, ModelError* me = 0) {
    Outcome o;
    Model m{t, style, unreg, pos};
    try { o.opts = m.parse(args); }
    catch (const ModelError& e) { o.e = e.e; o.alts = e.alts; if (me) *me = e; }
    return o;
}
inline bool same(const Parsed& a, const Parsed& b) { return a.key == b.key && a.pos == b.pos && a.val == b.val && a.orig == b.orig && a.unreg == b.unreg; }
// empty if equal, else what differs
inline string diff(const Outcome& real, const Outcome& model) {
    if (real.e != model.e) return string("outcome: real ") + err_name(real.e) + " expected " + err_name(model.e);
    if (real.e != OK) return "";
    if (real.opts.size() != model.opts.size()) return "number of options: real " + std::to_string(real.opts.size()) + " expected " + std::to_string(model.opts.size());
    for (size_t i = 0; i < real.opts.size(); ++i) if (!same(real.opts[i], model.opts[i])) return "option " + std::to_string(i) + ": real " + show(real.opts[i]) + " expected " + show(model.opts[i]);
    return "";
}
inline string diff_kind(const Outcome& real, const Outcome& model) {
    if (real.e != model.e) return string("outcome-") + err_name(model.e) + "-got-" + err_name(real.e);
    if (real.opts.size() != model.opts.size()) return "option-count";
    for (size_t i = 0; i < real.opts.size(); ++i) {
        const Parsed &a = real.opts[i], &b = model.opts[i];
        if (a.key != b.key) return "key"; if (a.pos != b.pos) return "position"; if (a.unreg != b.unreg) return "unregistered-mark";
        if (a.val != b.val) return "value"; if (a.orig != b.orig) return "original-tokens";
    }
    return "same";
}

// ---------- generators ----------
inline const vector<string>& long_pool() {
    static const vector<string> p = {"foo", "foobar", "foo-baz", "fo", "f", "bar", "baz", "barber", "ba", "qux", "quux", "verbose", "version", "verb", "include-path", "input_file", "x1", "x", "Zed", "zebra", "Output", "out", "o.dotted", "sec.name", "n", "number", "caf\xc3\xa9", "\xd1\x84\xd0\xb0\xd0\xb9\xd0\xbb", "a", "all", "all-chroots", "averyveryverylongoptionnamethatexceedssmallbuffers", "Foo", "BAR", "quiet", "q2"};
    return p;
}
inline const string& short_pool() { static const string p = "abcdfgiovxzVFI?1@"; return p; }
struct GenOpt { bool wild = false; bool nodup_ci = false; unsigned max_opts = 7; bool need_short = false; unsigned alias_pct = 15; vector<Arity> arities; unsigned user_pct = 0; };
inline const vector<Arity>& user_arities() { static const vector<Arity> v = {custom(2, 2), custom(3, 3), custom(0, 2), custom(0, 3), custom(1, 2), custom(2, 4), custom(2, 15), custom(1, 15), custom(4, 4), custom(0, 15)}; return v; }
inline Table gen_table(Rng& r, const GenOpt& g = GenOpt()) {
    Table t; std::set<string> used; std::set<char> su;
    unsigned n = 1 + r.below(g.max_opts);
    for (unsigned i = 0; i < n; ++i) {
        Opt o;
        o.ar = g.arities.empty() ? (Arity)r.below(N_ARITY) : r.pick(g.arities);
        if (g.user_pct && r.chance(g.user_pct)) o.ar = r.pick(user_arities());
        auto take = [&](string& out) { for (int k = 0; k < 20; ++k) { string c = r.pick(long_pool()); if (r.chance(8)) c += (char)('a' + r.below(26)); string u = g.nodup_ci ? lower(c) : c; if (used.insert(u).second) { out = c; return true; } } return false; };
        bool want_long = r.chance(88), want_short = r.chance(g.need_short ? 90 : 55) || !want_long;
        string l;
        if (want_long && take(l)) { o.longs.push_back(l); while (r.chance(g.alias_pct)) { string a; if (take(a)) o.longs.push_back(a); else break; } }
        if (want_short) for (int k = 0; k < 20; ++k) { char c = short_pool()[r.below((unsigned)short_pool().size())]; char u = g.nodup_ci ? lower(string(1, c))[0] : c; if (su.insert(u).second) { o.sh = c; break; } }
        // a last name of one letter would be declared as the short name
        if (o.longs.size() > 1 && !o.sh && o.longs.back().size() == 1) std::swap(o.longs.back(), o.longs.front());
        if (o.longs.size() > 1 && !o.sh && o.longs.back().size() == 1) continue;
        if (o.longs.empty() && !o.sh) continue;
        if (g.wild && r.chance(12) && !o.longs.empty()) o.longs[0] += '*';
        t.push_back(o);
    }
    if (t.empty()) { Opt o; o.longs.push_back("foo"); o.sh = 'f'; t.push_back(o); }
    return t;
}
inline const vector<string>& odd_values() {
    static const vector<string> p = {"", "v", "val", "-", "--", "---", "=", "==", "a=b", "=x", "--=", "--=x", "-=x", "/=x", "/", "//", "-1", "-123", "+5", "/etc/passwd", "two words", "quo\"te", "back\\slash", "%value%", "--x", "-x", "foo", "bar", "\xd1\x8f", "\xff\xfe", "tab\there", "new\nline", "*", "a,b", "#c", "--foo", "--foo=1", "-f", "/f", "longer value text exceeding the small string buffer size", "-\xd1\x8f", "--\xd1\x8f=1", "1", "0", "true", string("nu\0l", 4), string("a\0=b", 4), string(1, '\0')};
    return p;
}
inline string gen_value(Rng& r) { string v = r.pick(odd_values()); if (r.chance(10)) v += r.pick(odd_values()); if (r.chance(5)) { v.clear(); unsigned n = r.below(40); for (unsigned i = 0; i < n; ++i) v += (char)r.below(256); } return v; }
inline string plain_value(Rng& r) { static const vector<string> p = {"v", "val", "x1", "10", "a=b", "two words", "q\"uote", "/etc/p", "z", "=", "longer value text exceeding the small string buffer", "+", "a,b"}; return r.pick(p); }
inline string swapcase(Rng& r, string s) { for (char& c : s) if (r.chance(50)) { if (c >= 'a' && c <= 'z') c = char(c - 32); else if (c >= 'A' && c <= 'Z') c = char(c + 32); } return s; }
// a token related to the table: right, nearly right or wrong
inline string gen_token(Rng& r, const Table& t) {
    const Opt& o = t[r.below((unsigned)t.size())];
    unsigned k = r.below(100);
    string nm = o.longs.empty() ? r.pick(long_pool()) : r.pick(o.longs);
    if (!nm.empty() && nm.back() == '*') { nm.pop_back(); if (r.chance(70)) nm += r.pick(long_pool()); }
    if (r.chance(15)) nm = nm.substr(0, 1 + r.below((unsigned)nm.size()));
    if (r.chance(10)) nm = swapcase(r, nm);
    if (r.chance(6)) nm += 'q';
    string pre = r.chance(75) ? "--" : r.chance(60) ? "-" : "/";
    if (k < 20) return pre + nm;
    if (k < 36) return pre + nm + "=" + gen_value(r);
    if (k < 39) return pre + nm + "=";
    string sp = r.chance(75) ? "-" : "/";
    char sh = o.sh ? o.sh : short_pool()[r.below((unsigned)short_pool().size())];
    if (r.chance(8)) sh = (char)(sh ^ 32);
    if (k < 50) return sp + sh;
    if (k < 58) return sp + sh + gen_value(r);
    if (k < 68) { string g = sp; unsigned n = 1 + r.below(4); for (unsigned i = 0; i < n; ++i) { const Opt& x = t[r.below((unsigned)t.size())]; g += x.sh ? x.sh : sh; } if (r.chance(40)) g += gen_value(r); return g; }
    if (k < 72) return "--";
    if (k < 90) return plain_value(r);
    return gen_value(r);
}
inline vector<string> gen_args(Rng& r, const Table& t, unsigned maxn = 9) {
    vector<string> a; unsigned n = r.below(maxn + 1);
    for (unsigned i = 0; i < n; ++i) { string s = gen_token(r, t); if (s == "--" && r.chance(50)) s = plain_value(r); a.push_back(s); }
    return a;
}
// a value-giving, mostly correct command line (so that acceptance is frequent)
inline vector<string> gen_good_args(Rng& r, const Table& t, int style, unsigned maxn = 7) {
    vector<string> a; unsigned n = r.below(maxn + 1);
    for (unsigned i = 0; i < n; ++i) {
        const Opt& o = t[r.below((unsigned)t.size())];
        bool dash = (style & st::allow_short) && (style & st::allow_dash_for_short), slash = (style & st::allow_short) && (style & st::allow_slash_for_short);
        if (r.chance(25)) { a.push_back(plain_value(r)); continue; }
        bool val = max_tok(o.ar) > 0 && (min_tok(o.ar) || r.chance(50));
        string v = plain_value(r);
        if ((style & st::allow_long) && !o.longs.empty() && r.chance(60)) {
            string nm = r.pick(o.longs); if (nm.back() == '*') nm = nm.substr(0, nm.size() - 1) + "w";
            if (val && r.chance(50)) a.push_back("--" + nm + "=" + v); else { a.push_back("--" + nm); if (val) a.push_back(v); }
        } else if (o.sh && (dash || slash)) {
            string s = dash && (!slash || r.chance(60)) ? "-" : "/"; s += o.sh;
            if (val && r.chance(50)) a.push_back(s + v); else { a.push_back(s); if (val) a.push_back(v); }
        } else a.push_back(plain_value(r));
        if (max_tok(o.ar) > 1 && r.chance(50)) a.push_back(plain_value(r));
    }
    if (r.chance(12)) { a.insert(a.begin() + r.below((unsigned)a.size() + 1), "--"); }
    return a;
}
inline bool style_ok(int s) {
    if ((s & (st::allow_long | st::allow_long_disguise)) && !(s & (st::long_allow_adjacent | st::long_allow_next))) return false;
    if ((s & st::allow_short) && !(s & (st::short_allow_adjacent | st::short_allow_next))) return false;
    if ((s & st::allow_short) && !(s & (st::allow_dash_for_short | st::allow_slash_for_short))) return false;
    return true;
}
inline int gen_style(Rng& r) {
    if (r.chance(30)) return st::unix_style;
    static const vector<int> common = {
        st::unix_style | st::case_insensitive, st::unix_style | st::allow_slash_for_short, st::unix_style | st::allow_long_disguise,
        st::unix_style | st::allow_long_disguise | st::allow_slash_for_short, st::unix_style & ~st::allow_guessing,
        st::unix_style & ~st::allow_sticky, st::allow_long | st::long_allow_adjacent, st::allow_long | st::long_allow_next,
        st::allow_short | st::allow_dash_for_short | st::short_allow_adjacent | st::short_allow_next | st::allow_sticky,
        st::allow_short | st::allow_slash_for_short | st::short_allow_adjacent | st::short_allow_next,
        st::allow_long_disguise | st::long_allow_adjacent | st::long_allow_next, st::unix_style | st::long_case_insensitive, st::unix_style | st::short_case_insensitive};
    if (r.chance(60)) return r.pick(common);
    for (;;) { int s = 1 + (int)r.below(8191); if (style_ok(s)) return s; }
}
inline Pos gen_pos(Rng& r, const Table& t, unsigned used_pct = 50) {
    Pos p; p.used = r.chance(used_pct);
    unsigned n = r.below(4); bool tr = false;
    for (unsigned i = 0; i < n; ++i) {
        string nm = r.chance(70) && !t.empty() && !t[0].longs.empty() ? r.pick(t[r.below((unsigned)t.size())].longs.empty() ? t[0].longs : t[0].longs) : string("pos") + (char)('a' + r.below(3));
        int c = (int)r.below(4) - 1;
        if (c == -1) { if (tr) c = 1; tr = true; }
        p.adds.push_back(std::make_pair(nm, c));
    }
    return p;
}
inline string case_desc(const Table& t, const vector<string>& args, int style, bool unreg, const Pos* p) {
    return "options " + show(t) + " style 0x" + [&] { char b[16]; snprintf(b, 16, "%x", style); return string(b); }() + (unreg ? " unreg" : "") + (p && p->used ? " positional " + p->show() : "") + " args " + mon::show(args);
}
} // namespace cli
