// Histories of store/notify over several sources, with a reference map written from the documentation.
#pragma once
#include "spell.hpp"
#include <sstream>
#include <algorithm>
namespace cli {
enum Ty { T_STR, T_INT, T_DBL, T_SWITCH, T_BOOL, T_VSTR, T_VINT, T_UNT, T_UFLAG, N_TY };
inline const char* ty_name(Ty t) { static const char* n[] = {"string", "int", "double", "switch", "bool", "vector<string>", "vector<int>", "untyped", "untyped-flag"}; return n[t]; }
inline bool is_vec(Ty t) { return t == T_VSTR || t == T_VINT; }

struct Event { string key, text; };
struct Rich {
    vector<string> longs; char sh = 0; Ty ty = T_STR;
    bool composing = false, has_def = false, has_impl = false, multi = false, required = false, bound = false, callback = false;
    int group = 0;
    string def_text, impl_text;        // in any_text form
    int def_i = 0, impl_i = 0; string def_s, impl_s;
    string key() const { return longs.empty() ? string("-") + sh : longs[0]; }
    bool flag() const { return ty == T_SWITCH || ty == T_UFLAG; }
    string show() const { string r; for (auto& l : longs) r += l + ","; if (sh) r += sh; r += string(":") + ty_name(ty); if (composing) r += "+composing"; if (has_def) r += "+default"; if (has_impl) r += "+implicit"; if (multi) r += "+multi"; if (required) r += "+required"; if (bound) r += "+bound"; if (callback) r += "+callback"; r += "@" + std::to_string(group); return r; }
};
// variables the options are bound to
struct Sinks { std::map<string, string> s; std::map<string, int> i; std::map<string, double> d; std::map<string, bool> b; std::map<string, vector<string> > vs; std::map<string, vector<int> > vi; vector<Event> events;
    string text(const Rich& o) const {
        const string k = o.key();
        switch (o.ty) {
        case T_STR: return any_text(boost::any(s.at(k))); case T_INT: return any_text(boost::any(i.at(k))); case T_DBL: return any_text(boost::any(d.at(k)));
        case T_SWITCH: case T_BOOL: return any_text(boost::any(b.at(k))); case T_VSTR: return any_text(boost::any(vs.at(k))); case T_VINT: return any_text(boost::any(vi.at(k)));
        default: return ""; }
    }
};
template<class T> po::typed_value<T>* decorate(po::typed_value<T>* v, const Rich& o, Sinks* sk) {
    if (o.composing) v->composing();
    if (o.multi) v->multitoken();
    if (o.required) v->required();
    if (o.callback && sk) { string k = o.key(); v->notifier([sk, k](const T& x) { sk->events.push_back(Event{k, any_text(boost::any(x))}); }); }
    return v;
}
inline po::value_semantic* rich_semantic(const Rich& o, Sinks* sk) {
    const string k = o.key();
    bool b = o.bound && sk;
    switch (o.ty) {
    case T_STR: { if (b) sk->s[k] = "<unset>"; auto v = decorate(po::value<string>(b ? &sk->s[k] : 0), o, sk); if (o.has_def) v->default_value(o.def_s); if (o.has_impl) v->implicit_value(o.impl_s); return v; }
    case T_INT: { if (b) sk->i[k] = -999; auto v = decorate(po::value<int>(b ? &sk->i[k] : 0), o, sk); if (o.has_def) v->default_value(o.def_i); if (o.has_impl) v->implicit_value(o.impl_i); return v; }
    case T_DBL: { if (b) sk->d[k] = -999; auto v = decorate(po::value<double>(b ? &sk->d[k] : 0), o, sk); if (o.has_def) v->default_value(o.def_i, "dd"); if (o.has_impl) v->implicit_value(o.impl_i, "ii"); return v; }
    case T_SWITCH: { if (b) sk->b[k] = false; auto v = decorate(po::bool_switch(b ? &sk->b[k] : 0), o, sk); return v; }
    case T_BOOL: { if (b) sk->b[k] = false; auto v = decorate(po::value<bool>(b ? &sk->b[k] : 0), o, sk); if (o.has_def) v->default_value(o.def_i & 1); if (o.has_impl) v->implicit_value(o.impl_i & 1); return v; }
    case T_VSTR: { if (b) sk->vs[k] = vector<string>(1, "<unset>"); auto v = decorate(po::value<vector<string> >(b ? &sk->vs[k] : 0), o, sk); if (o.has_def) v->default_value(vector<string>(2, o.def_s), "dd"); if (o.has_impl) v->implicit_value(vector<string>(1, o.impl_s), "ii"); return v; }
    case T_VINT: { if (b) sk->vi[k] = vector<int>(1, -999); auto v = decorate(po::value<vector<int> >(b ? &sk->vi[k] : 0), o, sk); if (o.has_def) v->default_value(vector<int>(2, o.def_i), "dd"); if (o.has_impl) v->implicit_value(vector<int>(1, o.impl_i), "ii"); return v; }
    case T_UNT: return new po::untyped_value();
    default: return new po::untyped_value(true);
    }
}
typedef vector<Rich> RTable;
inline string show(const RTable& t) { string r = "{"; for (auto& o : t) r += " " + o.show(); return r + " }"; }
inline RTable gen_rich(Rng& r, unsigned maxn, bool required_ok, bool sinks) {
    static const vector<string> pool = {"alpha", "beta", "gamma.one", "gamma.two", "delta", "eps", "zeta", "Eta", "theta", "iota-x", "kappa_y", "lambda"};
    vector<string> names(pool); r.shuffle(names);
    string shorts = "abcdefgh";
    RTable t; unsigned n = 1 + r.below(maxn); size_t ni = 0;
    for (unsigned i = 0; i < n && ni + 2 < names.size(); ++i) {
        Rich o; o.ty = (Ty)r.below(N_TY);
        o.longs.push_back(names[ni++]); if (r.chance(20)) o.longs.push_back(names[ni++]);
        if (r.chance(50)) o.sh = shorts[i % 8];
        o.composing = is_vec(o.ty) && r.chance(50);
        bool typed = o.ty != T_UNT && o.ty != T_UFLAG;
        o.has_def = typed && r.chance(45);
        o.has_impl = typed && !o.composing && o.ty != T_SWITCH && r.chance(25);
        o.multi = is_vec(o.ty) && r.chance(40);
        o.required = required_ok && typed && r.chance(25);
        o.bound = sinks && typed && r.chance(50); o.callback = sinks && typed && r.chance(60);
        o.group = (int)r.below(2);
        o.def_i = 100 + r.range(0, 99); o.impl_i = 200 + r.range(0, 99); o.def_s = "def" + std::to_string(o.def_i); o.impl_s = "imp" + std::to_string(o.impl_i);
        if (o.ty == T_SWITCH) { o.has_def = true; o.def_text = "false"; }
        auto txt = [&](int iv, const string& sv, unsigned rep) -> string {
            switch (o.ty) { case T_STR: return any_text(boost::any(sv)); case T_INT: return any_text(boost::any(iv)); case T_DBL: return any_text(boost::any((double)iv)); case T_BOOL: return iv & 1 ? "true" : "false";
            case T_VSTR: return any_text(boost::any(vector<string>(rep, sv))); case T_VINT: return any_text(boost::any(vector<int>(rep, iv))); default: return ""; } };
        if (o.has_def && o.ty != T_SWITCH) o.def_text = txt(o.def_i, o.def_s, 2);
        if (o.has_impl) o.impl_text = txt(o.impl_i, o.impl_s, 1);
        t.push_back(o);
    }
    return t;
}
// one occurrence of an option in a source
struct Occ { int opt; vector<string> vals; bool bare = false; string name; };
enum SrcKind { S_CMD, S_CMD_CI, S_CFG, S_ENV, N_SRC };
struct Source { SrcKind kind = S_CMD; int groups = 3; vector<Occ> occ; bool repeated = false;
    string show(const RTable& t) const { static const char* n[] = {"cmd", "cmd-ci", "cfg", "env"}; string r = string(n[kind]) + "/" + std::to_string(groups) + "{"; for (auto& o : occ) r += " " + o.name + (o.bare ? "" : mon::show(o.vals)); (void)t; return r + " }"; } };

struct World {
    RTable t; Sinks sinks;
    po::options_description ga, gb, all;   // groups 1, 2 and both
    World(const RTable& tt, bool with_sinks) : t(tt), ga("A"), gb("B") {
        for (auto& o : t) {
            string d; for (size_t i = 0; i < o.longs.size(); ++i) { if (i) d += ","; d += o.longs[i]; } if (o.sh) d += string(",") + o.sh;
            (o.group ? gb : ga).add_options()(d.c_str(), rich_semantic(o, with_sinks ? &sinks : 0), "d");
        }
        all.add(ga).add(gb);
    }
    const po::options_description& desc(int groups) const { return groups == 3 ? all : groups == 1 ? ga : gb; }
    bool in(const Rich& o, int groups) const { return (groups >> o.group) & 1; }
};
struct ValueIds { int next = 1; };
inline string value_for(Rng& r, Ty ty, ValueIds& ids) {
    int id = ids.next++;
    switch (ty) {
    case T_INT: case T_VINT: return std::to_string(id);
    case T_DBL: return std::to_string(id) + (r.chance(50) ? ".5" : "");
    case T_BOOL: case T_SWITCH: { static const vector<string> w = {"1", "true", "yes", "on", "0", "false", "no", "off", "True", "NO", "oFF"}; return r.pick(w); }
    default: if (r.chance(6)) return string();   // an explicit value may be empty
        return (r.chance(20) ? "v = x" : "v") + std::to_string(id);
    }
}
// in a config file, names without a section come before the first section
inline void order_cfg(Source& s) {
    if (s.kind == S_CFG) std::stable_sort(s.occ.begin(), s.occ.end(), [](const Occ& a, const Occ& b) { auto sec = [](const string& n) { size_t p = n.find('.'); return p == string::npos ? string() : n.substr(0, p); }; return sec(a.name) < sec(b.name); });
}
inline Source gen_source(Rng& r, const World& w, ValueIds& ids, bool allow_repeat) {
    Source s; s.kind = (SrcKind)r.below(N_SRC); s.groups = r.chance(60) ? 3 : 1 + (int)r.below(2);
    unsigned n = r.below(6);
    std::map<int, int> seen; std::map<int, bool> bare;
    for (unsigned i = 0; i < n; ++i) {
        int oi = (int)r.below((unsigned)w.t.size()); const Rich& o = w.t[(size_t)oi];
        if (!w.in(o, s.groups)) continue;
        Occ c; c.opt = oi; c.name = r.pick(o.longs);
        bool cmd = s.kind == S_CMD || s.kind == S_CMD_CI;
        if (o.flag()) { c.bare = true; if (!cmd) { if (o.ty == T_UFLAG) c.vals.push_back(value_for(r, T_STR, ids)); else c.vals.push_back(value_for(r, T_SWITCH, ids)); c.bare = false; } }
        else if (o.has_impl && cmd && r.chance(50)) c.bare = true;
        else { unsigned k = o.multi && cmd ? 1 + r.below(3) : 1; for (unsigned j = 0; j < k; ++j) c.vals.push_back(value_for(r, o.ty, ids)); }
        if (seen[oi]) {
            // repeated options with an implicit value are known finding F12
            if (o.has_impl && (c.bare || bare[oi])) continue;
            if (!is_vec(o.ty)) { if (!allow_repeat || !r.chance(25)) continue; s.repeated = true; }
        }
        ++seen[oi]; if (c.bare) bare[oi] = true;
        s.occ.push_back(c);
    }
    order_cfg(s);
    return s;
}
inline po::parsed_options parse_source(Rng& r, const World& w, const Source& s) {
    const po::options_description& d = w.desc(s.groups);
    if (s.kind == S_CMD || s.kind == S_CMD_CI) {
        vector<string> a;
        int style = st::unix_style | (s.kind == S_CMD_CI ? st::case_insensitive : 0);
        for (auto& o : s.occ) {
            const Rich& x = w.t[(size_t)o.opt];
            string n = "--" + (s.kind == S_CMD_CI ? swapcase(r, o.name) : o.name);
            if (x.sh && r.chance(30)) n = string("-") + x.sh;
            if (o.bare) { a.push_back(n); continue; }
            if (r.chance(50) && !o.vals[0].empty()) { a.push_back(n + (n[1] == '-' ? "=" : "") + o.vals[0]); } else { a.push_back(n); a.push_back(o.vals[0]); }
            for (size_t j = 1; j < o.vals.size(); ++j) a.push_back(o.vals[j]);
        }
        return po::command_line_parser(a).options(d).style(style).run();
    }
    if (s.kind == S_CFG) {
        string text, sec;
        for (auto& o : s.occ) for (auto& v : o.vals) {
            size_t p = o.name.find('.'); string se = p == string::npos || (sec.empty() && r.chance(40)) ? string() : o.name.substr(0, p);
            if (!se.empty() && se != sec) { sec = se; text += "[" + se + "]\n"; }
            const char* eq = r.chance(50) ? " = " : "="; const char* tail = r.chance(20) ? "  # c" : "";
            text += (se.empty() ? o.name : o.name.substr(p + 1)) + eq + v + tail + "\n";
        }
        std::istringstream is(text);
        return po::parse_config_file(is, d);
    }
    // environment, through the iterator-independent interface of the library
    po::parsed_options p(&d);
    for (auto& o : s.occ) for (auto& v : o.vals) { po::option x; x.string_key = o.name; x.value.push_back(v); p.options.push_back(x); }
    return p;
}
// the reference map
struct Entry { bool defaulted = false; vector<string> parts; string text; };
struct RefMap {
    std::map<string, Entry> m; std::set<string> fin; std::map<string, bool> required;
    static string scalar(Ty ty, const string& v) {
        switch (ty) {
        case T_INT: return "i" + v; case T_DBL: { char b[64]; snprintf(b, sizeof b, "d%.17g", atof(v.c_str())); return b; }
        case T_SWITCH: case T_BOOL: { string l = lower(v); return l == "1" || l == "true" || l == "yes" || l == "on" ? "true" : "false"; }
        default: return "s" + mon::show(v); }
    }
    static string render(const Rich& o, const vector<string>& parts) {
        if (o.ty == T_VSTR) return "v" + mon::show(parts);
        string r = "vi["; for (auto& p : parts) r += p + " "; return r + "]";
    }
    // false: the source is refused (a scalar repeated), nothing changes
    bool store(const World& w, const Source& s) {
        std::map<string, Entry> n; std::set<string> nf(fin);
        for (auto& o : s.occ) {
            const Rich& x = w.t[(size_t)o.opt]; string k = x.key();
            if (fin.count(k)) continue;
            bool had = n.count(k) != 0;
            if (!had) { auto it = m.find(k); if (it != m.end() && !it->second.defaulted) { n[k] = it->second; had = true; } }
            Entry& e = n[k];
            if (is_vec(x.ty)) {
                if (o.bare) e.text = x.impl_text;
                else { e.parts.insert(e.parts.end(), o.vals.begin(), o.vals.end()); e.text = render(x, e.parts); }
            } else {
                if (had) return false;
                e.text = o.bare ? (x.ty == T_SWITCH ? "true" : x.ty == T_UFLAG ? "s\"\"" : x.impl_text) : scalar(x.ty, o.vals[0]);
            }
            if (!x.composing) nf.insert(k);
        }
        for (auto& e : n) m[e.first] = e.second;
        fin = nf;
        for (auto& x : w.t) if (w.in(x, s.groups)) {
            if (x.has_def && !m.count(x.key())) { Entry e; e.defaulted = true; e.text = x.def_text; m[x.key()] = e; }
            if (x.required) required[x.key()] = true;
        }
        return true;
    }
    string text() const { string r; for (auto& e : m) r += e.first + (e.second.defaulted ? "(d)=" : "=") + e.second.text + ";"; return r; }
};
} // namespace cli
