// Abstract command lines (items: option + values, or positional) and their permitted spellings.
#pragma once
#include "cli.hpp"
namespace cli {
struct Item { int opt = -1; vector<string> vals; };   // opt -1: positional argument
inline string show(const vector<Item>& v, const Table& t) { string r; for (auto& i : v) { r += " "; r += i.opt < 0 ? string("positional") : t[(size_t)i.opt].decl(); r += mon::show(i.vals); } return r; }

struct Speller {
    const Table& t; int style; Rng& r;
    Model m;
    std::map<string, unsigned> used;      // which kinds of spelling were used
    Speller(const Table& t_, int s, Rng& r_) : t(t_), style(s), r(r_), m{t_, s, false, 0, {}} {}
    bool has(int f) const { return (style & f) != 0; }
    bool dash() const { return has(st::allow_short) && has(st::allow_dash_for_short); }
    bool slash() const { return has(st::allow_short) && has(st::allow_slash_for_short); }
    bool guess() const { return has(st::allow_guessing); }

    bool is_syntactic(const string& s) const { try { return !m.syntactic(s).empty(); } catch (const ModelError&) { return true; } }
    bool plain(const string& s) const { return s != "--" && !is_syntactic(s); }
    // may stand in the argument behind an option that requires a value
    bool next_ok(const string& s) const {
        try { if (m.syntactic(s).empty()) return true; } catch (const ModelError&) { return false; }
        return m.find(s).r == Lookup::NONE;
    }
    bool resolves(const string& name, int opt) const { Lookup l = m.find(name); return l.r == Lookup::FOUND && l.opt == opt; }
    // a permitted spelling of a long name
    bool long_name(int opt, string& out) {
        const Opt& o = t[(size_t)opt];
        if (o.longs.empty()) return false;
        for (int k = 0; k < 4; ++k) {
            string n = r.pick(o.longs); const char* kind = "full-name";
            if (n != o.longs[0]) kind = "alias";
            if (guess() && r.chance(35)) { n = n.substr(0, 1 + r.below((unsigned)n.size())); kind = "abbreviation"; }
            if (has(st::long_case_insensitive) && r.chance(50)) { n = swapcase(r, n); kind = "letter-case"; }
            if (n.find('=') != string::npos || !resolves(n, opt)) continue;
            ++used[kind]; out = n; return true;
        }
        if (!resolves(o.longs[0], opt)) return false;
        out = o.longs[0]; ++used["full-name"]; return true;
    }
    bool disguise_hit(const string& tok) const {
        if (!has(st::allow_long_disguise) || tok.size() < 2) return false;
        if (!(tok[0] == '-' && tok[1] != '-') && !(tok[0] == '/' && has(st::allow_slash_for_short))) return false;
        if (tok[1] == '=') return false;
        string b = tok.substr(1);
        return m.find(b.substr(0, b.find('='))).r != Lookup::NONE;
    }
    char short_char(int opt) {
        char c = t[(size_t)opt].sh;
        if (has(st::short_case_insensitive) && r.chance(50)) { char d = swapcase(r, string(1, c))[0]; Lookup l = lookup(t, string("-") + d, false, false, true); if (l.r == Lookup::FOUND && l.opt == opt) { if (d != c) ++used["short-letter-case"]; c = d; } }
        Lookup l = lookup(t, string("-") + c, false, false, has(st::short_case_insensitive));
        return l.r == Lookup::FOUND && l.opt == opt ? c : 0;
    }
    // spells one option item; false if the style has no way to do it
    bool one(const Item& it, vector<string>& out) {
        const Opt& o = t[(size_t)it.opt];
        bool val = !it.vals.empty();
        vector<int> ways = {0, 1, 2, 3, 4, 5, 6, 7};
        r.shuffle(ways);
        for (int w : ways) {
            vector<string> a; string n;
            bool adj = false;
            if (w == 0 || w == 1) {               // --name=value, --name value
                if (!has(st::allow_long) || !long_name(it.opt, n)) continue;
                adj = w == 0; n = "--" + n;
                if (val && adj) { if (!has(st::long_allow_adjacent) || it.vals[0].empty()) continue; n += "=" + it.vals[0]; }
                if (val && !adj && !has(st::long_allow_next)) continue;
            } else if (w == 2 || w == 3) {        // -name=value, /name value
                bool sl = r.chance(50);
                if (!has(st::allow_long_disguise) || (sl && !has(st::allow_slash_for_short)) || !long_name(it.opt, n) || n[0] == '-') continue;
                adj = w == 2; n = (sl ? "/" : "-") + n;
                if (val && adj) { if (!has(st::long_allow_adjacent) || it.vals[0].empty()) continue; n += "=" + it.vals[0]; }
                if (val && !adj && !has(st::long_allow_next)) continue;
            } else {                              // -xvalue, -x value, /xvalue, /x value
                bool sl = w >= 6; adj = w % 2 == 0;
                if (!o.sh || (sl ? !slash() : !dash())) continue;
                char c = short_char(it.opt);
                if (!c) continue;
                n = string(sl ? "/" : "-") + c;
                if (val && adj) { if (!has(st::short_allow_adjacent) || it.vals[0].empty()) continue; n += it.vals[0]; }
                if (val && !adj && !has(st::short_allow_next)) continue;
                if (disguise_hit(n)) continue;
                // adjacent text behind an option without value would be read as a group
                if (!sl && val && adj && max_tok(o.ar) == 0) continue;
                if (!val && !sl && has(st::allow_sticky) && dash()) {}
            }
            a.push_back(n);
            size_t k = val && adj ? 1 : 0;
            bool ok = true;
            for (; k < it.vals.size(); ++k) {
                bool required = k == 0 && min_tok(o.ar) == 1;
                if (required ? !next_ok(it.vals[k]) : !plain(it.vals[k])) { ok = false; break; }
                a.push_back(it.vals[k]);
            }
            if (!ok) continue;
            static const char* kinds[] = {"long-adjacent", "long-next", "disguised-adjacent", "disguised-next", "dash-short-adjacent", "dash-short-next", "slash-short-adjacent", "slash-short-next"};
            ++used[val ? kinds[w] : w < 2 ? "long-bare" : w < 4 ? "disguised-bare" : w < 6 ? "dash-short-bare" : "slash-short-bare"];
            out.insert(out.end(), a.begin(), a.end());
            return true;
        }
        return false;
    }
    // groups the short flags from item i on, ending optionally in a valued option; returns items consumed
    size_t group(const vector<Item>& v, size_t i, vector<string>& out) {
        if (!dash() || !has(st::allow_sticky)) return 0;
        string tok = "-"; size_t j = i;
        while (j < v.size() && v[j].opt >= 0 && t[(size_t)v[j].opt].sh && max_tok(t[(size_t)v[j].opt].ar) == 0 && tok.size() < 7) {
            char c = short_char(v[j].opt); if (!c || (tok.size() == 1 && c == '-')) break;
            tok += c; ++j;
        }
        if (j == i) return 0;
        vector<string> a;
        if (j < v.size() && v[j].opt >= 0 && t[(size_t)v[j].opt].sh && max_tok(t[(size_t)v[j].opt].ar) > 0 && r.chance(70)) {
            const Item& it = v[j]; const Opt& o = t[(size_t)it.opt];
            char c = short_char(it.opt);
            if (c) {
                string e = string(1, c); bool ok = true; size_t k = 0; vector<string> more;
                if (!it.vals.empty() && !it.vals[0].empty() && has(st::short_allow_adjacent) && r.chance(60)) { e += it.vals[0]; k = 1; }
                else if (!it.vals.empty() && !has(st::short_allow_next)) ok = false;
                for (; ok && k < it.vals.size(); ++k) { if (k == 0 && min_tok(o.ar) == 1 ? !next_ok(it.vals[k]) : !plain(it.vals[k])) ok = false; more.push_back(it.vals[k]); }
                if (ok && !disguise_hit(tok + e)) { out.push_back(tok + e); out.insert(out.end(), more.begin(), more.end()); ++used["group-with-value"]; return j + 1 - i; }
            }
        }
        if (j - i < 2 || disguise_hit(tok)) return 0;
        out.push_back(tok); ++used["group"];
        return j - i;
    }
    bool spell(const vector<Item>& v, vector<string>& out) {
        out.clear();
        for (size_t i = 0; i < v.size();) {
            if (v[i].opt < 0) { if (!plain(v[i].vals[0])) return false; out.push_back(v[i].vals[0]); ++i; continue; }
            if (r.chance(60)) { size_t g = group(v, i, out); if (g) { i += g; continue; } }
            if (!one(v[i], out)) return false;
            ++i;
        }
        return true;
    }
    vector<Item> items(unsigned maxn, bool positionals = true) {
        vector<Item> v; unsigned n = 1 + r.below(maxn);
        bool open = false;     // the previous item would take a positional argument
        for (unsigned i = 0; i < n; ++i) {
            Item it;
            if (positionals && !open && r.chance(22)) {
                string s = r.chance(60) ? plain_value(r) : gen_value(r);
                if (!plain(s)) continue;
                it.vals.push_back(s); v.push_back(it); continue;
            }
            it.opt = (int)r.below((unsigned)t.size());
            const Opt& o = t[(size_t)it.opt];
            auto v1 = [&] { return r.chance(45) ? plain_value(r) : gen_value(r); };
            open = false;
            switch (o.ar) {
            case FLAG: case SWITCH: break;
            case ONE: case UNTYPED1: case VEC: it.vals.push_back(v1()); break;
            case IMPL: if (r.chance(50)) it.vals.push_back(v1()); else open = true; break;
            default: {
                unsigned k = (o.ar == MULTI ? 1 : 0) + r.below(4);
                for (unsigned j = 0; j < k; ++j) it.vals.push_back(j == 0 && min_tok(o.ar) ? v1() : plain_value(r));
                open = true; }
            }
            v.push_back(it);
        }
        return v;
    }
};

// canonical text of a variables map, for comparisons
inline string any_text(const boost::any& a) {
    if (a.empty()) return "<empty>";
    if (const string* s = boost::any_cast<string>(&a)) return "s" + mon::show(*s);
    if (const vector<string>* s = boost::any_cast<vector<string> >(&a)) return "v" + mon::show(*s);
    if (const bool* s = boost::any_cast<bool>(&a)) return *s ? "true" : "false";
    if (const int* s = boost::any_cast<int>(&a)) return "i" + std::to_string(*s);
    if (const vector<int>* s = boost::any_cast<vector<int> >(&a)) { string r = "vi["; for (int x : *s) r += std::to_string(x) + " "; return r + "]"; }
    if (const double* s = boost::any_cast<double>(&a)) { char b[64]; snprintf(b, sizeof b, "d%.17g", *s); return b; }
    if (const std::wstring* s = boost::any_cast<std::wstring>(&a)) return "w" + mon::show(*s);
    if (const vector<std::wstring>* s = boost::any_cast<vector<std::wstring> >(&a)) return "vw" + mon::show(*s);
    return "?";
}
inline string map_text(const po::variables_map& vm) {
    string r;
    for (auto& e : vm) r += e.first + (e.second.defaulted() ? "(d)=" : "=") + any_text(e.second.value()) + ";";
    return r;
}
template<class T> string type_text(const T& e) {
#ifdef __GXX_RTTI
    return typeid(e).name();
#else
    return e.what();
#endif
}
inline string store_text(const po::parsed_options& p, po::variables_map* keep = 0) {
    po::variables_map vm;
    string r;
    try { po::store(p, vm); r = map_text(vm); }
    catch (const po::error& e) { r = string("error ") + type_text(e); }
    if (keep) *keep = vm;
    return r;
}
} // namespace cli
