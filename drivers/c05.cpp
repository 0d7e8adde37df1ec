// C05: name resolution against the documented rule, independent of declaration order.
#include "cli.hpp"
#include <algorithm>
using namespace cli; using mon::Ctx;

static vector<string> near_pool(Rng& r) {
    // names built to collide: prefixes, extensions, case variants
    static const vector<string> stems = {"foo", "f", "ba", "verbose", "x", "Out", "-odd", "n", "a.b", "\xd1\x84"};
    vector<string> p; string s = r.pick(stems);
    static const vector<string> ext = {"", "b", "bar", "-baz", "B", "BAR", "1", "o", "O"};
    for (auto& e : ext) { p.push_back(s + e); string u = s + e; for (char& ch : u) if (ch >= 'a' && ch <= 'z') ch = char(ch - 32); p.push_back(u); }
    return p;
}
struct Got { int kind; string key; vector<string> alts; };   // 0 none 1 found 2 ambiguous 3 unknown thrown
static Got ask(const po::options_description& d, const string& n, bool g, bool lci, bool sci, bool nothrow) {
    Got r; r.kind = 0;
    try {
        if (nothrow) { const po::option_description* o = d.find_nothrow(n, g, lci, sci); if (o) { r.kind = 1; r.key = o->key(n); } }
        else { r.key = d.find(n, g, lci, sci).key(n); r.kind = 1; }
    } catch (const po::ambiguous_option& e) { r.kind = 2; r.alts = e.alternatives(); std::sort(r.alts.begin(), r.alts.end()); }
    catch (const po::unknown_option&) { r.kind = 3; }
    return r;
}
static void random_case(Ctx& c) {
    Rng& r = c.r;
    Table t;
    if (r.chance(40)) { GenOpt g; g.wild = r.chance(50); g.need_short = r.chance(50); t = gen_table(r, g); }
    else {
        vector<string> p = near_pool(r); const bool large = r.chance(4); unsigned n = large ? 10 + r.below(60) : 1 + r.below(6);
        for (unsigned i = 0; i < n; ++i) {
            Opt o; unsigned m = 1 + r.below(large && r.chance(10) ? 30 : 3);
            for (unsigned j = 0; j < m; ++j) o.longs.push_back(r.pick(p) + (large && r.chance(90) ? std::to_string(r.below(1000)) : string()));
            if (r.chance(20)) o.longs[0] += "*";
            if (r.chance(40)) o.sh = "fFbBxXnO"[r.below(8)];
            if (r.chance(8)) { o.longs.clear(); o.sh = "fFbBxXnO"[r.below(8)]; }
            // a last name of one letter would be read as the short name
            if (!o.sh && o.longs.size() > 1 && o.longs.back().size() == 1) o.longs.back() += "zz";
            t.push_back(o);
        }
    }
    bool groups = r.chance(40);
    // the same table in another order, and spread over groups
    vector<size_t> perm; for (size_t i = 0; i < t.size(); ++i) perm.push_back(i);
    r.shuffle(perm);
    po::options_description d, e, g1("g1"), g2("g2");
    build(t, d);
    for (size_t i : perm) { Table one(1, t[i]); build(one, groups ? (r.chance(50) ? g1 : g2) : e); }
    if (groups) { g1.add(g2); e.add(g1); }
    for (int k = 0; k < 12; ++k) {
        const Opt& o = t[r.below((unsigned)t.size())];
        string n;
        if (o.sh && (o.longs.empty() || r.chance(25))) n = string("-") + (r.chance(80) ? o.sh : char(o.sh ^ 32));
        else {
            n = r.pick(o.longs.empty() ? long_pool() : o.longs);
            if (n.back() == '*' && r.chance(85)) { n.pop_back(); if (r.chance(60)) n += r.pick(long_pool()); }
            unsigned w = r.below(100);
            if (w < 35) n = n.substr(0, 1 + r.below((unsigned)n.size()));
            else if (w < 45) n += (char)('a' + r.below(26));
            else if (w < 55) n = r.pick(long_pool());
            if (r.chance(25)) n = swapcase(r, n);
        }
        if (n.empty()) continue;
        bool g = r.chance(50), lci = r.chance(40), sci = r.chance(40);
        c.cur = "options " + show(t) + " name " + mon::show(n) + (g ? " guess" : "") + (lci ? " long-ci" : "") + (sci ? " short-ci" : "");
        Lookup l = lookup(t, n, g, lci, sci);
        Got w; w.kind = l.r == Lookup::FOUND ? 1 : l.r == Lookup::AMBIG ? 2 : 0;
        if (w.kind == 1) w.key = t[(size_t)l.opt].key(n);
        w.alts = l.alts; std::sort(w.alts.begin(), w.alts.end());
        c.eval(); c.count(w.kind == 0 ? "unknown" : w.kind == 1 ? "found" : "ambiguous");
        for (int way = 0; way < 4; ++way) {
            bool nothrow = way & 1;
            Got x = ask(way & 2 ? e : d, n, g, lci, sci, nothrow);
            int want = w.kind == 0 && !nothrow ? 3 : w.kind;
            static const char* kn[] = {"nothing", "found", "ambiguous", "unknown_option"};
            string where = string(way & 2 ? "reordered " : "") + (nothrow ? "find_nothrow" : "find");
            if (x.kind != want) c.fail(string("resolution-") + kn[want] + "-got-" + kn[x.kind], where + " gives " + kn[x.kind] + " " + x.key + mon::show(x.alts) + " expected " + kn[want] + " " + w.key);
            else if (x.key != w.key) c.fail("wrong-option", where + " gives " + x.key + " expected " + w.key);
            else if (want == 2 && x.alts != w.alts) c.fail("candidates", where + " lists " + mon::show(x.alts) + " expected " + mon::show(w.alts));
        }
        // the command line resolves the same way
        // (except where the found option's own key is itself contested by a duplicate name)
        bool key_clear = true;
        if (w.kind == 1) { Lookup l2 = lookup(t, w.key, g, lci, sci); key_clear = l2.r == Lookup::FOUND && l2.opt == l.opt; }
        if (key_clear && n[0] != '-' && n.find('=') == string::npos) {
            int style = st::allow_long | st::long_allow_adjacent | st::long_allow_next | (g ? st::allow_guessing : 0) | (lci ? st::long_case_insensitive : 0) | (sci ? st::short_case_insensitive : 0);
            bool v = l.r == Lookup::FOUND && max_tok(t[(size_t)l.opt].ar) > 0;
            Outcome o2 = real_parse(d, {"--" + n + (v ? "=v" : "")}, style, false, 0);
            Err want = w.kind == 0 ? UNKNOWN : w.kind == 2 ? AMBIGUOUS : OK;
            if (o2.e != want) c.fail("parse-resolution", "parsing gives " + o2.desc() + " expected " + err_name(want));
            else if (want == OK && o2.opts[0].key != w.key) c.fail("parse-resolution", "parsing gives " + o2.desc() + " expected " + w.key);
            c.count("parsed");
            // and so does storing what was parsed, under the same case rule
            Lookup ls; if (want == OK) ls = lookup(t, w.key, false, lci, lci);
            // (prefixes that overlap leave the name contested when its case is respected)
            bool own = want == OK && o2.e == OK && ls.r == Lookup::FOUND && ls.opt == l.opt;
            if (own) { Lookup le = lookup(t, w.key, false, false, false); own = le.r == Lookup::NONE || (le.r == Lookup::FOUND && le.opt == l.opt); }
            if (own) {
                string text; po::variables_map m;
                try { vector<string> a(1, "--" + n + (v ? "=v" : "")); po::store(po::command_line_parser(a).options(d).style(style).run(), m); if (!m.count(w.key)) text = "stores nothing under " + mon::show(w.key); }
                catch (const po::unknown_option& e) { text = string("reports ") + e.what(); }
                catch (const po::ambiguous_option& e) { text = string("reports ") + e.what(); }
                catch (const po::error& ) { }   // its value may be unreadable
                if (!text.empty()) c.fail("store-resolution", "parsed as " + o2.desc() + " storing " + text);
                c.count("stored");
            }
        }
        // non-trivial: more than one option is touched by the name
        int touched = 0; if (t.size() > 12) touched = l.r == Lookup::AMBIG ? 2 : 0; else for (size_t i = 0; i < t.size(); ++i) { Table one(1, t[i]); if (lookup(one, n, true, true, true).r == Lookup::FOUND) ++touched; }
        if (touched > 1) { c.nontrivial(c.cur); c.count("contested"); if (c.want_sample()) c.sample(c.cur + " -> " + (w.kind == 1 ? w.key : w.kind == 2 ? "ambiguous " + mon::show(w.alts) : "unknown")); }
    }
}
// every name of up to three letters over {a,b}, all tables of two such options, all flags
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    vector<string> names;
    for (const char* a : {"a", "b", "A"}) { names.push_back(a); for (const char* b : {"a", "b", "B"}) { names.push_back(string(a) + b); } names.push_back(string(a) + "*"); names.push_back(string(a) + "b*"); }
    for (size_t i = 0; i < names.size(); ++i) f.push_back({"small-tables " + names[i], [=](Ctx& c) {
        for (auto& n2 : names) {
            Table t(2); t[0].longs.push_back(names[i]); t[1].longs.push_back(n2); t[1].sh = 'a'; t[0].ar = t[1].ar = FLAG;
            po::options_description d; build(t, d);
            for (int fl = 0; fl < 8; ++fl) for (const char* q : {"a", "b", "A", "aa", "ab", "AB", "aB", "ba", "abc", "bb", "-a", "-A", "B"}) {
                Lookup l = lookup(t, q, fl & 1, (fl & 2) != 0, (fl & 4) != 0);
                Got x = ask(d, q, fl & 1, (fl & 2) != 0, (fl & 4) != 0, true);
                c.eval();
                c.cur = "options " + show(t) + " name " + q + " flags " + std::to_string(fl);
                vector<string> al = l.alts; std::sort(al.begin(), al.end());
                int want = l.r == Lookup::FOUND ? 1 : l.r == Lookup::AMBIG ? 2 : 0;
                if (x.kind != want || (want == 1 && x.key != t[(size_t)l.opt].key(q)) || (want == 2 && x.alts != al)) c.fail("small-tables", "resolution differs: got kind " + std::to_string(x.kind) + " " + x.key + mon::show(x.alts));
                c.nontrivial(c.cur);
            }
        }
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
