// C27: names of an option and composition of option sets.
#include "cli.hpp"
#include <sstream>
#include <algorithm>
using namespace cli; using mon::Ctx;

struct Names { vector<string> longs; char sh = 0; string decl; };
// the documented reading of a name list
static Names read_names(const string& decl) {
    Names n; n.decl = decl;
    std::istringstream is(decl); string s;
    while (std::getline(is, s, ',')) n.longs.push_back(s);
    if (n.longs.size() > 1 && n.longs.back().size() == 1) { n.sh = n.longs.back()[0]; n.longs.pop_back(); if (n.longs.size() == 1 && n.longs[0].empty()) n.longs.clear(); }
    return n;
}
static string random_name(Rng& r) {
    if (r.chance(60)) return r.pick(long_pool()) + (r.chance(30) ? std::to_string(r.below(20)) : "");
    static const string cs = "abcxyzABC0129-_.:+/@ \xd1\x8f*=%'\"";
    string s; unsigned n = 1 + r.below(4); for (unsigned i = 0; i < n; ++i) s += cs[r.below((unsigned)cs.size())];
    return s;
}
static void check_option(Ctx& c, const po::option_description& o, const Names& n, const vector<string>& others, bool wild) {
    c.eval();
    auto ln = o.long_names();
    if (ln.second != n.longs.size()) { c.fail("long-names", std::to_string(ln.second)); return; }
    for (size_t i = 0; i < ln.second; ++i) if (ln.first[i] != n.longs[i]) c.fail("long-names", ln.first[i]);
    if (o.long_name() != (n.longs.empty() ? string() : n.longs[0])) c.fail("long-name", o.long_name());
    string sh = n.sh ? string("-") + n.sh : string();
    string want_fmt = n.longs.empty() ? sh : n.sh ? sh + " [ --" + n.longs[0] + " ]" : "--" + n.longs[0];
    if (o.format_name() != want_fmt) c.fail("format-name", o.format_name() + " expected " + want_fmt);
    // key
    string first = n.longs.empty() ? sh : n.longs[0];
    string given = "given-name";
    if (o.key(given) != (!n.longs.empty() && first.find('*') != string::npos ? given : first)) c.fail("key", o.key(given));
    // display
    if (!n.longs.empty()) {
        if (o.canonical_display_name(st::allow_long) != "--" + first) c.fail("display-long", o.canonical_display_name(st::allow_long));
        if (o.canonical_display_name(st::allow_long_disguise) != "-" + first) c.fail("display-disguise", o.canonical_display_name(st::allow_long_disguise));
        if (o.canonical_display_name() != first || o.canonical_display_name(0) != first) c.fail("display-plain", o.canonical_display_name());
        if (!n.sh) for (int s : {st::allow_slash_for_short, st::allow_dash_for_short}) if (o.canonical_display_name(s) != first) c.fail("display-short-of-long", o.canonical_display_name(s));
    } else for (int s : {0, (int)st::allow_long, (int)st::allow_long_disguise}) if (po::strip_prefixes(o.canonical_display_name(s)) != po::strip_prefixes(sh)) c.fail("display-of-short", o.canonical_display_name(s));
    if (n.sh) {
        if (o.canonical_display_name(st::allow_slash_for_short) != string("/") + n.sh) c.fail("display-slash", o.canonical_display_name(st::allow_slash_for_short));
        if (o.canonical_display_name(st::allow_dash_for_short) != string("-") + n.sh) c.fail("display-dash", o.canonical_display_name(st::allow_dash_for_short));
    }
    // answers to exactly its names
    typedef po::option_description OD;
    for (auto& l : n.longs) if (!l.empty()) for (int fl = 0; fl < 8; ++fl) {
        OD::match_result m = o.match(l, fl & 1, fl & 2, fl & 4);
        if (m != OD::full_match) c.fail("own-name-not-matched", l + " flags " + std::to_string(fl));
        if ((fl & 2) && o.match(swapcase(c.r, l), fl & 1, true, fl & 4) != OD::full_match) c.fail("own-name-in-other-case-not-matched", l);
    }
    if (n.sh) for (int fl = 0; fl < 8; ++fl) {
        if (o.match(sh, fl & 1, fl & 2, fl & 4) != OD::full_match) c.fail("own-short-not-matched", sh);
        if ((fl & 4) && o.match(lower(sh), false, fl & 2, true) != OD::full_match) c.fail("own-short-in-other-case-not-matched", sh);
    }
    if (!wild) for (auto& q : others) {
        bool mine = std::find(n.longs.begin(), n.longs.end(), q) != n.longs.end() || (n.sh && q == sh);
        if (q.empty()) mine = false;
        bool got = o.match(q, false, false, false) != OD::no_match;
        if (mine != got) c.fail(mine ? "name-refused" : "foreign-name-matched", q);
        c.count("names-tried");
    }
}
static void names_case(Ctx& c) {
    Rng& r = c.r;
    string decl; unsigned k = r.chance(3) ? 5 + r.below(40) : 1 + r.below(4);
    vector<string> parts;
    for (unsigned i = 0; i < k; ++i) { string s = random_name(r); parts.push_back(s); }
    bool with_short = r.chance(60);
    if (with_short && r.chance(15)) parts.assign(1, "");      // ",x"
    if (with_short) parts.push_back(string(1, short_pool()[r.below((unsigned)short_pool().size())]));
    if (r.chance(4)) parts.insert(parts.begin() + 1 + r.below((unsigned)parts.size()), "");
    if (parts.size() == 1 && parts[0].empty()) parts[0] = "x";
    for (size_t i = 0; i < parts.size(); ++i) { if (i) decl += ','; decl += parts[i]; }
    bool wild = false; for (auto& p : parts) if (p.find('*') != string::npos) wild = true;
    Names n = read_names(decl);
    if (n.longs.size() && n.longs[0].empty()) return;         // an empty first name beside others means nothing
    c.cur = "names " + mon::show(decl);
    string text = gen_value(r); text.erase(std::remove(text.begin(), text.end(), '\0'), text.end());
    po::value_semantic* sem = semantic((Arity)r.below(N_ARITY));
    po::option_description o(decl.c_str(), sem, text.c_str());
    if (o.description() != text) c.fail("description", o.description());
    if (o.semantic().get() != sem) c.fail("semantic", "another object");
    if (o.format_parameter() != (sem->max_tokens() ? sem->name() : string())) c.fail("format-parameter", o.format_parameter());
    vector<string> others;
    for (auto& p : parts) { others.push_back(p); others.push_back("-" + p); others.push_back("--" + p); if (p.size() > 1) others.push_back(p.substr(0, p.size() - 1)); others.push_back(p + "x"); others.push_back(swapcase(r, p)); }
    others.push_back(decl); others.push_back("-"); others.push_back("");
    check_option(c, o, n, others, wild);
    if (n.longs.size() + (n.sh ? 1 : 0) >= 2) { c.nontrivial(c.cur); c.count("several-names"); }
    // the same through parsing
    if (!wild) {
        po::options_description d; d.add_options()(decl.c_str(), new po::untyped_value(true), "d");
        auto parse = [&](const string& a) -> string { try { auto p = po::command_line_parser(vector<string>(1, a)).options(d).style(st::unix_style & ~st::allow_guessing).run(); return p.options.size() == 1 ? p.options[0].string_key : string("?"); } catch (const std::exception& e) { return string("error ") + e.what(); } };
        string key = n.longs.empty() ? string("-") + n.sh : n.longs[0];
        for (auto& l : n.longs) if (!l.empty() && l.find('=') == string::npos) { c.count("parsed-names"); if (parse("--" + l) != key) c.fail("parse-long", l + " gives " + parse("--" + l)); }
        if (n.sh && n.sh != '-') { c.count("parsed-names"); if (parse(string("-") + n.sh) != key) c.fail("parse-short", parse(string("-") + n.sh)); }
    }
}

// ---- composition ----
struct Item { int id; int group; };                        // group: index into groups, -1 none
struct Set { string caption; vector<Item> items; vector<Set> groups; };
static vector<int> ids(const Set& s) { vector<int> r; for (auto& i : s.items) r.push_back(i.id); return r; }
static void listing(const Set& s, vector<string>& out) {
    if (!s.caption.empty()) out.push_back(s.caption + ":");
    for (auto& i : s.items) if (i.group < 0) out.push_back("o" + std::to_string(i.id));
    for (auto& g : s.groups) { out.push_back(""); listing(g, out); }
}
struct Decl { string decl; vector<string> names; };
static vector<string> printed(const po::options_description& d) {
    std::ostringstream os; os << d; string l; vector<string> out; std::istringstream is(os.str());
    while (std::getline(is, l)) {
        size_t a = l.find_first_not_of(' ');
        if (a == string::npos) { out.push_back(""); continue; }
        if (a == 0) { out.push_back(l); continue; }
        size_t b = l.find("id<"); if (b == string::npos) { out.push_back("?" + l); continue; }
        out.push_back("o" + l.substr(b + 3, l.find('>', b) - b - 3));
    }
    return out;
}
static void compose_case(Ctx& c) {
    Rng& r = c.r;
    unsigned nd = 1 + r.below(5);
    vector<std::unique_ptr<po::options_description> > d; vector<Set> ref;
    for (unsigned i = 0; i < nd; ++i) { Set s; if (r.chance(60)) s.caption = "Caption " + std::to_string(i); ref.push_back(s); d.emplace_back(s.caption.empty() ? new po::options_description() : new po::options_description(s.caption)); }
    vector<Decl> decls; vector<boost::shared_ptr<po::option_description> > objs;
    bool big = r.chance(3); unsigned steps = big ? 40 + r.below(120) : 3 + r.below(14); string hist; unsigned adds = 0; bool grown_later = false;
    std::set<string> used; std::set<unsigned> added;
    string shorts = "abcdefghijklmnopqrstuvwxyz"; size_t ns = 0;
    for (unsigned s = 0; s < steps; ++s) {
        unsigned i = r.below(nd);
        unsigned op = r.below(100);
        if (op < 55) {
            Decl x; int id = (int)decls.size();
            string l = "n" + std::to_string(id) + "x"; x.names.push_back(l); x.decl = l;
            if (r.chance(25)) { x.names.push_back("alias" + std::to_string(id)); x.decl += ",alias" + std::to_string(id); }
            if (ns < shorts.size() && r.chance(40)) { char ch = shorts[ns++]; x.decl += string(",") + ch; x.names.push_back(string("-") + ch); }
            string desc = "id<" + std::to_string(id) + ">";
            unsigned how = r.below(4);
            if (how == 0) d[i]->add_options()(x.decl.c_str(), desc.c_str());
            else if (how == 1) d[i]->add_options()(x.decl.c_str(), po::value<int>(), desc.c_str());
            else if (how == 2) { po::options_description_easy_init e = d[i]->add_options(); e(x.decl.c_str(), po::value<vector<string> >()->multitoken(), desc.c_str()); }
            else d[i]->add(boost::shared_ptr<po::option_description>(new po::option_description(x.decl.c_str(), new po::untyped_value(), desc.c_str())));
            objs.push_back(d[i]->options().back()); decls.push_back(x);
            ref[i].items.push_back(Item{id, -1}); hist += " d" + std::to_string(i) + "+" + x.decl;
            if (added.count(i)) grown_later = true;
        } else if (op < 65 && !objs.empty()) {
            // the same object once more in another set
            int id = (int)r.below((unsigned)objs.size()); vector<int> v = ids(ref[i]);
            if (std::find(v.begin(), v.end(), id) != v.end()) continue;
            d[i]->add(objs[(size_t)id]); ref[i].items.push_back(Item{id, -1}); hist += " d" + std::to_string(i) + "+(o" + std::to_string(id) + ")";
        } else if (op < 95 && nd > 1) {
            unsigned j = r.below(nd); if (j == i) continue;
            vector<int> a = ids(ref[i]), b = ids(ref[j]); bool overlap = false;
            for (int x : b) if (std::find(a.begin(), a.end(), x) != a.end()) overlap = true;
            if (overlap || a.size() + b.size() > (big ? 600u : 60u)) continue;
            po::options_description& back = d[i]->add(*d[j]);
            if (&back != d[i].get()) c.fail("add-returns", "not the set itself");
            Set copy = ref[j]; int g = (int)ref[i].groups.size(); ref[i].groups.push_back(copy);
            for (auto& x : copy.items) ref[i].items.push_back(Item{x.id, g});
            hist += " d" + std::to_string(i) + "<-d" + std::to_string(j); ++adds; added.insert(j);
        } else {
            // a copy replaces the set
            d[i].reset(new po::options_description(*d[i])); hist += " copy" + std::to_string(i);
        }
        c.cur = "program" + hist;
        for (unsigned k = 0; k < nd; ++k) {
            c.eval();
            vector<int> want = ids(ref[k]); auto& got = d[k]->options();
            bool same = got.size() == want.size();
            for (size_t q = 0; same && q < want.size(); ++q) same = got[q] == objs[(size_t)want[q]];
            if (!same) { c.fail("options-sequence", "set " + std::to_string(k) + " has " + std::to_string(got.size()) + " options, expected " + std::to_string(want.size())); return; }
        }
    }
    for (unsigned k = 0; k < nd; ++k) {
        vector<int> have = ids(ref[k]);
        for (size_t id = 0; id < decls.size(); ++id) for (auto& nm : decls[id].names) {
            bool in = std::find(have.begin(), have.end(), (int)id) != have.end();
            const po::option_description* f = d[k]->find_nothrow(nm, false);
            c.count(in ? "found" : "absent");
            if (f != (in ? objs[id].get() : 0)) c.fail(in ? "not-found" : "found-elsewhere", nm + " in set " + std::to_string(k));
        }
        vector<string> want, got = printed(*d[k]); listing(ref[k], want);
        if (want != got) c.fail("listing", "set " + std::to_string(k) + " prints " + mon::show(got) + " expected " + mon::show(want));
        if (printed(*d[k]) != got) c.fail("listing-changes", "second print differs");
        if (ref[k].groups.size() > 1) c.count("several-groups");
        for (auto& g : ref[k].groups) if (!g.groups.empty()) c.count("nested-groups");
    }
    if (grown_later) c.count("grown-after-being-added");
    if (adds >= 2) { c.nontrivial(c.cur); if (c.want_sample()) c.sample(c.cur); }
}
static void random_case(Ctx& c) { if (c.r.chance(60)) names_case(c); else compose_case(c); }
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"one-character names", [](Ctx& c) {
        // every printable character as short name, alone and beside long names
        for (int ch = 33; ch < 127; ++ch) if (ch != ',' && ch != '*') for (const char* pre : {"", "ab", "ab,cd", "q"}) {
            string decl = string(pre) + "," + (char)ch; c.cur = "names " + decl; c.count("short-characters"); c.nontrivial(c.cur);
            po::option_description o(decl.c_str(), new po::untyped_value(true));
            vector<string> others; for (int x = 33; x < 127; ++x) others.push_back(string("-") + (char)x);
            check_option(c, o, read_names(decl), others, false);
        }
    }});
    f.push_back({"deep nesting", [](Ctx& c) {
        po::options_description* cur = new po::options_description("level 0"); cur->add_options()("opt0", "id<0>");
        vector<std::unique_ptr<po::options_description> > keep; keep.emplace_back(cur);
        for (int i = 1; i < 40; ++i) {
            auto* n = new po::options_description("level " + std::to_string(i)); keep.emplace_back(n);
            n->add_options()(("opt" + std::to_string(i)).c_str(), ("id<" + std::to_string(i) + ">").c_str());
            n->add(*cur); cur = n;
            c.cur = "depth " + std::to_string(i); c.eval();
            for (int j = 0; j <= i; ++j) if (!cur->find_nothrow("opt" + std::to_string(j), false)) c.fail("deep-not-found", std::to_string(j));
            vector<string> want, got = printed(*cur);
            for (int j = i; j >= 0; --j) { if (j != i) want.push_back(""); want.push_back("level " + std::to_string(j) + ":"); want.push_back("o" + std::to_string(j)); }
            if (got != want) c.fail("deep-listing", mon::show(got));
        }
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
