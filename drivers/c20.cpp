// C20: the same text parsed narrow and wide, and stored into narrow and wide options.
#include "world.hpp"
#include "utf8.hpp"
#include <sstream>
using namespace cli; using mon::Ctx; typedef std::wstring W;
static W wide(const string& s) { return u8::dec(s); }
static vector<W> wide(const vector<string>& v) { vector<W> r; for (auto& s : v) r.push_back(u8::dec(s)); return r; }
static string text(const po::option& o) { return mon::show(o.string_key) + " pos " + std::to_string(o.position_key) + (o.unregistered ? " unreg" : "") + (o.case_insensitive ? " ci " : " ") + mon::show(wide(o.value)) + mon::show(wide(o.original_tokens)) + ";"; }
static string text(const po::woption& o) { return mon::show(o.string_key) + " pos " + std::to_string(o.position_key) + (o.unregistered ? " unreg" : "") + (o.case_insensitive ? " ci " : " ") + mon::show(o.value) + mon::show(o.original_tokens) + ";"; }
static string error() { try { throw; } catch (const std::exception& e) { return string("throws ") + typeid(e).name() + " " + e.what(); } }
template<class P> string text(const P& p) { string r; for (auto& o : p.options) r += text(o); return r; }
static bool f14(const po::parsed_options& p) { for (auto& o : p.options) if (o.unregistered && o.string_key.size() == 2 && (o.string_key[1] & 0x80)) return true; return false; }
static const vector<string>& uni() { static const vector<string> v = {"\xd1\x8f", "gr\xc3\xb6\xc3\x9f" "e", "\xe2\x82\xac\xe2\x82\xac", "\xf0\x9f\x98\x80", "a\xcc\x81", "\xef\xbb\xbf", "na\xc3\xafve=\xc3\xa9", "long text that is more than thirty-two \xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e \xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e characters", "\xc2\xa0", "\xc4\xb1\xc4\xb0"}; return v; }
static string uvalue(Rng& r) { string s = u8::clean(r.chance(50) ? plain_value(r) : gen_value(r)); if (r.chance(40)) s = r.pick(uni()); else if (r.chance(15)) s += r.pick(uni()); if (r.chance(5)) s = r.pick(uni()) + s; return s; }
struct Locale { std::locale old; Locale(const char* n) : old(std::locale::global(std::locale(n))) {} ~Locale() { std::locale::global(old); } };

// users' parsers, given to both: "+Nname a b ..." takes N arguments; "@name:value"
static vector<po::option> several(vector<string>& a) {
    vector<po::option> r;
    if (a[0].size() < 3 || a[0][0] != '+' || a[0][1] < '0' || a[0][1] > '9') return r;  // a parser's option has a name
    size_t n = std::min<size_t>((size_t)(a[0][1] - '0'), a.size() - 1);
    po::option o; o.string_key = a[0].substr(2); o.value.assign(a.begin() + 1, a.begin() + 1 + (long)n); if (n % 2 == 0) o.original_tokens.assign(a.begin(), a.begin() + 1 + (long)n);
    a.erase(a.begin(), a.begin() + 1 + (long)n); r.push_back(o); return r;
}
static std::pair<string, string> at(const string& s) { if (s.size() < 2 || s[0] != '@') return std::make_pair(string(), string()); size_t e = s.find(':'); return e == string::npos ? std::make_pair(s.substr(1), string()) : std::make_pair(s.substr(1, e - 1), s.substr(e + 1)); }
static void command_lines(Ctx& c) {
    Rng& r = c.r; Locale l(r.chance(70) ? "C.utf8" : "C");
    GenOpt g; g.wild = r.chance(30); Table t = gen_table(r, g);
    for (auto& o : t) if (!o.longs.empty() && r.chance(15)) { static const vector<string> n = {"gr\xc3\xb6\xc3\x9f" "e", "\xd0\xb8\xd0\xbc\xd1\x8f", "stra\xc3\x9f" "e", "\xe5\x90\x8d"}; o.longs[0] = r.pick(n) + std::to_string(&o - &t[0]); }
    po::options_description d; build(t, d);
    for (int k = 0; k < 3; ++k) {
        int style = gen_style(r); bool unreg = r.chance(45); Pos pos = gen_pos(r, t, 40);
        vector<string> a = r.chance(50) ? gen_args(r, t) : gen_good_args(r, t, style);
        for (auto& s : a) { s = u8::clean(s); if (r.chance(25)) { if (s.size() < 2 || (s[0] != '-' && s[0] != '/')) s = uvalue(r); else { size_t q = s.find('='); if (q != string::npos) s.resize(q + 1); else if (s[1] == '-') s += '='; else if (!(s[1] & 0x80)) s.resize(2); s += uvalue(r); } } if (r.chance(3)) s = "--" + r.pick(uni()); if (r.chance(2)) s = "-" + r.pick(uni()); }
        unsigned custom = r.chance(25) ? 1 + r.below(3) : 0;
        if (custom) for (int q = 0; q < 2; ++q) { const Opt& o = r.pick(t); string nm = o.longs.empty() || r.chance(30) ? "unk" : r.pick(o.longs); a.insert(a.begin() + r.below((unsigned)a.size() + 1), r.chance(50) ? "+" + std::to_string(r.below(4)) + nm : "@" + nm + (r.chance(60) ? ":" + uvalue(r) : "")); c.count("user-parsers"); }
        c.cur = case_desc(t, a, style, unreg, &pos) + (custom ? " user parsers " + std::to_string(custom) : ""); c.eval();
        auto extend = [&](auto& p) { if (custom & 1) p.extra_parser(at); if (custom & 2) p.extra_style_parser(several); };
        po::positional_options_description pd = make_pos(pos);
        string n, w; po::parsed_options np(&d); po::wparsed_options wp{np}; bool nok = false, wok = false; vector<W> wa = wide(a);
        try { po::command_line_parser p(a); p.options(d).style(style); if (unreg) p.allow_unregistered(); if (pos.used) p.positional(pd); extend(p); np = p.run(); n = text(np); nok = true; } catch (const std::exception&) { n = error(); }
        if (nok && f14(np)) { c.count("F14-skipped"); continue; }
        try {
            if (r.chance(50)) { po::wcommand_line_parser p(wa); p.options(d).style(style); if (unreg) p.allow_unregistered(); if (pos.used) p.positional(pd); extend(p); wp = p.run(); }
            else { vector<const wchar_t*> av(1, L"prog"); for (auto& s : wa) av.push_back(s.c_str()); bool nul = false; for (auto& s : wa) if (s.find(L'\0') != W::npos) nul = true; if (nul) continue; av.push_back(0); po::wcommand_line_parser p((int)av.size() - 1, av.data()); p.options(d).style(style); if (unreg) p.allow_unregistered(); if (pos.used) p.positional(pd); extend(p); wp = p.run(); }
            w = text(wp); wok = true;
        } catch (const std::exception&) { w = error(); }
        bool ascii = true; for (auto& s : a) for (unsigned char ch : s) if (ch >= 128) ascii = false;
        c.count(nok ? "accepted" : "rejected"); if (!ascii) { c.count("non-ascii"); c.nontrivial(c.cur); if (nok && c.want_sample()) c.sample(c.cur + " -> " + w); }
        if (n != w) c.fail("command-line", "narrow " + n + " wide " + w);
        if (nok && wok) {
            if (text(wp.utf8_encoded_options) != n || wp.description != np.description) c.fail("utf8-form", text(wp.utf8_encoded_options));
            vector<string> u = po::collect_unrecognized(np.options, po::include_positional); vector<W> v = po::collect_unrecognized(wp.options, po::include_positional);
            if (wide(u) != v) c.fail("collected", mon::show(v) + " expected " + mon::show(wide(u)));
        }
    }
}
// narrow and wide semantics of the same types
enum K { STR, VSTR, INT, DBL, BOOL, VINT, SWITCHK, UNTK, NK };
static void declare(po::options_description& d, const string& n, K k, bool w) {
    auto add = [&](po::value_semantic* s) { d.add_options()(n.c_str(), s, "d"); };
    switch (k) {
    case STR: if (w) add(po::wvalue<W>()); else add(po::value<string>()); break;
    case VSTR: if (w) add(po::wvalue<vector<W> >()->multitoken()->composing()); else add(po::value<vector<string> >()->multitoken()->composing()); break;
    case INT: if (w) add(po::wvalue<int>()); else add(po::value<int>()); break;
    case DBL: if (w) add(po::wvalue<double>()); else add(po::value<double>()); break;
    case BOOL: if (w) add(po::wvalue<bool>()); else add(po::value<bool>()); break;
    case VINT: if (w) add(po::wvalue<vector<int> >()->multitoken()); else add(po::value<vector<int> >()->multitoken()); break;
    case SWITCHK: add(po::bool_switch()); break;
    default: add(new po::untyped_value());
    }
}
static string text(const po::variables_map& vm) {
    string r;
    for (auto& e : vm) { boost::any v = e.second.value(); string x; if (const W* s = boost::any_cast<W>(&v)) x = "s" + mon::show(*s); else if (const string* s = boost::any_cast<string>(&v)) x = "s" + mon::show(wide(*s)); else if (const vector<W>* s = boost::any_cast<vector<W> >(&v)) x = "v" + mon::show(*s); else if (const vector<string>* s = boost::any_cast<vector<string> >(&v)) x = "v" + mon::show(wide(*s)); else x = any_text(v); r += e.first + (e.second.defaulted() ? "(d)=" : "=") + x + ";"; }
    return r;
}
static void stores(Ctx& c) {
    Rng& r = c.r; bool utf8 = r.chance(65); Locale l(utf8 ? "C.utf8" : "C");
    vector<K> ks; unsigned n = 1 + r.below(5); for (unsigned i = 0; i < n; ++i) ks.push_back((K)r.below(NK));
    po::options_description dn, dw, dm; vector<bool> mixed;
    auto nm = [&](unsigned i) { return (i % 3 == 2 ? "s.o" : "o") + std::to_string(i); };
    for (unsigned i = 0; i < n; ++i) { mixed.push_back(r.chance(50)); declare(dn, nm(i), ks[i], false); declare(dw, nm(i), ks[i], true); declare(dm, nm(i), ks[i], mixed[i]); }
    bool cfg = r.chance(40), ascii = true, nonascii_string[2] = {false, false};     // into narrow, into wide (of the mixed set)
    vector<string> args; string conf;
    for (unsigned i = 0; i < n; ++i) {
        if (r.chance(25)) continue;
        unsigned m = (ks[i] == VSTR || ks[i] == VINT) ? 1 + r.below(3) : 1;
        for (unsigned j = 0; j < m; ++j) {
            string v;
            switch (ks[i]) { case INT: case VINT: v = std::to_string(r.range(-99, 9999)); break; case DBL: v = std::to_string(r.range(0, 99)) + ".25"; break; case BOOL: case SWITCHK: v = r.chance(50) ? "yes" : "off"; break; default: v = uvalue(r); }
            if (r.chance(12)) v = r.chance(50) ? r.pick(uni()) : "x" + v;               // not a value, for most types
            if (cfg) { string q; for (char ch : v) if (ch != '\n' && ch != '#' && ch != '\r') q += ch; size_t b = q.find_first_not_of(" \t"), e = q.find_last_not_of(" \t"); v = b == string::npos ? "" : q.substr(b, e - b + 1); conf += nm(i) + " = " + v + "\n"; }
            else if (ks[i] == SWITCHK) args.push_back("--" + nm(i));
            else { if (v.empty()) v = "e"; args.push_back("--" + nm(i) + "=" + v); }
            if (!(ks[i] == SWITCHK && !cfg)) for (unsigned char ch : v) if (ch >= 128) { ascii = false; nonascii_string[mixed[i] && ks[i] != SWITCHK && ks[i] != UNTK] = true; }
            if (ks[i] == SWITCHK || ks[i] == UNTK) break;
        }
    }
    c.cur = string("locale ") + (utf8 ? "C.utf8 " : "C ") + (cfg ? "config " + mon::show(conf) : "args " + mon::show(args)) + " types"; for (unsigned i = 0; i < n; ++i) c.cur += " " + std::to_string(ks[i]) + (mixed[i] ? "w" : "n");
    auto run = [&](const po::options_description& d, bool wsrc) -> string {
        try {
            po::variables_map vm;
            if (cfg) { if (wsrc) { std::wistringstream is(wide(conf)); po::store(po::parse_config_file(is, d), vm); } else { std::istringstream is(conf); po::store(po::parse_config_file(is, d), vm); } }
            else if (wsrc) po::store(po::wcommand_line_parser(wide(args)).options(d).run(), vm);
            else po::store(po::command_line_parser(args).options(d).run(), vm);
            po::notify(vm);
            return text(vm);
        } catch (const std::exception&) { return error(); }
    };
    c.eval();
    if (utf8 || ascii) {
        string nn = run(dn, false), wn = run(dn, true), nw = run(dw, false), ww = run(dw, true), nmx = run(dm, false), wm = run(dm, true);
        bool bad = nn.compare(0, 6, "throws") == 0; c.count(bad ? "stores-refused" : "stores-equal"); if (!ascii) c.nontrivial(c.cur);
        // classes whose name carries the character type would differ; these messages do not
        if (wn != nn) c.fail("wide-source-narrow-option", wn + " expected " + nn);
        if (nw != nn) c.fail("narrow-source-wide-option", nw + " expected " + nn);
        if (ww != nn) c.fail("wide-source-wide-option", ww + " expected " + nn);
        if (nmx != nn) c.fail("narrow-source-mixed-options", nmx + " expected " + nn);
        if (wm != nn) c.fail("wide-source-mixed-options", wm + " expected " + nn);
        if (!bad) for (auto& s : {nn}) if (s.find("throws") == 0) c.fail("stores", s);
    } else {
        // a text the locale can not represent is refused where it has to be converted, and exact where not
        string nmx = run(dm, false), wm = run(dm, true); c.count("unrepresentable");
        if (nonascii_string[1] && nmx.find("throws") != 0) c.fail("lossy-conversion", "narrow source, wide option: " + nmx);
        if (nonascii_string[0] && wm.find("throws") != 0) c.fail("lossy-conversion", "wide source, narrow option: " + wm);
        string nn = run(dn, false); bool hasstr = true; for (K k : ks) if (k != STR && k != VSTR) hasstr = false;
        string ww = run(dw, true);
        if (hasstr && ww != nn) c.fail("wide-source-wide-option", ww + " expected " + nn);
    }
}
static void random_case(Ctx& c) { command_lines(c); stores(c); stores(c); }
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"unregistered short-like non-ASCII argument", [](Ctx& c) {
        vector<string> a(1, "-\xd1\x8f"); po::options_description d; c.cur = "args " + mon::show(a) + " unregistered allowed"; c.eval();
        string n, w; try { n = text(po::command_line_parser(a).options(d).allow_unregistered().run()); } catch (const std::exception&) { n = error(); }
        try { w = text(po::wcommand_line_parser(wide(a)).options(d).allow_unregistered().run()); } catch (const std::exception&) { w = error(); }
        if ((n.compare(0, 6, "throws") == 0) != (w.compare(0, 6, "throws") == 0)) c.fail("unregistered-short-like", "narrow " + n + " wide " + w);
    }});
    f.push_back({"values of every code point", [](Ctx& c) {
        Locale l("C.utf8"); po::options_description d; d.add_options()("n", po::value<string>(), "d")("w", po::wvalue<W>(), "d"); u_int64_t n = 0;
        for (unsigned u = 1; u < 0x110000; u += u < 0x3000 ? 1 : 97) {
            if (u >= 0xd800 && u < 0xe000) continue; string s; u8::enc(u, s); W w(1, (wchar_t)u); ++n;
            po::variables_map a, b; po::store(po::command_line_parser(vector<string>{"--n=" + s, "--w=" + s}).options(d).run(), a); po::store(po::wcommand_line_parser(vector<W>{L"--n=" + w, L"--w=" + w}).options(d).run(), b);
            c.cur = "code point " + std::to_string(u);
            if (a["n"].as<string>() != s || a["w"].as<W>() != w || b["n"].as<string>() != s || b["w"].as<W>() != w) c.fail("stored-code-point", text(a) + text(b));
        }
        c.eval(); c.count("code-points", n);
    }});
    for (int style : world::styles()) f.push_back({"all lines, style " + std::to_string(style), [style](Ctx& c) {
        unsigned k = 0, bad = 0; po::positional_options_description pd; pd.add("p", 1).add("q", 1);
        auto judge = [&](const Table& t, const po::options_description& d, const vector<string>& a, bool un) {
            string n, w; vector<W> wa = wide(a); bool pos = ++k % 3 == 0;
            try { po::command_line_parser p(a); p.options(d).style(style); if (un) p.allow_unregistered(); if (pos) p.positional(pd); n = text(p.run()); } catch (const std::exception&) { n = error(); }
            try { po::wcommand_line_parser p(wa); p.options(d).style(style); if (un) p.allow_unregistered(); if (pos) p.positional(pd); w = text(p.run()); } catch (const std::exception&) { w = error(); }
            c.eval(); c.count("small-world-lines");
            if (n != w) { c.cur = case_desc(t, a, style, un, 0); c.fail("small-world", "narrow " + n + " wide " + w); return ++bad < 4; }
            if (k % 9 == 0) c.nontrivial(std::to_string(style) + mon::show(a));
            return true; };
        world::each_line(judge); world::each_token(judge, 3);
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
