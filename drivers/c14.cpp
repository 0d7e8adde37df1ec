// C14: configuration texts, against a line-by-line reference reader.
#include "spell.hpp"
#include <sstream>
#include <boost/program_options/detail/config_file.hpp>
using namespace cli; using mon::Ctx;

struct CfgOpt { string name, value; bool unreg; };
struct CfgOut { int err = 0; vector<CfgOpt> o; string desc() const { string r = err == 0 ? "" : err == 1 ? "unknown_option " : err == 2 ? "bad line " : "other error "; for (auto& x : o) r += mon::show(x.name) + "=" + mon::show(x.value) + (x.unreg ? "(u) " : " "); return r; } };
static string trim(const string& s) { size_t a = 0, b = s.size(); auto w = [](char ch) { return ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n'; }; while (a < b && w(s[a])) ++a; while (b > a && w(s[b - 1])) --b; return s.substr(a, b - a); }
static bool known(const Table& t, const string& n) {
    if (n.empty()) return false;
    for (auto& o : t) for (auto& l : o.longs) { if (l == n) return true; if (l.back() == '*' && starts(n, l.substr(0, l.size() - 1))) return true; }
    return false;
}
static CfgOut reference(const string& text, const Table& t, bool unreg) {
    CfgOut r; string sec; size_t i = 0;
    while (i < text.size()) {
        size_t e = text.find('\n', i); string line = text.substr(i, e == string::npos ? string::npos : e - i); i = e == string::npos ? text.size() : e + 1;
        size_t h = line.find('#'); if (h != string::npos) line.resize(h);
        line = trim(line);
        if (line.empty()) continue;
        if (line[0] == '[' && line.back() == ']') { sec = line.substr(1, line.size() - 2); if (sec.empty() || sec.back() != '.') sec += '.'; continue; }
        size_t q = line.find('=');
        if (q == string::npos) { r.err = 2; return r; }
        CfgOpt o; o.name = sec + trim(line.substr(0, q)); o.value = trim(line.substr(q + 1)); o.unreg = !known(t, o.name);
        if (o.unreg && !unreg) { r.err = 1; return r; }
        r.o.push_back(o);
    }
    return r;
}
template<class CH> CfgOut from(const vector<po::basic_option<CH> >& v, string& bad) {
    CfgOut r;
    for (auto& x : v) {
        auto n8 = [](const std::basic_string<CH>& s) { string q; for (CH ch : s) { unsigned u = sizeof(CH) == 1 ? (unsigned char)ch : (unsigned)ch; if (sizeof(CH) == 1 || u < 128) q += (char)u; else if (u < 0x800) { q += (char)(0xc0 | (u >> 6)); q += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { q += (char)(0xe0 | (u >> 12)); q += (char)(0x80 | ((u >> 6) & 63)); q += (char)(0x80 | (u & 63)); } else { q += (char)(0xf0 | (u >> 18)); q += (char)(0x80 | ((u >> 12) & 63)); q += (char)(0x80 | ((u >> 6) & 63)); q += (char)(0x80 | (u & 63)); } } return q; };
        CfgOpt o; o.name = x.string_key; o.unreg = x.unregistered; o.value = x.value.size() == 1 ? n8(x.value[0]) : "<" + std::to_string(x.value.size()) + " values>";
        if (x.position_key != -1) bad = "an option has a position";
        if (x.original_tokens.size() != 2 || n8(x.original_tokens[0]) != x.string_key || n8(x.original_tokens[1]) != o.value) bad = "original tokens are not name and value";
        r.o.push_back(o);
    }
    return r;
}
template<class CH> CfgOut real(const std::basic_string<CH>& text, const po::options_description& d, bool unreg, string& bad) {
    CfgOut r;
    try { std::basic_istringstream<CH> is(text); return from<CH>(po::parse_config_file(is, d, unreg).options, bad); }
    catch (const po::unknown_option&) { r.err = 1; }
    catch (const po::invalid_config_file_syntax&) { r.err = 2; }
    catch (const std::exception& e) { r.err = 3; bad = e.what(); }
    return r;
}
static string same(const CfgOut& a, const CfgOut& b) {
    if (a.err != b.err) return "outcome";
    if (a.err) return "";
    if (a.o.size() != b.o.size()) return "option-count";
    for (size_t i = 0; i < a.o.size(); ++i) { if (a.o[i].name != b.o[i].name) return "name"; if (a.o[i].value != b.o[i].value) return "value"; if (a.o[i].unreg != b.o[i].unreg) return "unregistered-mark"; }
    return "";
}
static string blank(Rng& r) { static const vector<string> b = {"", "", "", " ", "  ", "\t", " \t "}; return r.pick(b); }
static string gen_text(Rng& r, const Table& t, bool hostile, string* plan) {
    string text; unsigned n = r.below(9); bool crlf = r.chance(15);
    string sec;
    for (unsigned i = 0; i < n; ++i) {
        string line; unsigned k = r.below(100);
        const Opt& o = t[r.below((unsigned)t.size())];
        string nm = r.pick(o.longs);
        if (nm.back() == '*' && r.chance(90)) { nm.pop_back(); if (r.chance(75)) nm += r.pick(long_pool()); }
        if (k < 10) line = blank(r);
        else if (k < 18) line = blank(r) + "#" + gen_value(r);
        else if (k < 34) {
            size_t p = nm.find('.');
            string s = p != string::npos && r.chance(80) ? nm.substr(0, p) : r.chance(50) ? nm : string("s");
            if (p != string::npos) sec = s;
            static const vector<string> odd = {"", ".", "a.", "a.b", " a", "a ", "[", "]", "]x[", "a#b", "=", "a=b", ".b", ".a.b", "..", "..b", "a..", "a/b", "../b", "a:b", "a b", "a \"b\"", "\"a\"", "*", "a*", "a.*", "^", "-", "--foo", "default", "DEFAULT", "general", "A", "%s", "$a", "a\tb", ";"};
            if (r.chance(hostile ? 30 : 15)) s = r.pick(odd);
            line = blank(r) + "[" + s + "]" + blank(r);
        } else if (k < 88) {
            string use = nm;
            if (!sec.empty() && starts(nm, sec + ".")) use = nm.substr(sec.size() + 1);
            if (r.chance(hostile ? 30 : 10)) { use = r.chance(50) ? nm + "x" : r.pick(long_pool()); }
            if (hostile && r.chance(8)) use = gen_value(r);
            string v = r.chance(70) ? plain_value(r) : gen_value(r);
            if (!hostile) for (char& ch : v) if (ch == '\n' || ch == '#') ch = '_';
            line = blank(r) + use + blank(r) + "=" + blank(r) + v + blank(r);
            if (r.chance(15)) line += "#" + gen_value(r);
        } else if (hostile) line = r.chance(50) ? gen_value(r) : r.chance(50) ? "[" + nm : nm + "]";
        else line = "# plain comment";
        text += line;
        if (i + 1 < n || r.chance(75)) text += crlf ? "\r\n" : "\n";
    }
    (void)plan;
    // bytes that mean nothing here: byte order marks, NUL, other control characters
    if (hostile && r.chance(12)) { static const vector<string> odd = {string(1, '\0'), "\xef\xbb\xbf", "\v", "\f", "\r", string("\0\0", 2), "\x1a", "\xc2\x85", "\xc2\xa0", ";", "//", "\\\n", "\""}; for (unsigned m = 1 + r.below(3); m; --m) text.insert(r.chance(20) ? 0 : r.below((unsigned)text.size() + 1), r.pick(odd)); }
    return text;
}
static bool decode(const string& s, std::wstring& w) {
    for (size_t i = 0; i < s.size();) {
        unsigned char ch = (unsigned char)s[i]; unsigned n = ch < 0x80 ? 0 : ch >= 0xc2 && ch < 0xe0 ? 1 : ch >= 0xe0 && ch < 0xf0 ? 2 : ch >= 0xf0 && ch < 0xf5 ? 3 : 9;
        if (n == 9 || i + n >= s.size() + 0u + (n ? 0 : 1)) return false;
        unsigned v = n == 0 ? ch : ch & (0x3f >> n);
        for (unsigned k = 1; k <= n; ++k) { unsigned char x = (unsigned char)s[i + k]; if ((x & 0xc0) != 0x80) return false; v = v << 6 | (x & 63); }
        w += (wchar_t)v; i += n + 1;
    }
    return true;
}
static void random_case(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.wild = false; g.alias_pct = 25;
    Table t0 = gen_table(r, g), t;
    static const vector<string> dotted = {"sec.a", "sec.b", "s.a", "a.b.c", "s.v"};
    for (auto& o : t0) { if (o.longs.empty()) continue; Opt x(o); x.ar = VEC; if (r.chance(35)) x.longs[0] = r.pick(dotted) + std::to_string(t.size()); t.push_back(x); }
    if (t.empty()) { Opt o; o.longs.push_back("foo"); o.ar = VEC; t.push_back(o); }
    // wildcards that do not overlap one another
    if (r.chance(35)) { Opt o; o.ar = VEC; o.longs.push_back(r.chance(30) ? "*" : r.chance(50) ? "wild*" : "sec.*"); t.push_back(o); if (o.longs[0] != "*" && r.chance(40)) { Opt p; p.ar = VEC; p.longs.push_back("zzz*"); t.push_back(p); } }
    po::options_description d; build(t, d);
    for (int k = 0; k < 4; ++k) {
        bool hostile = r.chance(45), unreg = r.chance(45);
        string text = gen_text(r, t, hostile, 0);
        c.cur = "options " + show(t) + (unreg ? " unreg" : "") + " text " + mon::show(text);
        string bad, badw;
        CfgOut a = real<char>(text, d, unreg, bad), m = reference(text, t, unreg);
        c.eval(); c.count(m.err == 0 ? "accepted" : m.err == 1 ? "unknown" : "bad-line");
        string df = same(a, m);
        if (!df.empty()) c.fail("config-" + df, "got " + a.desc() + bad + " expected " + m.desc());
        else if (!bad.empty()) c.fail("config-tokens", bad);
        if (m.err == 0) c.count("options", m.o.size());
        if (m.err == 0 && m.o.size() > 1) { c.nontrivial(c.cur); if (c.want_sample() && text.find('[') != string::npos) c.sample(c.cur + " -> " + m.desc()); }
        std::wstring w;
        if (decode(text, w)) {
            CfgOut b = real<wchar_t>(w, d, unreg, badw); c.count("wide");
            df = same(b, m);
            if (!df.empty()) c.fail("config-wide-" + df, "got " + b.desc() + badw + " expected " + m.desc());
            else if (!badw.empty()) c.fail("config-wide-tokens", badw);
        }
        // the iterator below the parser, which a program may use on its own
        if (r.chance(30)) {
            std::set<string> names; for (auto& o : t) for (auto& l : o.longs) names.insert(l);
            CfgOut x; string badi; vector<po::option> all;
            try {
                std::istringstream is(text); po::detail::config_file_iterator i(is, names, unreg); po::detail::config_file_iterator e;
                for (; i != e; ++i) { all.push_back(*i); if (i->string_key != all.back().string_key) badi = "the iterator changed on reading"; }
            } catch (const po::unknown_option&) { x.err = 1; } catch (const po::invalid_config_file_syntax&) { x.err = 2; } catch (const std::exception& e2) { x.err = 3; badi = e2.what(); }
            if (!x.err) x = from<char>(all, badi);
            c.count("iterated");
            df = same(x, m);
            if (!df.empty()) c.fail("config-iterator-" + df, "got " + x.desc() + badi + " expected " + m.desc());
            else if (!badi.empty()) c.fail("config-iterator", badi);
        }
        // stored under the option's key, every value in order
        if (m.err == 0 && a.err == 0) {
            std::istringstream is(text); po::variables_map vm;
            bool dup = false; std::map<string, vector<string> > want;
            for (auto& x : m.o) if (!x.unreg) { int n = 0; string key; for (auto& o : t) for (auto& l : o.longs) if (l == x.name) { ++n; key = o.key(x.name); } if (!n) for (auto& o : t) for (auto& l : o.longs) if (l.back() == '*' && starts(x.name, l.substr(0, l.size() - 1))) { ++n; key = o.key(x.name); } for (auto& o : t) if (o.sh && x.name == string("-") + o.sh) n = 2;   /* also a short name for store */
                if (n != 1) dup = true; want[key].push_back(x.value); }
            if (!dup) {
                try { po::store(po::parse_config_file(is, d, unreg), vm); std::map<string, vector<string> > got; for (auto& e : vm) got[e.first] = e.second.as<vector<string> >(); if (got != want) c.fail("stored", map_text(vm)); c.count("stored"); }
                catch (const std::exception& e) { c.fail("stored", string("store throws ") + e.what()); }
            }
        }
    }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"file by name equals stream", [](Ctx& c) {
        string dir = getenv("VERIF_WORK") ? getenv("VERIF_WORK") : "/tmp"; string fn = dir + "/c14-" + std::to_string(getpid()) + ".cfg";
        po::options_description d; d.add_options()("a", po::value<vector<string> >())("s.b", po::value<vector<string> >());
        string text = "a = 1\n\n[s]\nb=2 # x\nb = = 3\r\nb="; 
        FILE* o = fopen(fn.c_str(), "wb"); fwrite(text.data(), 1, text.size(), o); fclose(o);
        Table t(2); t[0].longs.push_back("a"); t[1].longs.push_back("s.b");
        CfgOut m = reference(text, t, false); string bad; c.eval(); c.cur = mon::show(text); c.nontrivial(c.cur);
        CfgOut x = from<char>(po::parse_config_file(fn.c_str(), d).options, bad), y = from<wchar_t>(po::parse_config_file<wchar_t>(fn.c_str(), d).options, bad);
        unlink(fn.c_str());
        if (!same(x, m).empty() || !same(y, m).empty() || !bad.empty()) c.fail("config-file", x.desc() + " / " + y.desc());
    }});
    f.push_back({"overlapping wildcards and missing long names", [](Ctx& c) {
        c.eval(); c.cur = "descriptions that can not be used for configuration files";
        for (auto p : {std::make_pair("foo*", "foobar*"), std::make_pair("foobar*", "foo*"), std::make_pair("*", "x*"), std::make_pair("a.*", "a.b*")}) {
            po::options_description d; d.add_options()(p.first, po::value<string>())(p.second, po::value<string>());
            std::istringstream is("foo = 1\n"); bool thrown = false;
            try { po::parse_config_file(is, d); } catch (const po::unknown_option&) {} catch (const po::error&) { thrown = true; }
            if (!thrown) c.fail("overlapping-wildcards", string(p.first) + " " + p.second + " accepted");
        }
        po::options_description d; d.add_options()(",x", po::value<string>());
        std::istringstream is(""); bool thrown = false;
        try { po::parse_config_file(is, d); } catch (const po::error&) { thrown = true; }
        if (!thrown) c.fail("abbreviated-only", "an option without long name accepted");
        c.nontrivial(c.cur);
    }});
    f.push_back({"long lines and many lines", [](Ctx& c) {
        po::options_description d; d.add_options()("a", po::value<vector<string> >());
        string text, bad; Table t(1); t[0].longs.push_back("a");
        for (int i = 0; i < 3000; ++i) text += "a = " + string((size_t)(i % 7) * 5, 'x') + std::to_string(i) + "\n";
        text += "a = " + string(200000, 'y') + "\n" + string(70000, ' ') + "a" + string(70000, '\t') + "= z" + string(70000, ' ') + "\n#" + string(100000, 'c');
        c.eval(); c.cur = "large text"; c.nontrivial(c.cur);
        CfgOut x = real<char>(text, d, false, bad);
        if (!same(x, reference(text, t, false)).empty()) c.fail("config-large", "differs");
    }});
    // every text of up to six characters that mean something
    const string al = "a=[]\n #.";
    for (char first : al) f.push_back({string("all texts starting with ") + mon::show(string(1, first)), [al, first](Ctx& c) {
        vector<Table> ts(3); auto name = [](Table& t, const char* n) { Opt o; o.longs.push_back(n); o.ar = VEC; t.push_back(o); };
        name(ts[0], "a"); name(ts[0], "a.a"); name(ts[1], "a*"); name(ts[2], ".a"); name(ts[2], "aa"); name(ts[2], "a a*"); 
        unsigned bad = 0, k = 0;
        for (auto& t : ts) { po::options_description d; build(t, d);
            for (unsigned len = 1; len <= 6; ++len) { unsigned n = 1; for (unsigned i = 1; i < len; ++i) n *= (unsigned)al.size();
                if (len == 6 && &t != &ts[0]) n /= 8;
                for (unsigned code = 0; code < n; ++code) {
                    string text(1, first); for (unsigned i = 1, q = code; i < len; ++i, q /= (unsigned)al.size()) text += al[q % al.size()];
                    if (text.find('=') == string::npos && len > 4) continue;
                    for (int un = 0; un < 2; ++un) {
                        string b; CfgOut x = real<char>(text, d, un != 0, b), m = reference(text, t, un != 0); c.eval(); c.count("small-world-texts");
                        string df = same(x, m); if (df.empty() && !b.empty()) df = "tokens";
                        if (df.empty() && ++k % 4 == 0) { CfgOut y = real<wchar_t>(std::wstring(text.begin(), text.end()), d, un != 0, b); df = same(y, m); if (!df.empty()) df = "wide-" + df; }
                        if (!df.empty()) { c.cur = "options " + show(t) + (un ? " unreg" : "") + " text " + mon::show(text); c.fail("small-world-" + df, "got " + x.desc() + b + " expected " + m.desc()); if (++bad > 3) return; }
                        if (m.err == 0 && m.o.size() && k % 16 == 0) c.nontrivial(text + (un ? "u" : ""));
                    }
                } } }
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
