// C13: value conversions. Reference: exact decimal grammar with 128-bit range checks, strtod for
// strictly formed floating literals, word lists; near misses must be refused.
#include "spell.hpp"
#include <sstream>
#include <optional>
#include <boost/optional.hpp>
#include <limits>
#include <cmath>
using namespace cli; using mon::Ctx;
typedef __int128 i128;

struct Res { bool ok = false, badclass = false; string text, what; };
static string i128s(i128 v) { if (v == 0) return "0"; bool n = v < 0; string r; while (v) { int d = (int)(v % 10); r += char('0' + (d < 0 ? -d : d)); v /= 10; } if (n) r += '-'; return string(r.rbegin(), r.rend()); }
template<class T> string out(const T& v) { return i128s((i128)v); }
template<> string out<double>(const double& v) { char b[64]; snprintf(b, 64, "%a", v); return b; }
template<> string out<float>(const float& v) { char b[64]; snprintf(b, 64, "%a", (double)v); return b; }
template<> string out<char>(const char& v) { return mon::show(string(1, v)); }
template<> string out<wchar_t>(const wchar_t& v) { return mon::show(std::wstring(1, v)); }
template<> string out<string>(const string& v) { return mon::show(v); }
template<> string out<std::wstring>(const std::wstring& v) { return mon::show(v); }
template<> string out<bool>(const bool& v) { return v ? "true" : "false"; }
template<class T> string out(const vector<T>& v) { string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? " " : "") + out<T>(v[i]); return r + "]"; }
template<class T> string out(const boost::optional<T>& v) { return v ? "some " + out<T>(*v) : "none"; }
template<class T> string out(const std::optional<T>& v) { return v ? "some " + out<T>(*v) : "none"; }

static void classify(Res& r) {
    try { throw; }
    catch (const po::validation_error& e) { r.what = e.what(); if (e.kind() != po::validation_error::invalid_option_value && e.kind() != po::validation_error::invalid_bool_value) r.badclass = true; }
    catch (const std::exception& e) { r.badclass = true; r.what = string(typeid(e).name()) + " " + e.what(); }
}
// how the text reaches the option
enum Route { DIRECT, CMD_NEXT, CMD_ADJ, SHORT_ADJ, CFG, N_ROUTE };
template<class T, class CH> Res convert(Rng& r, const vector<string>& texts, int route, bool utf8 = false) {
    Res x;
    try {
        po::typed_value<T, CH>* sem = new po::typed_value<T, CH>(0);
        if (texts.size() > 1) sem->multitoken();
        po::options_description d; d.add_options()("x,x", sem, "d");
        if (route == DIRECT) { boost::any a; static_cast<po::value_semantic*>(sem)->parse(a, texts, utf8); x.text = out(boost::any_cast<T>(a)); x.ok = true; return x; }
        po::variables_map vm;
        if (route == CFG) { std::istringstream is("x = " + texts[0] + "\n"); po::store(po::parse_config_file(is, d), vm); }
        else {
            vector<string> a;
            if (route == CMD_NEXT) a.push_back("--x");
            else if (route == CMD_ADJ) a.push_back("--x=" + texts[0]);
            else a.push_back("-x" + texts[0]);
            for (size_t i = route == CMD_NEXT ? 0 : 1; i < texts.size(); ++i) a.push_back(texts[i]);
            po::store(po::command_line_parser(a).options(d).run(), vm);
        }
        x.text = out(vm["x"].template as<T>()); x.ok = true;
    } catch (const std::exception&) { classify(x); }
    (void)r;
    return x;
}
static int route_for(Rng& r, const string& s) {
    int k = (int)r.below(N_ROUTE);
    bool blank = s.find_first_of(" \t\r\n#") != string::npos;
    if (s.empty() && (k == CMD_ADJ || k == SHORT_ADJ)) k = CMD_NEXT;
    if (k == CFG && (blank || s.find('\n') != string::npos)) k = DIRECT;
    if (k == CMD_NEXT && (s == "-x" || (starts(s, "--") && s.find('=') == s.size() - 1))) k = DIRECT;   // not a value there
    return k;
}
// the exact integer a text denotes, if it is of the form [+-]digits
static bool int_text(const string& s, i128& v) {
    size_t i = 0; bool neg = false;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    if (i >= s.size()) return false;
    v = 0;
    for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > ((i128)1 << 100)) v = (i128)1 << 100; }
    if (neg) v = -v;
    return true;
}
static string stray(Rng& r, string s) {
    static const vector<string> junk = {" ", "\t", "x", ".", ",", "-", "+", "e", "0x", "\n", "\xff", "_", "1 ", " 1", "'", "\xc2\xa0", "L", "u", "%", "()", ".0", "e3"};
    size_t at = r.below(3) == 0 ? 0 : r.chance(60) ? s.size() : r.below((unsigned)s.size() + 1);
    s.insert(at, r.pick(junk)); return s;
}
static string digits(Rng& r, unsigned n) { string s; for (unsigned i = 0; i < n; ++i) s += char('0' + r.below(10)); return s; }
template<class T> string int_gen(Rng& r) {
    typedef std::numeric_limits<T> L;
    i128 v;
    switch (r.below(6)) {
    case 0: v = (i128)L::max() + r.range(-3, 3); break;
    case 1: v = (i128)L::min() + r.range(-3, 3); break;
    case 2: v = (i128)(T)r.next(); break;
    case 3: v = r.range(-20, 20); break;
    case 4: v = (i128)(T)r.next() * 10 + r.range(0, 9); break;
    default: { string s = digits(r, 1 + r.below(25)); return (r.chance(30) ? "-" : r.chance(20) ? "+" : "") + s; }
    }
    string s = i128s(v);
    if (v >= 0 && r.chance(12)) s = "+" + s;
    if (r.chance(12)) { size_t p = s[0] == '-' || s[0] == '+' ? 1 : 0; s.insert(p, string(1 + r.below(4), '0')); }
    return s;
}
template<class T, class CH> void integer(Ctx& c, const char* name) {
    Rng& r = c.r; string s = int_gen<T>(r);
    bool mangled = r.chance(30); if (mangled) s = stray(r, s);
    if (r.chance(3)) { s = r.chance(50) ? "" : r.chance(50) ? "+" : "-"; mangled = true; }
    i128 v = 0; bool ok = int_text(s, v);
    // lexical_cast documents modular conversion of negative text for unsigned types; not judged
    if (!std::numeric_limits<T>::is_signed && s.find('-') != string::npos && ok) return;
    bool want = ok && v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max();
    for (unsigned char ch : s) if (ch >= 128 && sizeof(CH) > 1) return;
    int route = route_for(r, s);
    c.cur = string("type ") + name + (sizeof(CH) > 1 ? " wide" : "") + " text " + mon::show(s) + " route " + std::to_string(route);
    Res x = convert<T, CH>(r, {s}, route);
    c.eval();
    if (want && (!x.ok || x.text != i128s(v))) c.fail("integer-value", x.ok ? "value " + x.text + " expected " + i128s(v) : "refused: " + x.what);
    if (!want && x.ok) c.fail("integer-accepted", "accepted as " + x.text);
    if (!want && !x.ok && x.badclass) c.fail("refusal-class", x.what);
    c.count(want ? "integers-accepted" : ok ? "integers-out-of-range" : "integers-malformed");
    if (mangled || (want ? v > 1000 || v < -1000 : ok)) { c.nontrivial(c.cur); if (c.want_sample()) c.sample(c.cur + " -> " + (x.ok ? x.text : "refused")); }
}
template<class T, class CH> void floating(Ctx& c, const char* name) {
    Rng& r = c.r; string s = r.chance(25) ? "-" : r.chance(10) ? "+" : "";
    s += digits(r, 1 + r.below(r.chance(80) ? 6 : 30));
    if (r.chance(60)) s += "." + digits(r, 1 + r.below(r.chance(80) ? 8 : 25));
    if (r.chance(35)) s += string(r.chance(50) ? "e" : "E") + (r.chance(40) ? "-" : r.chance(20) ? "+" : "") + digits(r, 1 + r.below(3));
    bool good = true;
    if (r.chance(25)) {
        static const vector<string> junk = {" ", "x", "\t", ",", "..", "'", "1 2", "\n", "$", "--", "f", "L", "()"};
        size_t at = r.chance(60) ? s.size() : r.chance(50) ? 0 : r.below((unsigned)s.size() + 1);
        s.insert(at, r.pick(junk)); good = false;
    }
    if (r.chance(2)) { s = ""; good = false; }
    int route = route_for(r, s);
    T want = sizeof(T) == 4 ? (T)strtof(s.c_str(), 0) : (T)strtod(s.c_str(), 0);
    bool over = good && std::isinf(want), denorm = good && want != 0 && std::fabs((double)want) < (double)std::numeric_limits<T>::min();
    bool zero_under = good && want == 0 && s.find_first_of("123456789") < s.find_first_of("eE");
    if (denorm || zero_under) { c.count("floats-subnormal-skipped"); return; }     // underflow handling is the stream's
    c.cur = string("type ") + name + (sizeof(CH) > 1 ? " wide" : "") + " text " + mon::show(s) + " route " + std::to_string(route);
    Res x = convert<T, CH>(r, {s}, route);
    c.eval();
    if (good && !over) { if (!x.ok || x.text != out<T>(want)) c.fail("float-value", x.ok ? "value " + x.text + " expected " + out<T>(want) : "refused: " + x.what); c.count("floats-accepted"); }
    else { if (x.ok) c.fail("float-accepted", "accepted as " + x.text); else if (x.badclass) c.fail("refusal-class", x.what); c.count(over ? "floats-out-of-range" : "floats-malformed"); }
    c.nontrivial(c.cur);
}
template<class CH> void boolean(Ctx& c) {
    Rng& r = c.r; static const vector<string> words = {"on", "yes", "1", "true", "off", "no", "0", "false"};
    string s = r.pick(words); s = swapcase(r, s);
    if (r.chance(45)) { switch (r.below(5)) { case 0: s = stray(r, s); break; case 1: if (!s.empty()) s.pop_back(); break; case 2: s += s; break; case 3: s = digits(r, 1 + r.below(2)); break; default: s = gen_value(r); } }
    for (unsigned char ch : s) if (ch >= 128 && sizeof(CH) > 1) return;
    string l = lower(s); int want = l == "on" || l == "yes" || l == "1" || l == "true" ? 1 : l == "off" || l == "no" || l == "0" || l == "false" ? 0 : -1;
    if (s.empty()) want = 1;      // documented: no text means true
    int route = route_for(r, s);
    if (s.find('\0') != string::npos) return;
    c.cur = string("type bool") + (sizeof(CH) > 1 ? " wide" : "") + " text " + mon::show(s) + " route " + std::to_string(route);
    Res x = convert<bool, CH>(r, {s}, route);
    c.eval(); c.count(want >= 0 ? "bools-accepted" : "bools-malformed"); c.nontrivial(c.cur);
    if (want >= 0 && (!x.ok || x.text != (want ? "true" : "false"))) c.fail("bool-value", x.ok ? x.text : "refused: " + x.what);
    if (want < 0 && x.ok) c.fail("bool-accepted", "accepted as " + x.text);
    if (want < 0 && !x.ok && x.badclass) c.fail("refusal-class", x.what);
}
// wide texts that only look like acceptable ones: a character shares its low byte with a good one, or
// is a digit or a letter of another script
static void lookalikes(Ctx& c) {
    Rng& r = c.r; static const vector<string> words = {"on", "off", "yes", "no", "true", "false", "1", "0", "ON", "True"};
    const unsigned kind = r.below(4); string base = kind == 0 ? r.pick(words) : digits(r, 1 + r.below(4)); if (kind == 2) base += "." + digits(r, 1);
    std::wstring w(base.begin(), base.end()); const unsigned times = 1 + r.below(2);
    for (unsigned k = 0; k < times; ++k) { size_t at = r.below((unsigned)w.size()); wchar_t ch = (wchar_t)(unsigned char)base[at];
        switch (r.below(6)) { case 0: w[at] = ch + 0x100; break; case 1: w[at] = ch + 0x10000; break; case 2: w[at] = ch + 0x100 * (wchar_t)(1 + r.below(0xd7)); break; case 3: w[at] = ch + 0x80; break; case 4: w[at] = ch + 0xfee0; break; default: w[at] = isdigit((unsigned char)base[at]) ? (wchar_t)(r.pick(vector<int>{0x660, 0x966, 0x6f0, 0xff10}) + (base[at] - '0')) : ch + 0x1d400 - 0x41; } }
    if (r.chance(15)) { w.assign(base.begin(), base.end()); w += (wchar_t)r.pick(vector<int>{0xa0, 0x2003, 0x3000, 0xfeff, 0x200b, 0x100}); }
    const bool cmd = r.chance(50); string what; c.cur = string("type wide ") + (kind == 0 ? "bool" : kind == 1 ? "int" : kind == 2 ? "double" : "vector<unsigned>") + " text " + mon::show(w) + (cmd ? " on a command line" : " as UTF-8");
    auto run = [&](po::value_semantic* v) { po::options_description d; d.add_options()("x", v, "d"); try { if (cmd) { po::variables_map vm; vector<std::wstring> a; a.push_back(L"--x=" + w); po::store(po::wcommand_line_parser(a).options(d).run(), vm); return true; } boost::any a; v->parse(a, vector<string>(1, po::to_internal(w)), true); return true; } catch (const po::validation_error& e) { what = e.what(); return false; } };
    bool got = kind == 0 ? run(po::wvalue<bool>()) : kind == 1 ? run(po::wvalue<int>()) : kind == 2 ? run(po::wvalue<double>()) : run(po::wvalue<vector<unsigned> >());
    c.eval(); c.count("lookalikes"); c.nontrivial(c.cur); if (got) c.fail("lookalike-accepted", "accepted");
}
static void strings(Ctx& c) {
    Rng& r = c.r; string s = gen_value(r);
    int route = route_for(r, s); if (route == CFG) route = DIRECT;
    if (route == CMD_NEXT && s == "-x") return;
    c.cur = "type string text " + mon::show(s) + " route " + std::to_string(route);
    Res x = convert<string, char>(r, {s}, route); c.eval(); c.count("strings"); c.nontrivial(c.cur);
    if (!x.ok || x.text != mon::show(s)) c.fail("string-value", x.ok ? x.text : "refused: " + x.what);
    bool asc = true; for (unsigned char ch : s) if (ch >= 128) asc = false;
    if (asc) { Res y = convert<std::wstring, wchar_t>(r, {s}, route); if (!y.ok || y.text != mon::show(std::wstring(s.begin(), s.end()))) c.fail("wstring-value", y.ok ? y.text : "refused: " + y.what); }
    // characters: exactly one
    string ch = r.chance(60) ? string(1, (char)r.below(256)) : s.substr(0, r.below(4));
    int rt = route_for(r, ch); if (rt == CFG) rt = DIRECT;
    Res z = convert<char, char>(r, {ch}, rt);
    c.cur = "type char text " + mon::show(ch);
    if (ch.size() == 1 ? (!z.ok || z.text != mon::show(ch)) : z.ok) c.fail("char-value", z.ok ? "accepted as " + z.text : "refused: " + z.what);
    if (!z.ok && z.badclass) c.fail("refusal-class", z.what);
    c.count("chars");
}
static void sequences(Ctx& c) {
    Rng& r = c.r; vector<string> v; unsigned n = 1 + r.below(6); bool ok = true; string want = "[";
    for (unsigned i = 0; i < n; ++i) { string s = std::to_string(r.range(-1000, 1000)); if (r.chance(5)) { s = stray(r, s); } if (r.chance(3)) s.clear(); i128 q; if (!int_text(s, q) || s.find_first_of(" \t\n\r") != string::npos) ok = false; else { want += (i ? " " : "") + i128s(q); } v.push_back(s); }
    for (auto& s : v) { i128 q; if (int_text(s, q) && (q > INT_MAX || q < INT_MIN)) ok = false; }
    want += "]";
    c.cur = "type vector<int> texts " + mon::show(v);
    Res x = convert<vector<int>, char>(r, v, DIRECT), y = convert<vector<int>, wchar_t>(r, vector<string>(1, v[0]), DIRECT);
    c.eval(); c.count(ok ? "vectors-accepted" : "vectors-malformed"); if (n > 1) c.nontrivial(c.cur);
    if (ok && (!x.ok || x.text != want)) c.fail("vector-value", x.ok ? x.text + " expected " + want : "refused: " + x.what);
    if (!ok && x.ok) c.fail("vector-accepted", "accepted as " + x.text);
    if (!ok && !x.ok && x.badclass) c.fail("refusal-class", x.what);
    (void)y;
    for (auto& s : v) for (unsigned char ch : s) if (ch >= 128) goto wide_done;
    { Res w = convert<vector<int>, wchar_t>(r, v, DIRECT); if (w.ok != ok || (ok && w.text != want)) c.fail("wide-vector", w.ok ? "accepted as " + w.text : "refused: " + w.what); }
wide_done:
    // further element types: flags, texts, doubles
    {
        unsigned m = 1 + r.below(5); vector<string> b, t, f; bool bok = true, fok = true; string bw = "[", tw = "[", fw = "[";
        static const vector<string> words = {"on", "yes", "1", "true", "off", "no", "0", "false"};
        for (unsigned i = 0; i < m; ++i) {
            unsigned wi = r.below(8); string q = swapcase(r, words[wi]); bool val = wi < 4;
            if (r.chance(6)) { q = r.chance(40) ? "" : r.chance(50) ? q + " " : "2"; if (q.empty()) val = true; else bok = false; }
            b.push_back(q); bw += (i ? " " : "") + string(val ? "true" : "false");
            string x = r.chance(12) ? "" : gen_value(r); t.push_back(x); tw += (i ? " " : "") + mon::show(x);
            string g = digits(r, 1 + r.below(4)) + "." + digits(r, 1 + r.below(4)); double dv = strtod(g.c_str(), 0);
            if (r.chance(6)) { g = r.chance(30) ? "" : r.chance(50) ? g + " " : g + "x"; fok = false; }
            f.push_back(g); fw += (i ? " " : "") + out<double>(dv);
        }
        bw += "]"; tw += "]"; fw += "]";
        c.eval(); c.count("typed-vectors", 3);
        c.cur = "type vector<bool> texts " + mon::show(b);
        Res B = convert<vector<bool>, char>(r, b, DIRECT);
        if (bok ? !B.ok || B.text != bw : B.ok) c.fail("vector-bool", B.ok ? B.text + " expected " + bw : "refused: " + B.what);
        c.cur = "type vector<string> texts " + mon::show(t);
        Res S = convert<vector<string>, char>(r, t, DIRECT);
        if (!S.ok || S.text != tw) c.fail("vector-string", S.ok ? S.text + " expected " + tw : "refused: " + S.what);
        c.cur = "type vector<double> texts " + mon::show(f);
        Res F = convert<vector<double>, char>(r, f, DIRECT);
        if (fok ? !F.ok || F.text != fw : F.ok) c.fail("vector-double", F.ok ? F.text + " expected " + fw : "refused: " + F.what);
        if ((!bok && !B.ok && B.badclass) || (!fok && !F.ok && F.badclass)) c.fail("refusal-class", B.what + F.what);
    }
    c.cur = "type vector<int> texts " + mon::show(v);
    // on the command line, over several occurrences
    if (ok) {
        po::options_description d; d.add_options()("x", po::value<vector<int> >()->multitoken());
        vector<string> a; for (size_t i = 0; i < v.size(); ++i) { if (i == 0 || r.chance(40) || v[i][0] == '-') a.push_back("--x"); a.push_back(v[i]); }
        Res z; try { po::variables_map vm; po::store(po::command_line_parser(a).options(d).run(), vm); z.text = out(vm["x"].as<vector<int> >()); } catch (const std::exception& e) { z.text = e.what(); }
        if (z.text != want) c.fail("vector-value", "command line " + mon::show(a) + " gives " + z.text + " expected " + want);
    }
    // optional values
    string s = v[0]; i128 q = 0; bool good = int_text(s, q) && q <= INT_MAX && q >= INT_MIN;
    for (int k = 0; k < 2; ++k) {
        Res o = k ? convert<boost::optional<int>, char>(r, {s}, DIRECT) : convert<std::optional<int>, char>(r, {s}, DIRECT);
        c.cur = "type optional<int> text " + mon::show(s);
        if (good ? (!o.ok || o.text != "some " + i128s(q)) : o.ok) c.fail("optional-value", o.ok ? o.text : "refused: " + o.what);
    }
    c.count("optionals");
}
static void random_case(Ctx& c) {
    for (int k = 0; k < 6; ++k) {
        switch (c.r.below(22)) {
        case 0: case 1: integer<int, char>(c, "int"); break;
        case 2: integer<short, char>(c, "short"); break;
        case 3: integer<long, char>(c, "long"); break;
        case 4: integer<long long, char>(c, "long long"); break;
        case 5: integer<unsigned, char>(c, "unsigned"); break;
        case 6: integer<unsigned short, char>(c, "unsigned short"); break;
        case 7: integer<unsigned long long, char>(c, "unsigned long long"); break;
        case 8: integer<int, wchar_t>(c, "int"); break;
        case 9: integer<unsigned long, wchar_t>(c, "unsigned long"); break;
        case 10: integer<short, wchar_t>(c, "short"); break;
        case 11: integer<long long, wchar_t>(c, "long long"); break;
        case 12: case 13: floating<double, char>(c, "double"); break;
        case 14: floating<float, char>(c, "float"); break;
        case 15: floating<double, wchar_t>(c, "double"); break;
        case 16: case 17: boolean<char>(c); break;
        case 18: boolean<wchar_t>(c); lookalikes(c); break;
        case 19: strings(c); break;
        default: sequences(c);
        }
    }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"all short values", [](Ctx& c) {
        for (int v = -33000; v <= 33000; ++v) {
            boost::any a; po::typed_value<short> s0(0); po::value_semantic& s = s0; string t = std::to_string(v); c.eval();
            bool ok = true; try { s.parse(a, {t}, false); } catch (const po::validation_error&) { ok = false; }
            c.cur = t;
            if (ok != (v >= -32768 && v <= 32767)) c.fail("short-range", ok ? "accepted" : "refused");
            else if (ok && boost::any_cast<short>(a) != v) c.fail("short-value", t);
        }
        c.count("short-values", 66001);
    }});
    f.push_back({"all two-byte bool and char texts", [](Ctx& c) {
        for (int i = 1; i < 256; ++i) for (int j = 0; j < 256; ++j) {
            string t(1, (char)i); if (j) t += (char)j;
            c.eval(); c.cur = mon::show(t);
            po::typed_value<bool> b0(0); po::value_semantic& b = b0; boost::any a; bool ok = true; try { b.parse(a, {t}, false); } catch (const po::validation_error&) { ok = false; }
            string l = lower(t); bool want = l == "1" || l == "0" || l == "on" || l == "no";
            if (ok != want) c.fail("bool-accepted", ok ? "accepted" : "refused"); else if (ok && boost::any_cast<bool>(a) != (l == "1" || l == "on")) c.fail("bool-value", "wrong");
            po::typed_value<int> n0(0); po::value_semantic& n = n0; boost::any m; ok = true; try { n.parse(m, {t}, false); } catch (const po::validation_error&) { ok = false; }
            i128 v; want = int_text(t, v);
            if (ok != want) c.fail("integer-accepted", ok ? "accepted" : "refused"); else if (ok && boost::any_cast<int>(m) != (int)v) c.fail("integer-value", "wrong");
        }
    }});
    f.push_back({"defaults and implicit values verbatim", [](Ctx& c) {
        po::options_description d; c.eval(); c.cur = "defaults";
        d.add_options()("a", po::value<int>()->default_value(INT_MIN))("b", po::value<string>()->default_value(" x\ny "))("c", po::value<vector<int> >()->default_value(vector<int>{3, 1, 2}, "t"))("d", po::value<double>()->default_value(0.1)->implicit_value(-0.0, "mz"))("e", po::value<std::optional<int> >());
        po::variables_map vm; po::store(po::command_line_parser(vector<string>{"--d"}).options(d).run(), vm);
        if (vm["a"].as<int>() != INT_MIN || vm["b"].as<string>() != " x\ny " || vm["c"].as<vector<int> >() != vector<int>{3, 1, 2} || !(vm["d"].as<double>() == 0 && std::signbit(vm["d"].as<double>())) || vm.count("e")) c.fail("default-value", map_text(vm));
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
