// C18: the Windows splitter, compiled from the tree's own source with the platform test satisfied,
// against the published argument rules.
#include "spell.hpp"
#include "winmain.hpp"
#include <cctype>
#include <vector>
#include <string>
#include <boost/program_options/parsers.hpp>
#include <boost/program_options/detail/convert.hpp>
using namespace cli; using mon::Ctx;

static bool blank(char ch) { return ch == ' ' || ch == '\t'; }
// the published rules
static vector<string> reference(const string& t) {
    vector<string> r; size_t i = 0;
    for (;;) {
        while (i < t.size() && blank(t[i])) ++i;
        if (i == t.size()) return r;
        string a; bool q = false;
        while (i < t.size() && (q || !blank(t[i]))) {
            size_t n = 0; while (i < t.size() && t[i] == '\\') { ++n; ++i; }
            if (i < t.size() && t[i] == '"') { a.append(n / 2, '\\'); if (n % 2) a += '"'; else q = !q; ++i; }
            else { a.append(n, '\\'); if (!n) a += t[i++]; }
        }
        r.push_back(a);
    }
}
static string quote(Rng& r, const string& a) {
    bool need = a.empty(); for (char ch : a) if (blank(ch) || isspace((unsigned char)ch)) need = true;
    bool q = need || r.chance(30); string s = q ? "\"" : ""; size_t n = 0;
    for (char ch : a) { if (ch == '\\') { ++n; continue; } if (ch == '"') { s.append(2 * n + 1, '\\'); } else s.append(n, '\\'); n = 0; s += ch; }
    s.append(q ? 2 * n : n, '\\'); if (q) s += '"';
    return s;
}
static bool decode(const string& s, std::wstring& w) { for (unsigned char ch : s) { if (ch >= 128) return false; w += (wchar_t)ch; } return true; }
static std::wstring widen(const string& s) { return std::wstring(s.begin(), s.end()); }
static void check(Ctx& c, const string& t, const vector<string>& want, const char* key) {
    vector<string> got = po::split_winmain(t); c.eval();
    if (got != want) c.fail(key, "got " + mon::show(got) + " expected " + mon::show(want));
    std::wstring w; if (decode(t, w)) { vector<std::wstring> g = po::split_winmain(w), e; for (auto& s : want) e.push_back(widen(s)); if (g != e) c.fail("wide", "got " + mon::show(g)); c.count("wide"); }
}
static void random_case(Ctx& c) {
    Rng& r = c.r;
    for (int k = 0; k < 6; ++k) {
        vector<string> args; unsigned n = r.chance(99) ? r.below(6) : r.below(400); string t;
        auto gap = [&](unsigned lo) { for (unsigned m = lo + (r.chance(25) ? r.below(3) : 0); m; --m) t += r.chance(70) ? ' ' : '\t'; };
        static const string al = "\\\\\\\"\" \tab\x80\xff'=";
        gap(0);
        for (unsigned i = 0; i < n; ++i) { string a; for (unsigned m = r.below(r.chance(95) ? 8 : 300); m; --m) a += r.chance(90) ? al[r.below((unsigned)al.size())] : (char)r.below(256); if (r.chance(2)) a.insert(r.below((unsigned)a.size() + 1), r.chance(90) ? 30 + r.below(600) : 32768 + r.below(40000), r.chance(70) ? '\\' : al[r.below((unsigned)al.size())]); args.push_back(a); if (i) gap(1); t += quote(r, a); }
        gap(0);
        c.cur = "text " + mon::show(t); c.count("arguments", n); c.count("round-trips");
        check(c, t, args, "round-trip");
        if (n > 1) { c.nontrivial(c.cur); if (c.want_sample()) c.sample(c.cur + " -> " + mon::show(args)); }
        t.clear(); for (unsigned m = r.below(20); m; --m) t.append(r.chance(99) ? 1 : 100 + r.below(400), al[r.below((unsigned)al.size())]);
        c.cur = "text " + mon::show(t); c.count("hostile"); check(c, t, reference(t), "split");
        // non-ASCII wide text
        std::wstring w; vector<std::wstring> we; for (unsigned i = 0; i < n; ++i) { std::wstring a; for (unsigned m = 1 + r.below(5); m; --m) a += (wchar_t)(0x21 + r.below(r.chance(50) ? 0x20000 : 0x600)); for (wchar_t& ch : a) if (ch == L'"' || ch == L'\\' || (ch >= 0xd800 && ch < 0xe000)) ch = L'_'; if (i) w += L' '; bool q = r.chance(50); w += q ? L"\"" + a + L"\"" : a; we.push_back(a); }
        c.cur = "text " + mon::show(w); if (po::split_winmain(w) != we) c.fail("wide", "got " + mon::show(po::split_winmain(w)));
    }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"all strings up to 9 over four characters", [](Ctx& c) {
        const char al[] = {' ', '"', '\\', 'a'}; unsigned long n = 0;
        for (int len = 0; len <= 9; ++len) { unsigned long tot = 1ul << (2 * len);
            for (unsigned long x = 0; x < tot; ++x) { string t; for (int i = 0; i < len; ++i) t += al[(x >> (2 * i)) & 3]; ++n; vector<string> g = po::split_winmain(t), w = reference(t); if (g != w) { c.cur = "text " + mon::show(t); c.fail("split", "got " + mon::show(g) + " expected " + mon::show(w)); } } }
        c.eval(); c.count("exhaustive-strings", n);
    }});
    f.push_back({"white space", [](Ctx& c) { for (string t : {string("a\tb"), string(" \t "), string("\t\ta\t"), string("\"a\tb\"\tc"), string("")}) { c.cur = "text " + mon::show(t); check(c, t, reference(t), "split"); c.nontrivial(c.cur); } }});
    return f;
}
MON_MAIN(fixed(), random_case)
