// C17: quote or escape a list of arguments, join it, split it, compare; narrow and wide; and hostile
// strings against a character-level reference of the documented rules.
#include "spell.hpp"
using namespace cli; using mon::Ctx;
template<class CH> struct Chars { typedef std::basic_string<CH> S; S sep, quote, esc; bool is(const S& s, CH ch) const { return s.find(ch) != S::npos; } };
template<class CH> Chars<CH> gen_chars(Rng& r) {
    typedef std::basic_string<CH> S; Chars<CH> c;
    if (r.chance(40)) { const char* a = " \t", *b = "'\"", *e = "\\"; c.sep = S(a, a + 2); c.quote = S(b, b + 2); c.esc = S(e, e + 1); return c; }
    string pool = " \t,;:|'\"`\\^%/+\n~aZ0"; if (sizeof(CH) == 1) { pool += (char)0xe9; pool += (char)0xff; }
    pool += '\0';
    vector<CH> p; for (char ch : pool) p.push_back((CH)(unsigned char)ch); if (sizeof(CH) > 1) { p.push_back((CH)0x2028); p.push_back((CH)0x1f600); }
    for (auto& x : p) if (sizeof(CH) == 1) x = (CH)(char)x;
    r.shuffle(p); size_t i = 0;
    for (unsigned n = 1 + r.below(3); n; --n) c.sep += p[i++];
    for (unsigned n = 1 + r.below(3); n; --n) c.quote += p[i++];
    for (unsigned n = 1 + r.below(2); n; --n) c.esc += p[i++];
    return c;
}
template<class CH> CH gen_ch(Rng& r, const Chars<CH>& k) {
    switch (r.below(6)) { case 0: return k.sep[r.below((unsigned)k.sep.size())]; case 1: return k.quote[r.below((unsigned)k.quote.size())]; case 2: return k.esc[r.below((unsigned)k.esc.size())]; case 3: return sizeof(CH) > 1 ? (CH)r.below(r.chance(50) ? 0x300 : 0x11000) : (CH)(char)r.below(256); default: return (CH)('a' + r.below(26)); }
}
// one argument, spelled so that splitting gives it back
template<class CH> std::basic_string<CH> spell(Rng& r, const std::basic_string<CH>& a, const Chars<CH>& k) {
    std::basic_string<CH> s; bool in = false;
    for (CH ch : a) {
        if (r.chance(12)) { s += k.quote[r.below((unsigned)k.quote.size())]; in = !in; if (r.chance(10)) { s += k.quote[0]; s += k.quote[r.below((unsigned)k.quote.size())]; } }
        bool special = k.is(k.quote, ch) || k.is(k.esc, ch), sep = k.is(k.sep, ch);
        if (special) s += k.esc[r.below((unsigned)k.esc.size())];
        else if (sep) { if (!in && r.chance(50)) s += k.esc[0]; else if (!in) { s += k.quote[0]; in = true; } else if (r.chance(20)) s += k.esc[0]; }
        else if (ch == (CH)'\n' && r.chance(40)) { s += k.esc[0]; s += (CH)'n'; continue; }
        s += ch;
    }
    if (in) s += k.quote[r.below((unsigned)k.quote.size())];
    return s;
}
// reference splitter; false: an invalid escape
template<class CH> bool reference(const std::basic_string<CH>& t, const Chars<CH>& k, vector<std::basic_string<CH> >& out) {
    std::basic_string<CH> cur; bool in = false; size_t i = 0;
    for (; i < t.size(); ++i) {
        CH ch = t[i];
        if (k.is(k.esc, ch)) {
            if (++i == t.size()) return false;
            if (t[i] == (CH)'n') cur += (CH)'\n';
            else if (k.is(k.quote, t[i]) || k.is(k.sep, t[i]) || k.is(k.esc, t[i])) cur += t[i];
            else return false;
        } else if (k.is(k.quote, ch)) in = !in;
        else if (k.is(k.sep, ch) && !in) { if (!cur.empty()) out.push_back(cur); cur.clear(); }
        else cur += ch;
    }
    if (!cur.empty()) out.push_back(cur);
    return true;
}
template<class CH> void one(Ctx& c) {
    typedef std::basic_string<CH> S; Rng& r = c.r;
    Chars<CH> k = gen_chars<CH>(r); bool deflt = k.sep.size() == 2 && k.sep[0] == (CH)' ' && k.sep[1] == (CH)'\t' && k.quote.size() == 2 && k.quote[0] == (CH)'\'' && k.quote[1] == (CH)'"' && k.esc.size() == 1 && k.esc[0] == (CH)'\\';
    auto split = [&](const S& t) { return deflt && r.chance(60) ? po::split_unix(t) : po::split_unix(t, k.sep, k.quote, k.esc); };
    vector<S> args; unsigned n = r.chance(99) ? r.below(6) : r.below(400);
    for (unsigned i = 0; i < n; ++i) { S a; unsigned m = 1 + r.below(r.chance(95) ? 8 : 200); for (unsigned j = 0; j < m; ++j) a.append(r.below(1000) ? 1 : 100 + r.below(500), gen_ch(r, k)); args.push_back(a); }
    S t; auto seps = [&](unsigned lo) { for (unsigned m = lo + (r.chance(30) ? r.below(4) : 0); m; --m) t += k.sep[r.below((unsigned)k.sep.size())]; };
    seps(0); for (unsigned i = 0; i < n; ++i) { if (i) seps(1); t += spell(r, args[i], k); } seps(0);
    c.cur = string(sizeof(CH) > 1 ? "wide" : "narrow") + " separators " + mon::show(k.sep) + " quotes " + mon::show(k.quote) + " escapes " + mon::show(k.esc) + " text " + mon::show(t);
    c.eval(); c.count(sizeof(CH) > 1 ? "round-trips-wide" : "round-trips"); c.count("arguments", n);
    try { vector<S> got = split(t); if (got != args) c.fail("round-trip", "got " + mon::show(got) + " expected " + mon::show(args)); }
    catch (const std::exception& e) { c.fail("round-trip", string("throws ") + e.what()); }
    if (n > 1) { c.nontrivial(c.cur); if (c.want_sample()) c.sample(c.cur + " -> " + mon::show(args)); }
    // hostile
    t.clear(); for (unsigned m = r.below(24); m; --m) t.append(r.chance(99) ? 1 : 100 + r.below(400), gen_ch(r, k));
    c.cur = string(sizeof(CH) > 1 ? "wide" : "narrow") + " separators " + mon::show(k.sep) + " quotes " + mon::show(k.quote) + " escapes " + mon::show(k.esc) + " text " + mon::show(t);
    vector<S> want, got; bool ok = reference(t, k, want), thrown = false;
    try { got = split(t); } catch (const std::exception&) { thrown = true; }
    c.eval(); c.count(ok ? "hostile-split" : "hostile-refused");
    if (ok && (thrown || got != want)) c.fail("split", thrown ? string("throws, expected ") + mon::show(want) : "got " + mon::show(got) + " expected " + mon::show(want));
    if (!ok && !thrown) c.fail("invalid-escape-accepted", "got " + mon::show(got));
}
static void random_case(Ctx& c) { for (int i = 0; i < 4; ++i) { one<char>(c); one<wchar_t>(c); } }
// every string over a small alphabet
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"all strings up to 7 over six characters", [](Ctx& c) {
        const char al[] = {' ', '\t', '\'', '"', '\\', 'n'}; Chars<char> k; k.sep = " \t"; k.quote = "'\""; k.esc = "\\";
        u_int64_t n = 0;
        for (int len = 0; len <= 7; ++len) { u_int64_t tot = 1; for (int i = 0; i < len; ++i) tot *= 6;
            for (u_int64_t x = 0; x < tot; ++x) { if (len == 7 && x % 3) continue; string t; u_int64_t y = x; for (int i = 0; i < len; ++i) { t += al[y % 6]; y /= 6; }
                vector<string> want, got; bool ok = reference(t, k, want), thrown = false; try { got = po::split_unix(t); } catch (const std::exception&) { thrown = true; }
                ++n; if (ok ? thrown || got != want : !thrown) { c.cur = mon::show(t); c.fail("split", mon::show(got) + " expected " + mon::show(want)); } } }
        c.eval(); c.cur = "exhaustive"; c.count("exhaustive-strings", n);
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
