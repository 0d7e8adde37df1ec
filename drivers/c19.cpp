// C19: conversions between wide text, UTF-8 and 8-bit encodings. References: an encoder and a strict
// structure scanner written here; facets that report every call are the monitors of the buffered loop.
#include "spell.hpp"
#include <locale>
#include <cwchar>
#include <boost/program_options/detail/convert.hpp>
using namespace cli; using mon::Ctx; typedef std::wstring W; typedef std::codecvt<wchar_t, char, std::mbstate_t> Cvt;

static void enc(unsigned u, string& o) {
    if (u < 0x80) o += (char)u;
    else if (u < 0x800) { o += (char)(0xc0 | u >> 6); o += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { o += (char)(0xe0 | u >> 12); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); }
    else { o += (char)(0xf0 | u >> 18); o += (char)(0x80 | (u >> 12 & 63)); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); }
}
static string enc(const W& w) { string o; for (wchar_t ch : w) enc((unsigned)ch, o); return o; }
enum Form { WELL, BROKEN, UNJUDGED };       // unjudged: overlong forms, surrogates, beyond U+10FFFF
static Form form(const string& s) {
    Form f = WELL;
    for (size_t i = 0; i < s.size();) {
        unsigned ch = (unsigned char)s[i]; unsigned n = ch < 0x80 ? 0 : ch < 0xc0 ? 99 : ch < 0xe0 ? 1 : ch < 0xf0 ? 2 : ch < 0xf8 ? 3 : ch < 0xfc ? 4 : ch < 0xfe ? 5 : 99;
        if (n == 99) return BROKEN;
        unsigned v = n ? ch & (0x3fu >> n) : ch;
        for (unsigned k = 1; k <= n; ++k) { if (i + k >= s.size() || ((unsigned char)s[i + k] & 0xc0) != 0x80) return BROKEN; v = v << 6 | ((unsigned char)s[i + k] & 63); }
        string e; if (v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) f = UNJUDGED; else { enc(v, e); if (e.size() != n + 1) f = UNJUDGED; }
        i += n + 1;
    }
    return f;
}
static wchar_t code(Rng& r) {
    for (;;) { unsigned u; switch (r.below(6)) { case 0: u = r.below(0x80); break; case 1: u = 0x80 + r.below(0x780); break; case 2: u = 0x800 + r.below(0xf800); break; case 3: u = 0x10000 + r.below(0x100000); break; case 4: { static const unsigned e[] = {0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000, 0xfeff}; u = e[r.below(13)]; break; } default: u = 'a' + r.below(26); }
        if (u < 0xd800 || u >= 0xe000) return (wchar_t)u; }
}
static W text(Rng& r) { W w; unsigned n = r.chance(50) ? r.below(8) : r.chance(70) ? 24 + r.below(20) : r.below(400); int mode = (int)r.below(3); for (unsigned i = 0; i < n; ++i) w += mode == 0 ? code(r) : mode == 1 ? (wchar_t)(r.chance(93) ? L'a' : code(r)) : (wchar_t)(0x10000 + r.below(0x1000)); return w; }
template<class F> string refuses(F f) { try { f(); } catch (const std::exception&) { return ""; } return "accepted"; }

// Facets over a private encoding: '~' introduces a four-character hex escape, everything else is itself.
// The way the work is cut into calls, and what is reported, varies.
struct Plan { unsigned max_units = 1000; bool partial_always = false; int fail_unit = -1; bool stall = false; bool noconv = false; bool stateful = false; unsigned total = 0; };
struct Log { int calls = 0; string bad; const char* cfrom = 0; const wchar_t* wfrom = 0; unsigned units = 0, last = 0; bool state_lost = false; };
struct Facet : Cvt {
    Plan p; mutable Log log;
    Facet(const Plan& pp) : Cvt(1), p(pp) {}
    bool state_ok(std::mbstate_t& s) const { if (!p.stateful) return true; unsigned v; memcpy(&v, &s, sizeof v); if (v != log.last) { log.state_lost = true; return false; } return true; }
    // initial again at the end of the whole text, however it is cut into calls
    void state_set(std::mbstate_t& s) const { if (!p.stateful) return; unsigned v = log.last = log.units == p.total ? 0 : log.units % 7 + 1; memset(&s, 0, sizeof s); memcpy(&s, &v, sizeof v); }
    result do_out(std::mbstate_t& s, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const override {
        ++log.calls; state_ok(s); if (log.wfrom && log.wfrom != f) log.bad = "a call does not continue where the last one ended";
        if (f == fe || te - t < 8) log.bad = "empty source or tiny buffer";
        fn = f; tn = t; unsigned u = 0; result r = ok;
        if (p.noconv) return noconv;
        if (p.stall) return partial;
        while (fn != fe) {
            if (u++ == p.max_units) { r = partial; break; }
            if (p.fail_unit >= 0 && log.units == (unsigned)p.fail_unit) { r = error; break; }
            if (*fn > 0 && *fn < 128 && *fn != L'~') { if (tn == te) { r = partial; break; } *tn++ = (char)*fn++; }
            else { if (te - tn < 9) { r = partial; break; } char b[12]; snprintf(b, sizeof b, "~%08x", (unsigned)*fn++); memcpy(tn, b, 9); tn += 9; }
            ++log.units;
        }
        if (r == ok && p.partial_always) r = partial;
        state_set(s); log.wfrom = fn; return r;
    }
    result do_in(std::mbstate_t& s, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const override {
        ++log.calls; state_ok(s); if (log.cfrom && log.cfrom != f) log.bad = "a call does not continue where the last one ended";
        if (f == fe || te == t) log.bad = "empty source or buffer";
        fn = f; tn = t; unsigned u = 0; result r = ok;
        if (p.noconv) return noconv;
        if (p.stall) return partial;
        while (fn != fe) {
            if (u++ == p.max_units || tn == te) { r = partial; break; }
            if (p.fail_unit >= 0 && log.units == (unsigned)p.fail_unit) { r = error; break; }
            if (*fn != '~') *tn++ = (wchar_t)(unsigned char)*fn++;
            else { if (fe - fn < 9) { r = partial; break; } *tn++ = (wchar_t)strtoul(string(fn + 1, fn + 9).c_str(), 0, 16); fn += 9; }
            ++log.units;
        }
        if (r == ok && p.partial_always) r = partial;
        state_set(s); log.cfrom = fn; return r;
    }
    result do_unshift(std::mbstate_t&, char* t, char*, char*& tn) const override { tn = t; return noconv; }
    int do_encoding() const noexcept override { return 0; }
    bool do_always_noconv() const noexcept override { return false; }
    int do_length(std::mbstate_t&, const char* f, const char* e, std::size_t m) const override { return (int)std::min<std::size_t>((std::size_t)(e - f), m); }
    int do_max_length() const noexcept override { return 9; }
};
static string own(const W& w) { string o; char b[12]; for (wchar_t ch : w) if (ch > 0 && ch < 128 && ch != L'~') o += (char)ch; else { snprintf(b, sizeof b, "~%08x", (unsigned)ch); o += b; } return o; }

static void random_case(Ctx& c) {
    Rng& r = c.r;
    W w = text(r); string u = enc(w);
    c.cur = "text " + mon::show(w); c.eval();
    if (w.size() > 1) { c.nontrivial(c.cur); if (c.want_sample()) c.sample(c.cur); }
    try { string e = boost::to_utf8(w); if (e != u) c.fail("utf8-encoding", "got " + mon::show(e)); } catch (const std::exception& e) { c.fail("utf8-encoding", e.what()); }
    try { W d = boost::from_utf8(u); if (d != w) c.fail("utf8-decoding", "got " + mon::show(d)); } catch (const std::exception& e) { c.fail("utf8-decoding", e.what()); }
    try { if (po::to_internal(w) != u || po::to_internal(u) != u) c.fail("internal", "differs"); vector<W> ws(r.below(4), w); vector<string> us = po::to_internal(ws); if (us != vector<string>(ws.size(), u)) c.fail("internal", "vector differs"); } catch (const std::exception& e) { c.fail("internal", e.what()); }
    c.count("utf8-round-trips"); if (u.size() > 32) c.count("longer-than-buffer");
    // malformed
    for (int k = 0; k < 3; ++k) {
        string m = u; if (m.empty()) m = "\xe2\x82\xac";
        size_t at = r.below((unsigned)m.size());
        switch (r.below(6)) {
        case 0: m.resize(at); break;                                                   // cut
        case 1: m.erase(at, 1); break;
        case 2: m.insert(at, 1, (char)(0x80 + r.below(0x40))); break;                 // stray continuation
        case 3: m.insert(at, 1, (char)(0xc0 + r.below(0x40))); break;                 // stray lead
        case 4: m[at] = (char)r.below(256); break;
        default: m = string(r.below(70), 'x') + m.substr(at); if (r.chance(50)) m += (char)(0xc2 + r.below(0x32));
        }
        Form f = form(m); W d; bool threw = false;
        try { d = boost::from_utf8(m); } catch (const std::exception&) { threw = true; }
        c.cur = "bytes " + mon::show(m); c.eval(); c.count(f == BROKEN ? "malformed" : f == WELL ? "mutated-well-formed" : "unjudged");
        if (f == BROKEN && !threw) c.fail("malformed-accepted", "as " + mon::show(d));
        if (f == WELL && (threw || enc(d) != m)) c.fail("utf8-decoding", threw ? "refused" : "got " + mon::show(d));
    }
    // monitored facets
    {
        Plan p; p.max_units = r.chance(40) ? 1 + r.below(4) : 1000; p.partial_always = r.chance(20); p.stateful = r.chance(30); p.total = (unsigned)w.size();
        if (r.chance(20)) p.fail_unit = (int)r.below((unsigned)w.size() + 1); if (r.chance(5)) p.stall = true; if (r.chance(5)) p.noconv = true;
        bool must = w.size() && (p.stall || p.noconv || (p.fail_unit >= 0 && p.fail_unit < (int)w.size()));
        string o = own(w);
        c.cur = "facet steps of " + std::to_string(p.max_units) + " fail at " + std::to_string(p.fail_unit) + (p.stall ? " stalls" : "") + (p.noconv ? " noconv" : "") + (p.partial_always ? " partial" : "") + (p.stateful ? " stateful" : "") + " text " + mon::show(w);
        Facet f(p), g(p); string a; W b; bool ta = false, tb = false; string wa, wb;
        try { a = boost::to_8_bit(w, f); } catch (const std::exception& e) { ta = true; wa = e.what(); }
        try { b = boost::from_8_bit(o, g); } catch (const std::exception& e) { tb = true; wb = e.what(); }
        c.eval(); c.count("facet-calls", (unsigned)(f.log.calls + g.log.calls)); c.count(must ? "facet-failures" : "facet-round-trips");
        if (must && (!ta || !tb)) c.fail("facet-failure-ignored", "a failed conversion gives a result");
        if (!must && (ta || a != o)) c.fail("facet-out", ta ? wa : mon::show(a));
        if (!must && (tb || b != w)) c.fail("facet-in", tb ? wb : mon::show(b));
        if (!f.log.bad.empty() || !g.log.bad.empty()) c.fail("facet-use", f.log.bad + g.log.bad);
        if (f.log.state_lost || g.log.state_lost) c.fail("facet-use", "conversion state not kept between calls");
        // cut in the middle of an escape
        if (!must && o.size() > 1) { string cut = o.substr(0, 1 + r.below((unsigned)o.size() - 1)); size_t t = cut.rfind('~'); if (t != string::npos && cut.size() - t < 9) { Facet h(p); string q = refuses([&] { boost::from_8_bit(cut, h); }); c.count("facet-cut"); if (!q.empty()) c.fail("malformed-accepted", "text ending within an escape " + mon::show(cut)); } }
        // the same facet as the global locale's
        if (!p.stall && !p.noconv && p.fail_unit < 0 && r.chance(50)) {
            Facet* l = new Facet(p); std::locale old = std::locale::global(std::locale(std::locale::classic(), (Cvt*)l)); string x; W y; bool t1 = false;
            try { x = boost::to_local_8_bit(w); l->log = Log(); y = boost::from_local_8_bit(o); } catch (const std::exception&) { t1 = true; }
            std::locale::global(old); delete l;      // the facet was made with refs == 1, so it is ours
            if (t1 || x != o || y != w) c.fail("local-facet", "got " + mon::show(x) + " " + mon::show(y)); c.count("local-facet");
        }
    }
    // locales
    {
        bool u8 = r.chance(60); std::locale old = std::locale::global(u8 ? std::locale("C.utf8") : std::locale::classic());
        W v = w; if (!u8 && r.chance(60)) for (wchar_t& ch : v) ch &= 127;
        bool rep = u8; if (!u8) { rep = true; for (wchar_t ch : v) if (ch >= 128) rep = false; }
        string a, wa; bool t = false; W b;
        try { a = boost::to_local_8_bit(v); } catch (const std::exception& e) { t = true; wa = e.what(); }
        c.cur = string("locale ") + (u8 ? "C.utf8" : "C") + " text " + mon::show(v); c.eval(); c.count(rep ? "local-representable" : "local-unrepresentable");
        if (rep && (t || a != enc(v))) c.fail("local-out", t ? wa : mon::show(a));
        if (!rep && !t) { bool back = false; try { back = boost::from_local_8_bit(a) == v; } catch (const std::exception&) {} if (!back) c.fail("local-out", "lossy result " + mon::show(a)); }
        t = false; try { b = boost::from_local_8_bit(enc(v)); } catch (const std::exception& e) { t = true; wa = e.what(); }
        if (rep && (t || b != v)) c.fail("local-in", t ? wa : mon::show(b));
        string m = enc(v); if (!m.empty() && u8) { m.resize(r.below((unsigned)m.size())); if (form(m) == BROKEN) { string q = refuses([&] { b = boost::from_local_8_bit(m); }); c.cur += " bytes " + mon::show(m); c.count("local-truncated"); if (!q.empty()) c.fail("malformed-accepted", "truncated text in the local encoding gives " + mon::show(b)); } }
        std::locale::global(old);
    }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    for (int plane = 0; plane < 17; ++plane) f.push_back({"every code point, plane " + std::to_string(plane), [plane](Ctx& c) {
        Rng& r = c.r; u_int64_t n = 0;
        for (unsigned u = (unsigned)plane * 0x10000; u < ((unsigned)plane + 1) * 0x10000; ++u) {
            if (u >= 0xd800 && u < 0xe000) continue;
            W w(1, (wchar_t)u); string e; enc(u, e); unsigned pad = r.below(40); W pw = W(pad, L'p') + w + L"q"; string pe = string(pad, 'p') + e + "q";
            if (boost::to_utf8(w) != e || boost::from_utf8(e) != w || boost::to_utf8(pw) != pe || boost::from_utf8(pe) != pw) { c.cur = "code point " + std::to_string(u) + " pad " + std::to_string(pad); c.fail("utf8-encoding", "does not round trip"); }
            ++n;
        }
        c.eval(); c.count("code-points", n);
    }});
    f.push_back({"every width at every buffer offset", [](Ctx& c) {
        static const unsigned us[] = {'z', 0xe9, 0x20ac, 0x1f600};
        for (size_t pad = 0; pad < 70; ++pad) for (unsigned a : us) for (unsigned b : us) for (size_t tail = 0; tail < 35; tail += 17) {
            W w = W(pad, L'x') + (wchar_t)a + (wchar_t)b + W(tail, L'y'); string e = enc(w); c.cur = "pad " + std::to_string(pad) + " " + mon::show(w);
            if (boost::to_utf8(w) != e) c.fail("utf8-encoding", "differs"); if (boost::from_utf8(e) != w) c.fail("utf8-decoding", "differs");
            for (size_t cut = pad + 1; cut < e.size() - tail; ++cut) { string m = e.substr(0, cut); if (form(m) == BROKEN) { c.count("malformed"); if (!refuses([&] { boost::from_utf8(m); }).empty()) c.fail("malformed-accepted", mon::show(m)); } }
            c.count("offsets");
        }
        c.eval();
    }});
    f.push_back({"all byte strings of one and two bytes, all leads with continuations", [](Ctx& c) {
        u_int64_t n = 0;
        auto one = [&](const string& m) { ++n; Form f = form(m); W d; bool t = false; try { d = boost::from_utf8(m); } catch (const std::exception&) { t = true; } c.cur = "bytes " + mon::show(m); if (f == BROKEN ? !t : f == WELL ? t || enc(d) != m : false) c.fail(f == BROKEN ? "malformed-accepted" : "utf8-decoding", mon::show(d)); };
        for (int i = 0; i < 256; ++i) { one(string(1, (char)i)); for (int j = 0; j < 256; ++j) { one(string(1, (char)i) + (char)j); one(string(1, (char)i) + "\x80\x80" + (char)j); one(string(1, (char)i) + (char)j + "\x80\x80\x80\x80\x80"); one(string(1, (char)i) + (char)j + "\x80"); } }
        c.eval(); c.count("byte-strings", n);
    }});
    f.push_back({"long text", [](Ctx& c) { W w; for (unsigned i = 0; i < 300000; ++i) w += (wchar_t)(i * 7919u % 0xd800); c.eval(); c.cur = "300000 characters"; if (boost::to_utf8(w) != enc(w) || boost::from_utf8(enc(w)) != w) c.fail("utf8-encoding", "long text"); }});
    return f;
}
MON_MAIN(fixed(), random_case)
