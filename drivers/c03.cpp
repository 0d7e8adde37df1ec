// C03: rejection is sound and complete. Two oracles: injected defects with the error known by
// construction, and agreement with the reference model in both directions.
#include "world.hpp"
using namespace cli; using mon::Ctx;

static void injected(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.need_short = r.chance(60); g.wild = r.chance(10);
    int style = gen_style(r);
    g.nodup_ci = (style & st::case_insensitive) != 0;
    Table t = gen_table(r, g);
    po::options_description d; build(t, d);
    Speller sp(t, style, r);
    bool wild = false; for (auto& o : t) for (auto& l : o.longs) if (l.back() == '*') wild = true;
    if (wild) return;
    for (int k = 0; k < 4; ++k) {
        vector<Item> items = sp.items(5), head(items.begin(), items.begin() + r.below((unsigned)items.size() + 1)), tail(items.begin() + (long)head.size(), items.end());
        vector<string> a, b; 
        if (!sp.spell(head, a) || !sp.spell(tail, b)) continue;
        bool lng = sp.has(st::allow_long), unreg = false, wholeline = false; vector<string> bad; Err want = OK;
        const Opt& o = t[r.below((unsigned)t.size())];
        auto long_or_short = [&](string& s, bool adjacent) {
            if (lng && !o.longs.empty() && (!o.sh || !sp.dash() || adjacent || r.chance(60))) { s = "--" + r.pick(o.longs); return true; }
            if (o.sh && !adjacent && sp.dash() && !sp.disguise_hit(string("-") + o.sh)) { s = string("-") + o.sh; return true; }
            if (o.sh && !adjacent && sp.slash() && !sp.disguise_hit(string("/") + o.sh)) { s = string("/") + o.sh; return true; }
            return false;
        };
        string s;
        switch (r.below(8)) {
        case 0: {   // unknown long
            if (!lng) continue;
            string n = r.chance(50) ? string("zz-") + r.pick(long_pool()) : r.pick(long_pool()) + "zz";
            if (sp.m.find(n).r != Lookup::NONE) continue;
            s = "--" + n; if (r.chance(40)) s += "=" + plain_value(r);
            want = UNKNOWN; break; }
        case 1: {   // unknown short, alone or in a group
            if (!sp.dash() && !sp.slash()) continue;
            string pre = sp.dash() && (!sp.slash() || r.chance(70)) ? "-" : "/";
            char ch = "kwZ3"[r.below(4)];
            if (lookup(t, string("-") + ch, false, false, sp.has(st::short_case_insensitive)).r != Lookup::NONE) continue;
            s = pre;
            if (pre == "-" && sp.has(st::allow_sticky) && r.chance(40)) { for (auto& x : t) if (x.sh && max_tok(x.ar) == 0) { s += x.sh; break; } }
            s += ch; if (r.chance(30)) s += "x";
            if (sp.disguise_hit(s)) continue;
            want = UNKNOWN; break; }
        case 2: {   // ambiguous abbreviation
            if (!lng || o.longs.empty()) continue;
            string n = o.longs[0].substr(0, 1 + r.below((unsigned)o.longs[0].size()));
            if (sp.m.find(n).r != Lookup::AMBIG) continue;
            s = "--" + n; unreg = r.chance(50); want = AMBIGUOUS; break; }
        case 3:     // required value missing at the end of the line
            if (min_tok(o.ar) == 0 || !long_or_short(s, false)) continue;
            wholeline = true; unreg = r.chance(50); want = MISSING; break;
        case 4: {   // required value missing before a declared short option
            if (min_tok(o.ar) == 0 || !sp.dash() || !long_or_short(s, false)) continue;
            const Opt& p = t[r.below((unsigned)t.size())];
            if (!p.sh || sp.disguise_hit(string("-") + p.sh)) continue;
            bad.push_back(s); s = string("-") + p.sh; unreg = r.chance(50); want = MISSING; break; }
        case 5:     // nothing behind the equal sign
            if (!lng || !long_or_short(s, true)) continue;
            s += "="; unreg = r.chance(50); want = EMPTY_ADJ; break;
        case 6: {   // a value given to an option that takes none
            if (max_tok(o.ar) != 0) continue;
            if (r.chance(60) || !sp.slash()) { if (!lng || !long_or_short(s, true)) continue; s += "=" + plain_value(r); }
            else { if (!o.sh) continue; s = string("/") + o.sh + "v"; if (sp.disguise_hit(s)) continue; }
            unreg = r.chance(50); want = EXTRA; break; }
        default: {  // more positional arguments than allowed
            Pos p; p.used = true;
            unsigned np = 0; for (auto& i : items) if (i.opt < 0) ++np;
            if (!np) continue;
            unsigned lim = r.below(np);
            if (lim) p.adds.push_back(std::make_pair(string("p"), (int)lim));
            vector<string> all(a); all.insert(all.end(), b.begin(), b.end());
            c.cur = case_desc(t, all, style, false, &p);
            c.eval(); c.nontrivial(c.cur); c.count("injected-too_many_positional");
            Outcome out = real_parse(d, all, style, false, &p);
            if (out.e != TOO_MANY) c.fail("injected-too_many_positional", "got " + out.desc());
            // and exactly as many as allowed are accepted
            p.adds.clear(); p.adds.push_back(std::make_pair(string("p"), (int)np));
            out = real_parse(d, all, style, false, &p);
            c.cur = case_desc(t, all, style, false, &p);
            if (out.e != OK) c.fail("good-line-rejected", "got " + out.desc());
            continue; }
        }
        vector<string> all(a); bad.push_back(s); all.insert(all.end(), bad.begin(), bad.end());
        // the untouched line is accepted
        vector<string> good(a); good.insert(good.end(), b.begin(), b.end());
        Outcome out = real_parse(d, good, style, false, 0);
        c.cur = case_desc(t, good, style, false, 0);
        c.eval(); c.count("good-lines");
        if (out.e != OK) c.fail("good-line-rejected", "got " + out.desc());
        if (!wholeline) all.insert(all.end(), b.begin(), b.end());
        out = real_parse(d, all, style, unreg, 0);
        c.cur = case_desc(t, all, style, unreg, 0);
        c.eval(); c.nontrivial(c.cur);
        c.count((string("injected-") + err_name(want)).c_str());
        if (out.e != want) c.fail(string("injected-") + err_name(want), "got " + out.desc());
        else if (want == AMBIGUOUS) {
            // reported with the candidates
            vector<string> w = sp.m.find(s.substr(2)).alts, h = out.alts;
            std::sort(w.begin(), w.end()); std::sort(h.begin(), h.end());
            if (w != h) c.fail("ambiguous-candidates", "listed " + mon::show(h) + " expected " + mon::show(w));
        }
        // a bare -- before it takes the defect away, unless an option is asking for a value or too many arguments remain
        vector<string> hid(a); hid.push_back("--"); hid.insert(hid.end(), bad.begin(), bad.end()); hid.insert(hid.end(), b.begin(), b.end());
        out = real_parse(d, hid, style, false, 0);
        c.cur = case_desc(t, hid, style, false, 0);
        c.eval();
        if (out.e != OK) c.fail("rejected-behind-terminator", "got " + out.desc());
        if (c.want_sample()) c.sample(case_desc(t, all, style, unreg, 0) + " -> " + err_name(want));
    }
}
static void modelled(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.wild = r.chance(10); g.need_short = r.chance(50); g.user_pct = r.chance(40) ? 25 : 0;
    Table t = gen_table(r, g);
    int style = gen_style(r);
    po::options_description d; build(t, d);
    for (int k = 0; k < 4; ++k) {
        bool unreg = r.chance(40);
        Pos pos = gen_pos(r, t, 40);
        vector<string> a = r.chance(40) ? gen_args(r, t, 6) : gen_good_args(r, t, style, 6);
        if (r.chance(25)) a.insert(a.begin() + r.below((unsigned)a.size() + 1), gen_token(r, t));
        c.cur = case_desc(t, a, style, unreg, &pos);
        Outcome o = real_parse(d, a, style, unreg, &pos), m = model_parse(t, a, style, unreg, &pos);
        c.eval(); c.count((string("model-") + err_name(m.e)).c_str());
        if (o.e != m.e) c.fail("model-" + diff_kind(o, m), diff(o, m) + " (" + o.what + ")");
        if (m.e != OK) c.nontrivial(c.cur);
    }
}
static void random_case(Ctx& c) { if (c.r.chance(60)) injected(c); else modelled(c); }
// small worlds (world.hpp) against the model
static bool judge_line(Ctx& c, const Table& t, const po::options_description& d, const vector<string>& a, int style, bool unreg, const Pos* pos) {
    Outcome o = real_parse(d, a, style, unreg, pos), m = model_parse(t, a, style, unreg, pos);
    c.eval(); c.count("small-world-lines"); c.count((string("small-world-") + err_name(m.e)).c_str());
    if (!diff(o, m).empty()) { c.cur = case_desc(t, a, style, unreg, pos); c.fail("small-world-" + diff_kind(o, m), diff(o, m) + " (" + o.what + ")"); return false; }
    return true;
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    for (int style : world::styles()) f.push_back({"all tokens, style " + std::to_string(style), [style](Ctx& c) {
        unsigned bad = 0;
        world::each_token([&](const Table& t, const po::options_description& d, const vector<string>& a, bool un) {
            c.cur = "tokens " + mon::show(a); c.nontrivial(std::to_string(style) + a[0]);
            return judge_line(c, t, d, a, style, un, 0) || ++bad < 4; });
    }});
    for (int style : world::styles()) f.push_back({"all lines, style " + std::to_string(style), [style](Ctx& c) {
        Pos pos; pos.used = true; pos.adds = {{"p", 1}, {"q", 1}}; unsigned bad = 0, k = 0;
        world::each_line([&](const Table& t, const po::options_description& d, const vector<string>& a, bool un) {
            c.cur = "line " + mon::show(a); if (a.size() < 3 || ++k % 7 == 0) c.nontrivial(std::to_string(style) + c.cur);
            return judge_line(c, t, d, a, style, un, k % 3 ? &pos : 0) || ++bad < 4; });
    }});
    for (int style : world::styles()) f.push_back({"own semantics, style " + std::to_string(style), [style](Ctx& c) {
        unsigned bad = 0, k = 0;
        world::each_user_line([&](const Table& t, const po::options_description& d, const vector<string>& a, bool un) {
            c.cur = "line " + mon::show(a); if (a.size() < 3 || ++k % 7 == 0) c.nontrivial(std::to_string(style) + c.cur);
            c.count("small-world-own-semantics");
            return judge_line(c, t, d, a, style, un, 0) || ++bad < 4; });
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
