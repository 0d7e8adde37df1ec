// C04: positional binding. Oracles: construction (the positionals are known before spelling), the
// declaration itself for names and counts, and the reference model on hostile lines.
#include "world.hpp"
using namespace cli; using mon::Ctx;

static void declared(Ctx& c, const Pos& p) {
    po::positional_options_description d = make_pos(p);
    c.cur = "positional " + p.show();
    c.eval();
    unsigned lim = p.limit();
    if (d.max_total_count() != lim) c.fail("max-total-count", "max_total_count " + std::to_string(d.max_total_count()) + " expected " + std::to_string(lim));
    for (unsigned i = 0; i < 14 && i < lim; ++i) {
        c.count("names-asked");
        if (d.name_for_position(i) != p.name(i)) c.fail("name-for-position", "position " + std::to_string(i) + " is " + mon::show(d.name_for_position(i)) + " expected " + mon::show(p.name(i)));
    }
    if (lim == UINT_MAX) for (unsigned big : {100u, 65536u, 0x7fffffffu, 0xfffffffeu}) if (d.name_for_position(big) != p.name(big)) c.fail("name-for-position", "position " + std::to_string(big));
    po::positional_options_description e(d), f; f = d;
    if (e.max_total_count() != lim || f.max_total_count() != lim) c.fail("copied-description", "a copy differs");
}
static void constructed(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.need_short = r.chance(60); g.max_opts = 5;
    int style = gen_style(r); g.nodup_ci = (style & st::case_insensitive) != 0;
    Table t = gen_table(r, g);
    Opt pv; pv.longs.push_back("pos-all"); pv.ar = VEC; t.push_back(pv);
    po::options_description d; build(t, d);
    Speller sp(t, style, r);
    for (int k = 0; k < 3; ++k) {
        vector<Item> items = sp.items(7);
        for (auto it = items.begin(); it != items.end();) if (it->opt == (int)t.size() - 1) it = items.erase(it); else ++it;
        vector<string> a, want;
        // an erased item may have separated an open option from a positional one
        bool open = false, bad = false;
        for (auto& i : items) { if (i.opt < 0) { if (open) bad = true; want.push_back(i.vals[0]); } open = i.opt >= 0 && (max_tok(t[(size_t)i.opt].ar) > 1 || (t[(size_t)i.opt].ar == IMPL && i.vals.empty())); }
        if (bad || !sp.spell(items, a)) continue;
        bool term = r.chance(60);
        if (term) {
            a.push_back("--"); unsigned n = r.below(5);
            for (unsigned i = 0; i < n; ++i) { string s = r.chance(70) ? gen_token(r, t) : gen_value(r); a.push_back(s); want.push_back(s); }
        }
        Pos pos = r.chance(40) ? gen_pos(r, t, 100) : Pos();
        if (!pos.used) { pos.used = r.chance(70); if (r.chance(50)) pos.adds.push_back(std::make_pair(string("first"), (int)r.below(3))); pos.adds.push_back(std::make_pair(string("pos-all"), r.chance(80) ? -1 : (int)want.size())); }
        c.cur = case_desc(t, a, style, false, &pos);
        po::parsed_options keep(&d);
        Outcome o = real_parse(d, a, style, false, &pos, &keep);
        c.eval();
        if (pos.used && want.size() > pos.limit()) {
            c.count("too-many");
            if (o.e != TOO_MANY) c.fail("too-many-accepted", "got " + o.desc());
            continue;
        }
        if (o.e != OK) { c.fail("rejected", "got " + o.desc()); continue; }
        unsigned n = 0; vector<string> all;
        for (auto& p : o.opts) {
            if (p.pos == -1) continue;
            if (n >= want.size()) { c.fail("surplus-positional", show(p)); break; }
            string nm = pos.used ? pos.name(n) : string();
            if (p.pos != (int)n) c.fail("position-number", show(p) + " expected position " + std::to_string(n));
            if (p.key != nm) c.fail("position-name", show(p) + " expected name " + mon::show(nm));
            if (p.val != vector<string>(1, want[n])) c.fail("position-value", show(p) + " expected " + mon::show(want[n]));
            if (nm == "pos-all") all.push_back(want[n]);
            ++n;
        }
        if (n < want.size()) c.fail("lost-positional", std::to_string(n) + " positional options, expected " + std::to_string(want.size()) + ": " + o.desc());
        if (want.size() >= 2) { c.nontrivial(c.cur); c.count(term ? "bound-with-terminator" : "bound"); }
        // what arrives in the map under a positional name (only when every name is storable)
        bool storable = pos.used && n == want.size();
        for (unsigned i = 0; i < n && storable; ++i) if (pos.name(i) != "pos-all") storable = false;
        if (storable && n) {
            for (auto& x : keep.options) if (x.position_key == -1) x.unregistered = true;   // leave the other options out of the map
            po::variables_map vm;
            try { po::store(keep, vm); if (vm["pos-all"].as<vector<string> >() != all) c.fail("stored-positionals", mon::show(vm["pos-all"].as<vector<string> >()) + " expected " + mon::show(all)); c.count("stored-positionals"); }
            catch (const std::exception& e) { c.fail("stored-positionals", string("store throws ") + e.what()); }
        }
        if (c.want_sample() && want.size() > 2 && term) c.sample(c.cur + " -> " + o.desc());
    }
}
static void modelled(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.wild = r.chance(10); g.need_short = r.chance(50);
    Table t = gen_table(r, g);
    int style = gen_style(r);
    po::options_description d; build(t, d);
    for (int k = 0; k < 4; ++k) {
        bool unreg = r.chance(50);
        Pos pos = gen_pos(r, t, 70);
        vector<string> a = r.chance(40) ? gen_args(r, t, 7) : gen_good_args(r, t, style, 8);
        if (r.chance(30)) a.insert(a.begin() + r.below((unsigned)a.size() + 1), "--");
        c.cur = case_desc(t, a, style, unreg, &pos);
        Outcome o = real_parse(d, a, style, unreg, &pos), m = model_parse(t, a, style, unreg, &pos);
        c.eval();
        // only the positional part is judged here
        auto only = [](Outcome x) { Outcome y = x; y.opts.clear(); for (auto& p : x.opts) if (p.pos != -1) y.opts.push_back(p); return y; };
        if (m.e != OK && m.e != TOO_MANY) { c.count("model-other-error"); continue; }
        Outcome ro = only(o), mo = only(m);
        if (!diff(ro, mo).empty()) c.fail("model-" + diff_kind(ro, mo), diff(ro, mo) + " " + o.what);
        c.count(m.e == OK ? "model-accepted" : "model-too-many");
        if (mo.opts.size() > 1) c.nontrivial(c.cur);
    }
}
static void random_case(Ctx& c) {
    unsigned k = c.r.below(10);
    if (k < 2) { Table t = gen_table(c.r); declared(c, gen_pos(c.r, t, 100)); }
    else if (k < 7) constructed(c);
    else modelled(c);
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"large-counts", [](Ctx& c) {
        Pos p; p.used = true; p.adds = {{"a", 300}, {"b", 0}, {"a", 2}, {"c", 1000}, {"t", -1}};
        c.eval(); c.cur = p.show();
        po::positional_options_description d = make_pos(p);
        for (unsigned i = 0; i < 1400; ++i) if (d.name_for_position(i) != p.name(i)) { c.fail("name-for-position", "position " + std::to_string(i)); break; }
        po::options_description none;
        vector<string> a; for (int i = 0; i < 1400; ++i) a.push_back("v" + std::to_string(i));
        Outcome o = real_parse(none, a, st::unix_style, false, &p);
        if (o.e != OK || o.opts.size() != 1400) c.fail("many-positionals", o.desc().substr(0, 300));
        else for (int i = 0; i < 1400; ++i) if (o.opts[(size_t)i].key != p.name((unsigned)i) || o.opts[(size_t)i].pos != i || o.opts[(size_t)i].val[0] != a[(size_t)i]) { c.fail("many-positionals", show(o.opts[(size_t)i])); break; }
    }});
    f.push_back({"none-allowed", [](Ctx& c) {
        Pos p; p.used = true; po::options_description none; c.eval();
        if (make_pos(p).max_total_count() != 0) c.fail("max-total-count", "empty description");
        if (real_parse(none, {"x"}, st::unix_style, false, &p).e != TOO_MANY) c.fail("too-many-accepted", "one argument for an empty description");
        if (real_parse(none, {"--"}, st::unix_style, false, &p).e != OK) c.fail("rejected", "bare terminator");
    }});
    for (int style : world::styles()) f.push_back({"all lines, style " + std::to_string(style), [style](Ctx& c) {
        vector<Pos> ps(6); for (auto& p : ps) p.used = true;
        ps[1].adds = {{"p", 1}}; ps[2].adds = {{"p", 1}, {"q", 1}}; ps[3].adds = {{"p", -1}}; ps[4].adds = {{"p", 2}, {"r", -1}}; ps[5].adds = {{"p", 0}, {"q", 1}, {"p", 1}};
        unsigned k = 0, bad = 0;
        world::each_line([&](const Table& t, const po::options_description& d, const vector<string>& a, bool un) {
            const Pos& p = ps[++k % ps.size()];
            Outcome o = real_parse(d, a, style, un, &p), m = model_parse(t, a, style, un, &p);
            if (m.e != OK && m.e != TOO_MANY) return true;
            c.eval(); c.count("small-world-lines");
            auto only = [](Outcome x) { Outcome y = x; y.opts.clear(); for (auto& q : x.opts) if (q.pos != -1) y.opts.push_back(q); return y; };
            Outcome ro = only(o), mo = only(m);
            if (!diff(ro, mo).empty()) { c.cur = case_desc(t, a, style, un, &p); c.fail("small-world-" + diff_kind(ro, mo), diff(ro, mo) + " " + o.what); if (++bad > 3) return false; }
            if (mo.opts.size() > 1 && k % 5 == 0) c.nontrivial(std::to_string(style) + mon::show(a));
            return true; });
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
