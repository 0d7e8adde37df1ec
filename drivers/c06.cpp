// C06: unregistered options. Oracles: construction with disjoint name sets (ownership of every
// token is known), the reference model on hostile lines, and two-stage parsing.
#include "world.hpp"
using namespace cli; using mon::Ctx;

static vector<string> ascii_w2n(const vector<std::wstring>& v) { vector<string> r; for (auto& s : v) { string n; for (wchar_t ch : s) n += (char)ch; r.push_back(n); } return r; }
static bool ascii(const vector<string>& v) { for (auto& s : v) for (unsigned char ch : s) if (ch >= 128) return false; return true; }

static void constructed(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.need_short = r.chance(60); g.max_opts = 5;
    int style = gen_style(r); g.nodup_ci = (style & st::case_insensitive) != 0;
    Table known = gen_table(r, g), unk;
    static const vector<string> un = {"kk-alpha", "kkb", "kkbeta", "kw", "ww-x", "Yonder", "kquery"};
    std::set<string> used; std::set<char> us;
    unsigned nu = 1 + r.below(3);
    for (unsigned i = 0; i < nu; ++i) {
        Opt o; o.ar = (Arity)r.below(N_ARITY);
        string n = r.pick(un); if (used.insert(n).second) o.longs.push_back(n);
        char ch = "kwY3"[r.below(4)]; if (us.insert(ch).second && (r.chance(60) || o.longs.empty())) o.sh = ch;
        if (o.longs.empty() && !o.sh) continue;
        unk.push_back(o);
    }
    if (unk.empty()) { Opt o; o.longs.push_back("kk-alpha"); unk.push_back(o); }
    Table both(known); both.insert(both.end(), unk.begin(), unk.end());
    auto is_unk = [&](int i) { return i >= (int)known.size(); };
    po::options_description dk, du; build(known, dk); build(unk, du);
    Speller sp(both, style, r);
    Model mk{known, style, true, 0, {}};
    for (int k = 0; k < 3; ++k) {
        vector<Item> items = sp.items(7);
        // values of unknown options look like plain arguments or like other unknown options to the first stage
        bool usable = true;
        for (auto& it : items) if (it.opt >= 0 && is_unk(it.opt)) for (auto& v : it.vals) if (!sp.plain(v)) {
            if (r.chance(30) && sp.has(st::allow_long) && min_tok(both[(size_t)it.opt].ar) && it.vals.size() == 1) v = "--kk-zz"; else v = plain_value(r);
        }
        for (auto& it : items) for (auto& v : it.vals) if (v.empty() && it.opt >= 0 && is_unk(it.opt)) v = "e";
        // spelled run by run, so that no group mixes known and unknown options
        vector<string> args, want_all; vector<char> mine;
        for (size_t i = 0; i < items.size() && usable;) {
            size_t j = i; bool u = items[i].opt < 0 || is_unk(items[i].opt);
            while (j < items.size() && (items[j].opt < 0 || is_unk(items[j].opt)) == u) ++j;
            vector<string> a;
            if (!sp.spell(vector<Item>(items.begin() + (long)i, items.begin() + (long)j), a)) { usable = false; break; }
            // positional arguments are mixed freely with the unknown options only where the known ones before do not take them
            args.insert(args.end(), a.begin(), a.end());
            if (u) want_all.insert(want_all.end(), a.begin(), a.end());
            i = j;
        }
        if (!usable) continue;
        // unknown options in the slash or single-dash form must not read as known ones in the first stage
        bool clash = false;
        try { Model m(mk); for (auto& t : want_all) if (m.builtin(t).empty() != sp.m.builtin(t).empty()) clash = true; for (auto& t : want_all) for (auto& raw : m.builtin(t)) if (m.find(raw.name).r != Lookup::NONE) clash = true; } catch (const ModelError&) { clash = true; }
        if (clash) { c.count("skipped-clash"); continue; }
        vector<string> tail;
        bool term = r.chance(25);
        if (term) { args.push_back("--"); unsigned n = r.below(4); for (unsigned i = 0; i < n; ++i) tail.push_back(gen_token(r, both)); args.insert(args.end(), tail.begin(), tail.end()); want_all.insert(want_all.end(), tail.begin(), tail.end()); }
        c.cur = case_desc(known, args, style, true, 0) + " unregistered set" + show(unk);
        po::parsed_options keep(&dk);
        Outcome o = real_parse(dk, args, style, true, 0, &keep);
        c.eval();
        if (o.e != OK) { c.fail("unknown-disturbs", "rejected: " + o.desc()); continue; }
        // registered options are exactly the known items
        string got, want;
        for (auto& p : o.opts) if (!p.unreg && p.pos == -1) got += p.key + mon::show(p.val) + ";";
        unsigned nk = 0, nun = 0;
        for (auto& it : items) if (it.opt >= 0) { if (is_unk(it.opt)) ++nun; else { ++nk; want += both[(size_t)it.opt].key("") + mon::show(it.vals) + ";"; } }
        if (got != want) c.fail("registered-disturbed", "registered options " + got + " expected " + want);
        // no known name among the unregistered
        for (auto& p : o.opts) if (p.unreg && mk.find(p.key).r != Lookup::NONE) c.fail("registered-marked", show(p));
        vector<string> col = po::collect_unrecognized(keep.options, po::include_positional), colx = po::collect_unrecognized(keep.options, po::exclude_positional);
        if (col != want_all) c.fail("collected", "collected " + mon::show(col) + " expected " + mon::show(want_all));
        vector<string> wx; for (auto& p : o.opts) if (p.unreg) wx.insert(wx.end(), p.orig.begin(), p.orig.end());
        if (colx != wx) c.fail("collected-excluding-positional", "collected " + mon::show(colx) + " expected " + mon::show(wx));
        // the map holds no unregistered entry
        po::variables_map vm;
        try { po::store(keep, vm); for (auto& e : vm) { bool ok = false; for (auto& x : known) if (x.key("") == e.first) ok = true; if (!ok) c.fail("unregistered-stored", "map entry " + e.first); } c.count("stored"); }
        catch (const po::error&) { c.count("store-errors"); }
        if (nk && nun) { c.nontrivial(c.cur); c.count(term ? "mixed-with-terminator" : "mixed"); if (c.want_sample()) c.sample(c.cur + " -> collected " + mon::show(col)); }
        // second stage: the collected list against the other option set loses nothing
        bool open = false, ambiguous_tail = false; string w2;
        unsigned np = 0;
        for (auto& it : items) {
            if (it.opt < 0) { if (open) ambiguous_tail = true; w2 += "#" + std::to_string(np++) + mon::show(it.vals) + ";"; }
            else if (is_unk(it.opt)) { w2 += both[(size_t)it.opt].key("") + mon::show(it.vals) + ";"; const Opt& x = both[(size_t)it.opt]; open = max_tok(x.ar) > 1 || (x.ar == IMPL && it.vals.empty()); }
        }
        if (!term && !ambiguous_tail) {
            Outcome o2 = real_parse(du, col, style, false, 0);
            string g2; for (auto& p : o2.opts) g2 += (p.pos == -1 ? p.key : "#" + std::to_string(p.pos)) + mon::show(p.val) + ";";
            if (o2.e != OK) c.fail("second-stage", "second stage rejects: " + o2.desc() + " of " + mon::show(col));
            else if (g2 != w2) c.fail("second-stage", "second stage gives " + g2 + " expected " + w2 + " from " + mon::show(col));
            c.count("second-stages");
        }
        // the wide variant collects the same text
        if (ascii(args)) {
            vector<std::wstring> w; for (auto& s : args) w.push_back(std::wstring(s.begin(), s.end()));
            try {
                po::wparsed_options wp = po::wcommand_line_parser(w).options(dk).style(style).allow_unregistered().run();
                if (ascii_w2n(po::collect_unrecognized(wp.options, po::include_positional)) != want_all) c.fail("collected-wide", "wide collection differs");
                if (ascii_w2n(po::collect_unrecognized(wp.options, po::exclude_positional)) != wx) c.fail("collected-wide", "wide collection without positional arguments differs");
                c.count("wide");
            } catch (const std::exception& e) { c.fail("unknown-disturbs-wide", e.what()); }
        }
    }
}
static void modelled(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.wild = r.chance(10); g.need_short = r.chance(50);
    Table t = gen_table(r, g);
    int style = gen_style(r);
    po::options_description d; build(t, d);
    for (int k = 0; k < 4; ++k) {
        Pos pos = gen_pos(r, t, 30);
        vector<string> a = r.chance(60) ? gen_args(r, t, 8) : gen_good_args(r, t, style, 6);
        for (int j = 0; j < 2; ++j) if (r.chance(50)) a.insert(a.begin() + r.below((unsigned)a.size() + 1), r.chance(50) ? "--unknown" : r.chance(50) ? "--nope=" + gen_value(r) : "-w" + gen_value(r));
        c.cur = case_desc(t, a, style, true, &pos);
        po::parsed_options keep(&d);
        Outcome o = real_parse(d, a, style, true, &pos, &keep), m = model_parse(t, a, style, true, &pos);
        c.eval();
        if (o.e == UNKNOWN) { c.fail("unknown-thrown", "unknown_option although allowed: " + o.what); continue; }
        if (m.e != OK) { c.count("model-rejected"); if (o.e == OK && m.e != OK) c.fail("model-" + diff_kind(o, m), diff(o, m)); continue; }
        c.count("model-accepted");
        if (!diff(o, m).empty()) { c.fail("model-" + diff_kind(o, m), diff(o, m) + " " + o.what); continue; }
        vector<string> w, wx; unsigned nu = 0;
        for (auto& p : m.opts) { if (p.unreg) { ++nu; wx.insert(wx.end(), p.orig.begin(), p.orig.end()); } if (p.unreg || p.pos != -1) w.insert(w.end(), p.orig.begin(), p.orig.end()); }
        if (po::collect_unrecognized(keep.options, po::include_positional) != w) c.fail("collected", "collection with positional arguments differs");
        if (po::collect_unrecognized(keep.options, po::exclude_positional) != wx) c.fail("collected-excluding-positional", "collection without positional arguments differs");
        if (nu && m.opts.size() > nu) c.nontrivial(c.cur);
    }
}
// unregistered options recognised by the user's parsers, which may take any number of arguments each
static vector<po::option> several(vector<string>& a) {
    vector<po::option> r;
    if (a[0].size() < 2 || a[0][0] != '+') return r;
    size_t n = std::min<size_t>((size_t)(a[0][1] - '0'), a.size() - 1);
    po::option o; o.string_key = a[0].substr(2); o.value.assign(a.begin() + 1, a.begin() + 1 + (long)n); o.original_tokens.assign(a.begin(), a.begin() + 1 + (long)n);
    a.erase(a.begin(), a.begin() + 1 + (long)n); r.push_back(o); return r;
}
static std::pair<string, string> at(const string& s) { if (s.size() < 2 || s[0] != '@') return std::make_pair(string(), string()); size_t e = s.find(':'); return e == string::npos ? std::make_pair(s.substr(1), string()) : std::make_pair(s.substr(1, e - 1), s.substr(e + 1)); }
template<class O> static string marks(const vector<O>& v) { string r; for (auto& o : v) r += o.string_key + (o.unregistered ? "!" : "") + (o.position_key == -1 ? "" : "#" + std::to_string(o.position_key)) + "/" + std::to_string(o.value.size()) + "/" + std::to_string(o.original_tokens.size()) + ";"; return r; }
static void custom(Ctx& c) {
    Rng& r = c.r; po::options_description d; d.add_options()("foo,f", po::value<string>(), "")("multi,m", po::value<vector<string> >()->multitoken(), "")("verbose,v", "");
    bool token_parser = r.chance(40);
    vector<string> a, col, colx; string want; int pos = 0; unsigned unreg = 0; unsigned n = r.below(7);
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = r.below(6); string v = "v" + std::to_string(r.below(50));
        if (k < 3) {
            string nm = r.chance(70) ? "unk" + std::to_string(i) : r.chance(50) ? "foo" : "multi"; bool known = nm[0] != 'u'; unsigned q;
            if (token_parser) { bool val = known || r.chance(50); a.push_back("@" + nm + (val ? ":" + v : "")); want += nm + (known ? "" : "!") + "/" + (val ? "1" : "0") + "/1;"; q = 0; if (!known) { col.push_back(a.back()); colx.push_back(a.back()); ++unreg; } }
            else { q = known ? 1 : r.below(4); a.push_back("+" + std::to_string(q) + nm); vector<string> own(1, a.back()); for (unsigned j = 0; j < q; ++j) { own.push_back(r.chance(30) ? "--verbose" : "w" + std::to_string(r.below(9))); a.push_back(own.back()); } want += nm + (known ? "" : "!") + "/" + std::to_string(q) + "/" + std::to_string(q + 1) + ";"; if (!known) { col.insert(col.end(), own.begin(), own.end()); colx.insert(colx.end(), own.begin(), own.end()); ++unreg; } }
            if (nm == "multi") { a.push_back("-v"); want += "verbose/0/1;"; }
        } else if (k == 3) { a.push_back("--verbose"); want += "verbose/0/1;"; }
        else if (k == 4) { a.push_back("--zzz=" + v); want += "zzz!/1/1;"; col.push_back(a.back()); colx.push_back(a.back()); ++unreg; }
        else { a.push_back(v); want += "#" + std::to_string(pos++) + "/1/1;"; col.push_back(v); }
    }
    c.cur = string(token_parser ? "token" : "style") + " parser, args " + mon::show(a); c.eval(); c.count("user-parsers");
    try {
        po::command_line_parser p(a); p.options(d).allow_unregistered(); if (token_parser) p.extra_parser(at); else p.extra_style_parser(several);
        po::parsed_options np = p.run();
        vector<std::wstring> wa; for (auto& s : a) wa.push_back(std::wstring(s.begin(), s.end()));
        po::wcommand_line_parser q(wa); q.options(d).allow_unregistered(); if (token_parser) q.extra_parser(at); else q.extra_style_parser(several);
        po::wparsed_options wp = q.run();
        if (marks(np.options) != want) c.fail("user-parser-marks", marks(np.options) + " expected " + want);
        if (marks(wp.options) != want) c.fail("user-parser-marks-wide", marks(wp.options) + " expected " + want);
        if (po::collect_unrecognized(np.options, po::include_positional) != col || po::collect_unrecognized(np.options, po::exclude_positional) != colx) c.fail("user-parser-collected", mon::show(po::collect_unrecognized(np.options, po::include_positional)) + " expected " + mon::show(col));
        if (ascii_w2n(po::collect_unrecognized(wp.options, po::include_positional)) != col || ascii_w2n(po::collect_unrecognized(wp.options, po::exclude_positional)) != colx) c.fail("user-parser-collected-wide", mon::show(po::collect_unrecognized(wp.options, po::include_positional)) + " expected " + mon::show(col));
        // unknown options never reach the map
        for (auto& o : np.options) { static std::map<string, int> times; if (&o == &np.options[0]) times.clear(); if (o.string_key != "multi" && !o.unregistered && o.position_key == -1 && ++times[o.string_key] > 1) goto done; }      // a repetition is refused
        { po::variables_map vm, wm; po::store(np, vm); po::store(wp, wm); for (auto* m : {&vm, &wm}) for (auto& e : *m) if (e.first != "foo" && e.first != "multi" && e.first != "verbose") c.fail("unregistered-stored", "map entry " + e.first); }
    } catch (const std::exception& e) { c.fail("user-parser-disturbs", e.what()); }
done:
    if (unreg && unreg * 2 < n + 1) c.nontrivial(c.cur);
}
static void random_case(Ctx& c) { if (c.r.chance(55)) constructed(c); else if (c.r.chance(75)) modelled(c); else custom(c); }
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"parse-functions", [](Ctx& c) {
        po::options_description d; d.add_options()("foo,f", po::value<string>())("v", "x");
        c.eval();
        // unregistered from a config file and the environment reach neither the map nor an error
        std::istringstream is("foo = 1\nother = 2\n[s]\nv2 = 3\n");
        po::parsed_options p = po::parse_config_file(is, d, true);
        po::variables_map vm; po::store(p, vm);
        if (vm.size() != 1 || vm["foo"].as<string>() != "1") c.fail("config-unregistered", map_text(vm));
        vector<string> col = po::collect_unrecognized(p.options, po::include_positional), w = {"other", "2", "s.v2", "3"};
        if (col != w) c.fail("config-collected", mon::show(col));
        vector<string> col2 = po::collect_unrecognized(p.options, po::exclude_positional);
        if (col2 != w) c.fail("config-collected", mon::show(col2));
    }});
    for (int style : world::styles()) f.push_back({"all lines, style " + std::to_string(style), [style](Ctx& c) {
        unsigned k = 0, bad = 0;
        auto judge = [&](const Table& t, const po::options_description& d, const vector<string>& a, bool) {
            po::parsed_options keep(&d);
            Outcome o = real_parse(d, a, style, true, 0, &keep), m = model_parse(t, a, style, true, 0);
            c.eval(); c.count("small-world-lines");
            if (!diff(o, m).empty()) { c.cur = case_desc(t, a, style, true, 0); c.fail("small-world-" + diff_kind(o, m), diff(o, m) + " " + o.what); return ++bad < 4; }
            if (m.e != OK) return true;
            vector<string> in, ex; bool un = false;
            for (auto& p : m.opts) { if (p.unreg || p.pos != -1) in.insert(in.end(), p.orig.begin(), p.orig.end()); if (p.unreg) { un = true; ex.insert(ex.end(), p.orig.begin(), p.orig.end()); } }
            if (po::collect_unrecognized(keep.options, po::include_positional) != in || po::collect_unrecognized(keep.options, po::exclude_positional) != ex) { c.cur = case_desc(t, a, style, true, 0); c.fail("small-world-collected", mon::show(po::collect_unrecognized(keep.options, po::include_positional))); return ++bad < 4; }
            if (un) { c.count("small-world-unregistered"); if (++k % 5 == 0) c.nontrivial(std::to_string(style) + mon::show(a)); }
            return true; };
        world::each_line(judge); world::each_token(judge, 3);
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
