// C08: token consumption per arity. Every arity x spelling x three following tokens from an
// alphabet of boundary shapes, against a directly written consumption rule and the model.
#include "spell.hpp"
using namespace cli; using mon::Ctx;

static const vector<string>& alphabet() { static const vector<string> a = {"plain", "-d", "-dv", "--dd", "--dd=1", "--", "", "-", "--unk", "-u", "--=", "-1"}; return a; }
// the rule, for an option followed by tokens, in the default style with declared flag --dd,-d; returns how many following tokens are its values; -1 missing
static int consumed(Arity ar, bool adjacent, const vector<string>& f, vector<string>& vals) {
    // kinds of following tokens: is it an option argument, is it exactly a declared short option
    auto is_opt = [](const string& s) { return (s.size() >= 3 && s[0] == '-' && s[1] == '-' && s[2] != '=') || (s.size() >= 2 && s[0] == '-' && s[1] != '-'); };
    size_t i = 0;
    unsigned have = adjacent ? 1 : 0;
    if (have + f.size() < min_tok(ar)) return -1;
    while (min_tok(ar) > have) {
        if (f[i] == "-d") return -1;
        vals.push_back(f[i]); ++i; ++have;
    }
    if (min_tok(ar) == max_tok(ar)) return (int)i;
    while (have < max_tok(ar) && i < f.size() && f[i] != "--" && !is_opt(f[i])) { vals.push_back(f[i]); ++i; ++have; }
    return (int)i;
}
static void enumerate(Ctx& c, Arity ar, int spelling) {
    Table t(2); t[0].longs.push_back("opt"); t[0].sh = 'o'; t[0].ar = ar; t[1].longs.push_back("dd"); t[1].sh = 'd'; t[1].ar = FLAG;
    po::options_description d; build(t, d);
    const vector<string>& al = alphabet();
    bool adjacent = spelling & 1; static const char* sp[] = {"--opt", "--opt=adj", "-o", "-oadj"};
    for (size_t i = 0; i <= al.size(); ++i) for (size_t j = 0; j <= al.size(); ++j) for (size_t k = 0; k <= al.size(); ++k) {
        vector<string> f;
        if (i == 0 && (j || k)) continue;
        if (j == 0 && k) continue;
        if (i) f.push_back(al[i - 1]);
        if (j) f.push_back(al[j - 1]);
        if (k) f.push_back(al[k - 1]);
        vector<string> a(1, sp[spelling]); a.insert(a.end(), f.begin(), f.end());
        c.cur = case_desc(t, a, st::unix_style, true, 0);
        Outcome o = real_parse(d, a, st::unix_style, true, 0), m = model_parse(t, a, st::unix_style, true, 0);
        c.eval(); c.count("enumerated");
        if (!diff(o, m).empty()) c.fail("model-" + diff_kind(o, m), diff(o, m) + " " + o.what);
        if (adjacent && max_tok(ar) == 0) { if (spelling == 1 && o.e != EXTRA) c.fail("surplus-value", "a value for a valueless option: " + o.desc()); continue; }
        vector<string> vals; if (adjacent) vals.push_back("adj");
        int n = consumed(ar, adjacent, f, vals);
        if (n < 0) { if (o.e != MISSING) c.fail("missing-not-reported", o.desc()); c.count("missing"); continue; }
        if (o.e != OK) continue;      // an error further on; compared with the model above
        if (o.opts.empty() || o.opts[0].key != "opt" || o.opts[0].val != vals) { c.fail("consumption", o.desc() + " expected values " + mon::show(vals)); continue; }
        // what was not consumed keeps its own meaning
        vector<string> rest(f.begin() + n, f.end());
        Outcome alone = real_parse(d, rest, st::unix_style, true, 0);
        vector<Parsed> tail(o.opts.begin() + 1, o.opts.end());
        bool same_tail = alone.e == OK && alone.opts.size() == tail.size();
        for (size_t q = 0; same_tail && q < tail.size(); ++q) if (!same(tail[q], alone.opts[q])) same_tail = false;
        if (!same_tail) c.fail("rest-changed", "rest parsed as " + show(tail) + " but alone as " + alone.desc());
        if (n) { c.nontrivial(c.cur); c.count("consumed"); }
    }
}
static void random_case(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.need_short = r.chance(60);
    int style = gen_style(r); g.nodup_ci = (style & st::case_insensitive) != 0;
    Table t = gen_table(r, g);
    po::options_description d; build(t, d);
    Speller sp(t, style, r);
    for (int k = 0; k < 3; ++k) {
        vector<Item> items = sp.items(7); vector<string> a;
        if (!sp.spell(items, a)) continue;
        bool term = r.chance(40);
        vector<string> tail; if (term) { a.push_back("--"); unsigned n = r.below(3); for (unsigned i = 0; i < n; ++i) { tail.push_back(gen_token(r, t)); a.push_back(tail.back()); } }
        c.cur = case_desc(t, a, style, false, 0) + " meaning" + show(items, t);
        Outcome o = real_parse(d, a, style, false, 0);
        c.eval();
        if (o.e != OK) { c.fail("constructed-rejected", o.desc()); continue; }
        size_t n = items.size() + tail.size();
        if (o.opts.size() != n) { c.fail("consumption", "got " + o.desc()); continue; }
        for (size_t i = 0; i < items.size(); ++i) if (o.opts[i].val != items[i].vals) { c.fail("consumption", "item " + std::to_string(i) + " has " + show(o.opts[i]) + " expected " + mon::show(items[i].vals)); break; }
        for (size_t i = 0; i < tail.size(); ++i) if (o.opts[items.size() + i].val[0] != tail[i] || o.opts[items.size() + i].pos == -1) { c.fail("taken-behind-terminator", show(o.opts[items.size() + i])); break; }
        // bounds per declaration
        for (auto& p : o.opts) if (p.pos == -1) for (auto& x : t) if (x.key("") == p.key) { if (p.val.size() < min_tok(x.ar) || p.val.size() > max_tok(x.ar)) c.fail("arity-bounds", show(p)); c.count((string("arity-") + arity_name(x.ar)).c_str()); }
        if (items.size() > 1) c.nontrivial(c.cur);
        if (c.want_sample() && items.size() > 3) c.sample(c.cur + " -> " + o.desc());
        // hostile continuation of the same line, against the model
        unsigned m = 1 + r.below(3); for (unsigned i = 0; i < m; ++i) a.push_back(gen_token(r, t));
        bool un = r.chance(50);
        c.cur = case_desc(t, a, style, un, 0);
        Outcome o2 = real_parse(d, a, style, un, 0), m2 = model_parse(t, a, style, un, 0);
        c.eval(); c.count("hostile-continuations");
        if (!diff(o2, m2).empty()) c.fail("model-" + diff_kind(o2, m2), diff(o2, m2) + " " + o2.what);
    }
}
// users' own semantics, with any bounds, among the others
static void own_semantics(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.need_short = r.chance(60); g.user_pct = 45; g.wild = r.chance(10);
    Table t = gen_table(r, g); po::options_description d; build(t, d);
    int style = gen_style(r);
    for (int k = 0; k < 3; ++k) {
        vector<string> a = r.chance(40) ? gen_args(r, t, 7) : gen_good_args(r, t, style, 7);
        unsigned more = r.below(4); for (unsigned i = 0; i < more; ++i) a.push_back(plain_value(r));
        bool un = r.chance(40);
        c.cur = case_desc(t, a, style, un, 0);
        Outcome o = real_parse(d, a, style, un, 0), m = model_parse(t, a, style, un, 0);
        c.eval(); c.count("own-semantics");
        if (!diff(o, m).empty()) { c.fail("own-semantics-" + diff_kind(o, m), diff(o, m) + " " + o.what); continue; }
        if (o.e != OK) continue;
        for (auto& p : o.opts) if (p.pos == -1 && !p.unreg) for (auto& x : t) if (x.key("") == p.key) { if (x.ar >= CUSTOM) { c.nontrivial(c.cur); c.count("own-semantics-satisfied"); } if (p.val.size() < min_tok(x.ar) || p.val.size() > max_tok(x.ar)) c.fail("arity-bounds", show(p)); break; }
    }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    for (int a = 0; a < N_ARITY; ++a) for (int s = 0; s < 4; ++s) f.push_back({string("arity ") + arity_name((Arity)a) + " spelling " + std::to_string(s), [=](Ctx& c) { enumerate(c, (Arity)a, s); }});
    for (Arity a : user_arities()) for (int s = 0; s < 4; ++s) f.push_back({string("own semantic ") + arity_name(a) + " spelling " + std::to_string(s), [=](Ctx& c) { enumerate(c, a, s); }});
    // very many following arguments: consumption has no width of its own
    f.push_back({"long runs", [](Ctx& c) {
        Table t(2); t[0].longs.push_back("opt"); t[0].sh = 'o'; t[1].longs.push_back("dd"); t[1].sh = 'd'; t[1].ar = FLAG;
        for (Arity ar : {MULTI, MULTI0, ONE, IMPL, FLAG, VEC}) for (unsigned n : {7u, 8u, 9u, 15u, 16u, 17u, 31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 129u, 254u, 255u, 256u, 257u, 258u, 511u, 513u, 1025u, 2049u, 4097u}) {
            t[0].ar = ar; po::options_description d; build(t, d);
            vector<string> a, tail; a.push_back("--opt");
            for (unsigned i = 0; i < n; ++i) tail.push_back("v" + std::to_string(i));
            a.insert(a.end(), tail.begin(), tail.end()); a.push_back("--dd"); a.push_back("last");
            c.cur = string("arity ") + arity_name(ar) + " followed by " + std::to_string(n) + " values";
            Outcome o = real_parse(d, a, st::unix_style, false, 0);
            c.eval(); c.nontrivial(c.cur); c.count("long-runs");
            if (o.e != OK) { c.fail("long-run-rejected", o.desc().substr(0, 300)); continue; }
            unsigned want = max_tok(ar) == UINT_MAX ? n : max_tok(ar);
            if (o.opts.size() != 1 + (n - want) + 2 || o.opts[0].val != vector<string>(tail.begin(), tail.begin() + want)) { c.fail("long-run", "option has " + std::to_string(o.opts[0].val.size()) + " values, " + std::to_string(o.opts.size()) + " options"); continue; }
            for (unsigned i = want; i < n; ++i) if (o.opts[1 + i - want].val != vector<string>(1, tail[i]) || o.opts[1 + i - want].pos != (int)(i - want)) { c.fail("long-run", "argument " + std::to_string(i) + " became " + show(o.opts[1 + i - want])); break; }
            if (o.opts[o.opts.size() - 2].key != "dd" || o.opts.back().pos != (int)(n - want)) c.fail("long-run", "what follows changed");
        }
    }});
    // wrappers that change the arity: required, default, composing, zero tokens, implicit with default
    f.push_back({"decorated", [](Ctx& c) {
        struct D { const char* n; po::value_semantic* s; Arity ar; };
        vector<int> iv(1, 5); int sink = 0; vector<string> vs; bool bs = false;
        po::options_description d;
        d.add_options()("a", po::value<string>()->default_value("x"))("b", po::value<string>()->required())("c", po::value<vector<string> >()->composing())("e", po::value<int>(&sink)->default_value(1)->implicit_value(2))("g", po::value<vector<string> >(&vs)->multitoken()->composing())("h", po::bool_switch(&bs)->default_value(true))("z", po::value<int>()->zero_tokens()->implicit_value(3))("m", po::value<vector<string> >()->multitoken()->zero_tokens()->implicit_value(vector<string>(), ""));
        struct E { vector<string> a; vector<size_t> n; };
        vector<E> es = {
            {{"--a", "--h", "--b", "x", "y"}, {1, 1, 1}}, {{"--c", "1", "2"}, {1, 1}}, {{"--e", "1", "2"}, {1, 1}}, {{"--e=1", "2"}, {1, 1}}, {{"--e", "--h", "2"}, {0, 0, 1}},
            {{"--g", "1", "2", "--h", "3"}, {2, 0, 1}}, {{"--h", "1"}, {0, 1}}, {{"--z", "1"}, {0, 1}}, {{"--e", "--", "2"}, {0, 1}}, {{"--g", "1", "--", "2"}, {1, 1}}, {{"--g=1", "2", "3"}, {3}},
        };
        for (auto& e : es) { Outcome o = real_parse(d, e.a, st::unix_style, false, 0); c.eval(); c.cur = mon::show(e.a);
            vector<size_t> n; for (auto& p : o.opts) n.push_back(p.val.size());
            if (o.e != OK || n != e.n) c.fail("decorated", "got " + o.desc()); }
        if (real_parse(d, {"--z=1"}, st::unix_style, false, 0).e != EXTRA) c.fail("decorated", "value for zero_tokens accepted");
        if (real_parse(d, {"--h=1"}, st::unix_style, false, 0).e != EXTRA) c.fail("decorated", "value for bool_switch accepted");
    }});
    return f;
}
MON_MAIN(fixed(), [](Ctx& c) { if (c.r.chance(30)) own_semantics(c); else random_case(c); })
