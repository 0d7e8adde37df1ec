// C01: conservation of command-line tokens. Oracle: direct invariants on the parsed options; no model.
#include "world.hpp"
using namespace cli; using mon::Ctx;

static bool suffix(const string& s, const string& t) { return t.size() >= s.size() && t.compare(t.size() - s.size(), s.size(), s) == 0; }

static void check(Ctx& c, const vector<string>& args, const Outcome& o) {
    c.eval();
    // 1. concatenation of original tokens is the argument vector minus one terminator
    vector<string> cat; vector<bool> positional;
    for (auto& p : o.opts) for (auto& t : p.orig) { cat.push_back(t); positional.push_back(p.pos != -1); }
    size_t i = 0;
    while (i < cat.size() && i < args.size() && cat[i] == args[i]) ++i;
    bool term = false;
    if (cat.size() + 1 == args.size() && i < args.size() && args[i] == "--") {
        term = true;
        size_t j = i;
        while (j < cat.size() && cat[j] == args[j + 1]) ++j;
        if (j != cat.size()) c.fail("conservation", "recorded tokens differ from the arguments after the terminator: " + mon::show(cat));
        for (size_t k = i; k < cat.size(); ++k) if (!positional[k]) c.fail("terminator-not-positional", "argument behind the terminator is not positional: " + mon::show(cat[k]));
    } else if (cat.size() != args.size() || i != cat.size())
        c.fail("conservation", "recorded tokens " + mon::show(cat) + " are not the arguments");
    c.count(term ? "accepted-with-terminator" : "accepted-without-terminator");
    // 2. values are verbatim
    size_t kinds = 0, np = 0;
    for (auto& p : o.opts) {
        if (p.pos != -1) {
            ++np;
            if (p.val.size() != 1 || p.orig.size() != 1 || p.val[0] != p.orig[0]) c.fail("positional-verbatim", "positional " + show(p));
            // a bare -- as positional exists only behind a terminator
            if (p.val.size() == 1 && p.val[0] == "--" && !term) c.fail("terminator-recorded", "the terminator was recorded as a positional argument");
            continue;
        }
        kinds |= p.unreg ? 2 : p.val.empty() ? 4 : 8;
        for (size_t k = 0; k < p.val.size(); ++k) {
            bool ok = false;
            for (auto& t : p.orig) if (p.val[k] == t || suffix(p.val[k], t)) ok = true;
            if (!ok) c.fail("value-verbatim", "value " + mon::show(p.val[k]) + " is no tail of the tokens of " + show(p));
        }
        // the values in further tokens are whole tokens, in order, each used once
        size_t extra = p.orig.empty() ? 0 : p.orig.size() - 1;
        if (p.val.size() < extra) c.fail("value-verbatim", "fewer values than tokens taken: " + show(p));
        for (size_t k = 0; k < extra && k < p.val.size(); ++k)
            if (p.val[p.val.size() - 1 - k] != p.orig[p.orig.size() - 1 - k]) c.fail("value-verbatim", "value differs from the token taken: " + show(p));
        if (p.val.size() > extra + 1) c.fail("value-duplicated", "more values than tokens: " + show(p));
        if (p.val.size() == extra + 1 && p.val.size() && !p.orig.empty()) {
            if (p.val[0].size() >= p.orig[0].size()) c.fail("value-verbatim", "adjacent value is the whole token: " + show(p));
            c.count("adjacent-values");
        }
        if (p.orig.empty() && !p.val.empty()) c.fail("tokens-unrecorded", "option with a value but no token: " + show(p));
        c.count("values", p.val.size());
    }
    if (np) kinds |= 1;
    c.count("tokens", args.size());
    if (__builtin_popcountll(kinds) >= 2) c.nontrivial(c.cur);
}

static void random_case(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.wild = r.chance(15); g.need_short = r.chance(50); g.user_pct = r.chance(30) ? 30 : 0;
    Table t = gen_table(r, g);
    int style = gen_style(r);
    po::options_description d; build(t, d);
    for (int k = 0; k < 4; ++k) {
        bool unreg = r.chance(50);
        Pos pos = gen_pos(r, t, 35);
        vector<string> a = r.chance(55) ? gen_args(r, t, 10) : gen_good_args(r, t, style, 9);
        if (r.chance(20)) a.push_back(gen_token(r, t));
        c.cur = case_desc(t, a, style, unreg, &pos);
        Outcome o = real_parse(d, a, style, unreg, &pos);
        if (o.e != OK) { c.count("rejected"); continue; }
        c.count("accepted");
        if (a.size() >= 4 && c.want_sample()) c.sample(c.cur + " -> " + o.desc());
        check(c, a, o);
    }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    auto add = [&](const char* n, Table t, vector<string> a, int style, bool unreg) {
        f.push_back({n, [=](Ctx& c) {
            po::options_description d; build(t, d);
            c.cur = case_desc(t, a, style, unreg, 0);
            Outcome o = real_parse(d, a, style, unreg, 0);
            if (o.e == OK) check(c, a, o);
            else c.fail("fixed-rejected", "expected to be accepted: " + o.desc());
        }});
    };
    auto O = [](vector<string> l, char s, Arity a) { Opt o; o.longs = l; o.sh = s; o.ar = a; return o; };
    Table t = {O({"foo"}, 'f', ONE), O({"bar"}, 'b', FLAG), O({"many"}, 'm', MULTI), O({"opt"}, 'o', IMPL)};
    add("terminator-as-value", t, {"--foo", "--", "--", "--bar", "--"}, st::unix_style, false);
    add("group", t, {"-bbfvalue", "-bbo", "x", "-bm", "1", "2"}, st::unix_style, false);
    add("unknown-group", t, {"-bz", "v", "--unk=1", "--"}, st::unix_style, true);
    add("nameless", t, {"--=x", "--=", "-", "", "="}, st::unix_style, false);
    add("disguise", t, {"-foo=1", "-bar", "/many", "a", "--", "/many"}, st::unix_style | st::allow_long_disguise | st::allow_slash_for_short, false);
    // tokens which an additional parser recognises are recorded like the others
    f.push_back({"additional parser", [O, t](Ctx& c) {
        po::options_description d; build(t, d);
        const vector<string> al = {"@foo:v", "@bar", "@many:1", "@opt", "@foo", "x", "--bar", "--foo=1", "-b", "--many", "--"};
        for (size_t i = 0; i < al.size(); ++i) for (size_t j = 0; j <= al.size(); ++j) for (size_t k = 0; k <= al.size(); ++k) {
            vector<string> a(1, al[i]); if (j < al.size()) a.push_back(al[j]); if (k < al.size()) a.push_back(al[k]);
            c.cur = "additional parser, args " + mon::show(a); c.count("additional-parser-lines");
            Outcome o; o.e = OK;
            try {
                auto p = po::command_line_parser(a).options(d).extra_parser([](const string& s) { if (s.size() < 2 || s[0] != '@') return std::make_pair(string(), string()); size_t e = s.find(':'); return e == string::npos ? std::make_pair(s.substr(1), string()) : std::make_pair(s.substr(1, e - 1), s.substr(e + 1)); }).run();
                for (auto& x : p.options) { Parsed y; y.key = x.string_key; y.pos = x.position_key; y.val = x.value; y.orig = x.original_tokens; y.unreg = x.unregistered; o.opts.push_back(y); }
            } catch (const po::error&) { c.count("additional-parser-errors"); continue; }
            check(c, a, o);
        }
    }});
    for (int style : world::styles()) {
        f.push_back({"all tokens, style " + std::to_string(style), [style](Ctx& c) {
            world::each_token([&](const Table& t, const po::options_description& d, const vector<string>& a, bool un) {
                Outcome o = real_parse(d, a, style, un, 0); c.count("small-world-lines");
                if (o.e == OK) { c.cur = case_desc(t, a, style, un, 0); check(c, a, o); c.count("small-world-accepted"); }
                return true; });
        }});
        f.push_back({"all lines, style " + std::to_string(style), [style](Ctx& c) {
            Pos pos; pos.used = true; pos.adds = {{"p", 1}, {"q", -1}}; unsigned k = 0;
            world::each_line([&](const Table& t, const po::options_description& d, const vector<string>& a, bool un) {
                const Pos* p = ++k % 3 ? 0 : &pos; Outcome o = real_parse(d, a, style, un, p); c.count("small-world-lines");
                if (o.e == OK) { c.cur = case_desc(t, a, style, un, p); check(c, a, o); c.count("small-world-accepted"); }
                return true; });
        }});
    }
    return f;
}
MON_MAIN(fixed(), random_case)
