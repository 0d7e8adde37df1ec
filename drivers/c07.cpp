// C07: style flags. All 8192 masks x fixed tables x fixed tokens against the model and against
// direct statements; random tables and tokens under uniformly random masks.
#include "spell.hpp"
using namespace cli; using mon::Ctx;

static const vector<Table>& tables() {
    static vector<Table> v;
    if (v.empty()) {
        auto O = [](vector<string> l, char s, Arity a) { Opt o; o.longs = l; o.sh = s; o.ar = a; return o; };
        v.push_back({O({"foo"}, 'f', ONE), O({"bar"}, 'b', FLAG), O({"opt"}, 'o', IMPL)});
        v.push_back({O({"foo"}, 0, FLAG), O({"foobar"}, 'x', FLAG), O({}, 'f', FLAG), O({"Long"}, 'L', ONE)});
    }
    return v;
}
static const vector<string>& tokens() {
    static const vector<string> t = {"--foo=v", "--foo", "--fo", "--f", "--FOO", "--bar", "--bar=v", "--foo=", "--L", "-f", "-fv", "-F", "-FV", "-bf", "-bfv", "-b", "-x", "-foo", "-foo=v", "-fo=v", "-FOO=v", "-bar", "-Long=v", "-long", "/f", "/fv", "/foo", "/foo=v", "/F", "/bar", "/bf", "/Long", "--", "-", "/", "---", "plain", "--=x", "-=x", "/=x", "--nosuch", "-n", "/n", "-ob", "-o", "--opt=1", "-bx", "-B"};
    return t;
}
static const char* shape(const string& t) {
    if (starts(t, "--") && t.size() > 2) return "--";
    if (t.size() > 1 && t[0] == '-' && t[1] != '-') return "-";
    if (t.size() > 1 && t[0] == '/') return "/";
    return "";
}
// statements that follow from the flags alone
static void direct(Ctx& c, const Table& t, const vector<string>& args, int style, const Outcome& o) {
    if (o.e != OK) return;
    bool dash = (style & st::allow_short) && (style & st::allow_dash_for_short), slash = (style & st::allow_short) && (style & st::allow_slash_for_short), dis = style & st::allow_long_disguise;
    for (auto& p : o.opts) {
        if (p.pos != -1 || p.orig.empty()) continue;
        const string& tok = p.orig[0]; string s = shape(tok);
        bool on = s == "--" ? (style & st::allow_long) != 0 : s == "-" ? dash || dis : s == "/" ? slash || (dis && (style & st::allow_slash_for_short)) : false;
        if (!on) c.fail("disabled-syntax", "token " + mon::show(tok) + " became option " + show(p));
        if (s == "" ) c.fail("not-an-option", "token " + mon::show(tok) + " became option " + show(p));
        if (p.unreg) continue;
        // without guessing and with case respected, the text must contain a declared name as it is
        if (!(style & st::allow_guessing) && !(style & st::case_insensitive)) {
            bool named = false;
            for (auto& x : t) {
                if (x.key("") != p.key) continue;
                if (x.sh && tok.find(x.sh) != string::npos) named = true;
                for (auto& l : x.longs) if (tok.find(l) != string::npos) named = true;
            }
            if (!named) c.fail("name-not-enabled", "token " + mon::show(tok) + " became option " + show(p));
        }
    }
    (void)args;
}
static void mask(Ctx& c, int style) {
    char b[16]; snprintf(b, sizeof b, "%x", style);
    c.cur = string("style 0x") + b;
    po::options_description d0;
    vector<string> none;
    bool refused = false;
    try { po::command_line_parser(none).options(d0).style(style); }
    catch (const po::invalid_command_line_style&) { refused = true; }
    int eff = style ? style : st::unix_style;
    c.eval();
    if (refused == style_ok(eff)) { c.fail("style-validation", refused ? "refused although complete" : "accepted although incomplete"); return; }
    if (refused) { c.count("refused-styles"); c.nontrivial(c.cur); return; }
    c.count("accepted-styles");
    for (size_t ti = 0; ti < tables().size(); ++ti) {
        const Table& t = tables()[ti];
        po::options_description d; build(t, d);
        for (auto& tok : tokens()) {
            vector<string> a(1, tok); a.push_back("tail");
            for (int un = 0; un < 2; ++un) {
                if (un && !(c.idx % 4 == 0)) continue;
                c.cur = case_desc(t, a, style, un, 0);
                Outcome o = real_parse(d, a, style, un, 0), m = model_parse(t, a, eff, un, 0);
                c.eval(); c.count("mask-tokens");
                if (!diff(o, m).empty()) c.fail("mask-" + diff_kind(o, m), diff(o, m) + " " + o.what);
                direct(c, t, a, eff, o);
                if (o.e == OK && o.opts[0].pos == -1) c.nontrivial(c.cur);
            }
        }
    }
}
static void random_case(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.wild = r.chance(10); g.need_short = r.chance(60);
    Table t = gen_table(r, g);
    po::options_description d; build(t, d);
    for (int k = 0; k < 4; ++k) {
        int style; do style = 1 + (int)r.below(8191); while (!style_ok(style));
        bool unreg = r.chance(40);
        vector<string> a = r.chance(60) ? gen_args(r, t, 5) : gen_good_args(r, t, style, 5);
        // known finding F21: a name that itself starts with a dash
        for (auto& s : a) if (starts(s, "---") || starts(s, "/-")) s = "plain";
        c.cur = case_desc(t, a, style, unreg, 0);
        Outcome o = real_parse(d, a, style, unreg, 0), m = model_parse(t, a, style, unreg, 0);
        c.eval();
        if (!diff(o, m).empty()) c.fail("model-" + diff_kind(o, m), diff(o, m) + " " + o.what);
        bool wild = false; for (auto& x : t) for (auto& l : x.longs) if (l.back() == '*') wild = true;
        if (!wild) direct(c, t, a, style, o);
        if (o.e == OK) { c.count("random-accepted"); bool opt = false; for (auto& p : o.opts) if (p.pos == -1) opt = true; if (opt) c.nontrivial(c.cur); if (opt && c.want_sample()) c.sample(c.cur + " -> " + o.desc()); } else c.count("random-rejected");
    }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    for (int s = 0; s < 8192; ++s) f.push_back({"style " + std::to_string(s), [s](Ctx& c) { mask(c, s); }});
    f.push_back({"default-style", [](Ctx& c) {
        // style zero, and no style at all, are the documented default
        for (auto& t : tables()) { po::options_description d; build(t, d);
            for (auto& tok : tokens()) { vector<string> a(1, tok); Outcome x = real_parse(d, a, -1, false, 0), y = real_parse(d, a, 0, false, 0), z = real_parse(d, a, st::unix_style, false, 0);
                c.eval(); c.cur = mon::show(a);
                if (x.desc() != z.desc() || y.desc() != z.desc()) c.fail("default-style", x.desc() + " / " + y.desc() + " / " + z.desc()); } }
    }});
    f.push_back({"F21 triple dash", [](Ctx& c) {
        po::options_description d; d.add_options()("foo,f", po::value<string>());
        c.eval();
        c.cur = "args [---f=v] style allow_long";
        if (real_parse(d, {"---f=v"}, st::allow_long | st::long_allow_adjacent, false, 0).e != UNKNOWN) c.fail("long-syntax-names-short", "--- in front of a short name is taken for the short option");
        c.cur = "args [/-f=v] style disguise slash";
        Outcome o = real_parse(d, {"/-f=v"}, st::allow_long_disguise | st::long_allow_adjacent | st::allow_slash_for_short, false, 0);
        if (o.e != OK || o.opts[0].pos != 0) c.fail("long-syntax-names-short", "/- in front of a short name is taken for the short option");
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
