// C16: whole environment blocks, set as the process environment, against a direct reading of them.
#include "spell.hpp"
#include <boost/program_options/environment_iterator.hpp>
using namespace cli; using mon::Ctx;
extern char** environ;
typedef std::pair<string, string> Var;
struct Block { vector<string> raw; vector<char*> p; bool null_block = false;
    void install() { p.clear(); for (auto& s : raw) p.push_back(&s[0]); p.push_back(0); environ = null_block ? 0 : p.data(); }
    string show() const { return null_block ? "null" : mon::show(raw); } };
static vector<Var> vars(const Block& b) { vector<Var> r; if (b.null_block) return r; for (auto& s : b.raw) { size_t n = s.find('='); if (n != string::npos) r.push_back(Var(s.substr(0, n), s.substr(n + 1))); } return r; }
static string opts(const vector<Var>& v) { string r; for (auto& x : v) r += mon::show(x.first) + "=" + mon::show(x.second) + ";"; return r; }
static string opts(Ctx& c, const po::parsed_options& p, const po::options_description& d) {
    string r;
    for (auto& o : p.options) { r += mon::show(o.string_key) + "=" + (o.value.size() == 1 ? mon::show(o.value[0]) : mon::show(o.value)) + ";"; if (o.position_key != -1 || o.unregistered || !o.original_tokens.empty() || o.case_insensitive) c.fail("option-marks", r); }
    if (p.description != &d) c.fail("description", "another description");
    return r;
}
static string gen_name(Rng& r, const string& prefix) {
    static const vector<string> n = {"PATH", "HOME", "Alpha", "alpha", "ALPHA", "BETA_GAMMA", "x", "X9", "", "_", "A.B", "TEST_", "test_x", "long-name-long-name-long-name-long-name", "\xc4\xd6", "Z\xe9", "TEST", "TESTTEST_A", "pre fix", "[", "@", "`", "{"};
    string s = r.pick(n);
    if (r.chance(45)) s = prefix + s;
    else if (r.chance(15)) s = swapcase(r, prefix) + s;
    else if (r.chance(10)) s = s + prefix + s;
    else if (r.chance(10)) s = prefix.substr(0, r.below((unsigned)prefix.size() + 1));
    for (char& ch : s) if (ch == '=') ch = '_';
    return s;
}
static string gen_val(Rng& r) { string v = r.chance(50) ? plain_value(r) : gen_value(r); string o; for (char ch : v) if (ch) o += ch; if (r.chance(10)) o = ""; if (r.chance(10)) o = "=" + o; if (r.chance(5)) o = o + string(r.below(5000), 'v') + "="; return o; }
static Block gen_block(Rng& r, const string& prefix) {
    Block b; unsigned n = r.below(12); b.null_block = r.chance(3);
    for (unsigned i = 0; i < n; ++i) {
        string s = gen_name(r, prefix);
        if (r.chance(10)) { if (r.chance(30)) s = ""; }            // an entry without '='
        else s += "=" + gen_val(r);
        b.raw.push_back(s);
        if (r.chance(8)) b.raw.push_back(s);
    }
    return b;
}
static void random_case(Ctx& c) {
    Rng& r = c.r; char** saved = environ;
    struct Restore { char** s; ~Restore() { environ = s; } } restore{saved};
    static const vector<string> prefixes = {"TEST_", "", "A", "my app ", "PRE.", "TEST_TEST_", "\xc4", "x", "alpha", "_"};
    po::options_description d; d.add_options()("alpha", po::value<vector<string> >(), "d")("beta_gamma", po::value<vector<string> >(), "d")("x9", po::value<vector<string> >(), "d");
    for (int k = 0; k < 5; ++k) {
        string prefix = r.pick(prefixes); Block b = gen_block(r, prefix); vector<Var> v = vars(b);
        b.install(); c.cur = "environment " + b.show();
        // by prefix
        vector<Var> want; for (auto& x : v) if (x.first.compare(0, prefix.size(), prefix) == 0 && x.first.size() > prefix.size()) want.push_back(Var(lower(x.first.substr(prefix.size())), x.second));
        po::parsed_options p = r.chance(50) ? po::parse_environment(d, prefix) : po::parse_environment(d, prefix.c_str());
        c.eval(); c.count("taken", want.size()); c.count("ignored", v.size() - want.size()); if (b.raw.size() != v.size()) c.count("malformed-blocks"); if (b.null_block) c.count("null-blocks");
        string got = opts(c, p, d);
        if (got != opts(want)) c.fail("prefix", "prefix " + mon::show(prefix) + " got " + got + " expected " + opts(want));
        if (!want.empty() && want.size() < v.size()) { c.nontrivial(c.cur + prefix); if (c.want_sample()) c.sample("prefix " + mon::show(prefix) + " " + c.cur + " -> " + got); }
        // by mapper: what it is asked and what it answers are recorded
        vector<string> asked; want.clear(); int rule = (int)r.below(4);
        auto map = [rule](const string& n) -> string { switch (rule) { case 0: return n; case 1: return n.size() % 2 ? "odd" : ""; case 2: return n.empty() ? "anonymous" : ""; default: return n.size() > 3 ? n.substr(3) + "=" : ""; } };
        for (auto& x : v) if (!map(x.first).empty()) want.push_back(Var(map(x.first), x.second));
        p = po::parse_environment(d, boost::function1<string, string>([&](const string& n) { asked.push_back(n); return map(n); }));
        c.eval(); c.count("mapper-calls", asked.size());
        got = opts(c, p, d);
        if (got != opts(want)) c.fail("mapper", "rule " + std::to_string(rule) + " got " + got + " expected " + opts(want));
        vector<string> names; for (auto& x : v) names.push_back(x.first);
        if (asked != names) c.fail("mapper-questions", "asked " + mon::show(asked) + " expected " + mon::show(names));
        // the same without the variables that are not taken
        Block small; for (auto& x : v) if (!map(x.first).empty()) small.raw.push_back(x.first + "=" + x.second);
        small.install(); if (opts(c, po::parse_environment(d, boost::function1<string, string>(map)), d) != got) c.fail("unrelated-variables", "the result depends on them");
        // the iterator itself, and its copies
        b.install();
        vector<Var> seen; boost::environment_iterator i(environ), e;
        while (i != e) { boost::environment_iterator j(i); if (j->first != i->first || j->second != i->second) c.fail("iterator-copy", "differs"); seen.push_back(*i); ++i; if (r.chance(20)) { ++j; if ((j == e) != (i == e) || (j != e && *j != *i)) c.fail("iterator-copy", "diverges"); } }
        if (opts(seen) != opts(v)) c.fail("iterator", opts(seen) + " expected " + opts(v));
        // stored
        std::map<string, vector<string> > st; bool known = true;
        auto three = [](const string& n) -> string { string l = lower(n); return l == "alpha" || l == "beta_gamma" || l == "x9" ? l : string(); };
        for (auto& x : v) if (!three(x.first).empty()) st[three(x.first)].push_back(x.second);
        (void)known;
        po::variables_map vm; po::store(po::parse_environment(d, boost::function1<string, string>(three)), vm); po::notify(vm);
        std::map<string, vector<string> > got2; for (auto& x : vm) got2[x.first] = x.second.as<vector<string> >();
        if (got2 != st) c.fail("stored", map_text(vm)); c.count("stored-values", st.size());
    }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"all one-letter names", [](Ctx& c) {
        struct Restore { char** s; ~Restore() { environ = s; } } restore{environ};
        Block b; for (int i = 1; i < 256; ++i) if (i != '=') b.raw.push_back(string("P_") + (char)i + "=v" + (char)i);
        b.install(); po::options_description d; vector<Var> want; for (auto& x : vars(b)) want.push_back(Var(lower(x.first.substr(2)), x.second));
        c.cur = "names P_<byte>"; c.eval(); c.nontrivial(c.cur);
        if (opts(c, po::parse_environment(d, "P_"), d) != opts(want)) c.fail("prefix", opts(c, po::parse_environment(d, "P_"), d));
    }});
    f.push_back({"no environment", [](Ctx& c) {
        struct Restore { char** s; ~Restore() { environ = s; } } restore{environ};
        po::options_description d; c.eval(); c.cur = "null and empty environment"; c.nontrivial(c.cur);
        environ = 0; if (!po::parse_environment(d, "").options.empty()) c.fail("prefix", "something from nothing");
        char* none[] = {0}; environ = none; if (!po::parse_environment(d, "").options.empty()) c.fail("prefix", "something from nothing");
    }});
    f.push_back({"large environment", [](Ctx& c) {
        struct Restore { char** s; ~Restore() { environ = s; } } restore{environ};
        Block b; for (int i = 0; i < 20000; ++i) b.raw.push_back("V" + std::to_string(i) + "=" + string((size_t)(i % 50), 'x') + "=");
        b.install(); po::options_description d; vector<Var> want; for (auto& x : vars(b)) want.push_back(Var(lower(x.first.substr(1)), x.second));
        c.cur = "20000 variables"; c.eval(); c.nontrivial(c.cur);
        if (opts(c, po::parse_environment(d, "V"), d) != opts(want)) c.fail("prefix", "differs");
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
