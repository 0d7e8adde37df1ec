// C09: user-supplied parsers. The same user function is given to the library and to the reference
// model; monitors record every call (what was offered, in which order) and compare results.
#include "spell.hpp"
using namespace cli; using mon::Ctx;
typedef Model::Raw Raw;

struct Custom {
    bool style = false, ext = false;
    int skind = 0, ekind = 0;
    vector<string> names;      // names the parsers produce
    static vector<string> split(const string& s) { vector<string> r(1); for (char ch : s) if (ch == ':') r.push_back(""); else r.back() += ch; return r; }
    std::pair<string, string> ext_fn(const string& s) const {
        switch (ekind) {
        case 0: return std::make_pair(string(), string());
        case 1: { // +name, +name=value
            if (s.size() < 2 || s[0] != '+') return std::make_pair(string(), string());
            size_t e = s.find('='); return e == string::npos ? std::make_pair(s.substr(1), string()) : std::make_pair(s.substr(1, e - 1), s.substr(e + 1)); }
        case 2: // @anything is the value of the first name
            if (s.size() < 2 || s[0] != '@') return std::make_pair(string(), string());
            return std::make_pair(names[0], s.substr(1));
        case 3: // takes long options away from the built-in syntax
            if (!starts(s, "--f")) return std::make_pair(string(), string());
            return std::make_pair(names.back(), string());
        case 4: // the whole argument is the value
            if (s.size() < 2 || (s[0] != '@' && s[0] != '%')) return std::make_pair(string(), string());
            return std::make_pair(names[0], s);
        case 5: // the value is the name
            if (s.size() < 2 || s[0] != '+') return std::make_pair(string(), string());
            return std::make_pair(s.substr(1), s.substr(1));
        default: // a value without a name is a refusal
            return std::make_pair(string(), string("x"));
        }
    }
    static Raw raw(const string& n, const vector<string>& v, const vector<string>& o) { Raw x; x.name = n; x.vals = v; x.origs = o; return x; }
    vector<Raw> style_fn(vector<string>& a) const {
        vector<Raw> r; const string s = a[0];
        switch (skind) {
        case 0: break;
        case 1: // %pair a b: two options from three arguments
            if (s == "%pair" && a.size() >= 3) { r.push_back(raw(names[0], {a[1]}, {a[0], a[1]})); r.push_back(raw(names.back(), {a[2]}, {a[2]})); a.erase(a.begin(), a.begin() + 3); }
            break;
        case 2: // %name:value:value
            if (s.size() > 1 && s[0] == '%') { vector<string> p = split(s.substr(1)); string n = p[0]; p.erase(p.begin()); if (n.empty()) break; r.push_back(raw(n, p, {s})); a.erase(a.begin()); }
            break;
        case 3: // several valueless options without recorded tokens, then one that may take the next argument
            if (s == "%multi") { r.push_back(raw(names.back(), {}, {})); r.push_back(raw(names[0], {}, {s})); a.erase(a.begin()); }
            break;
        case 4: // swallows the argument
            if (s[0] == '%') a.erase(a.begin());
            break;
        case 5: // makes it positional, whatever it looks like
            if (s.size() > 2 && s[1] == 'f') { r.push_back(raw("", {s}, {s})); a.erase(a.begin()); }
            break;
        default: // sees the terminator first
            if (s == "--" && a.size() > 1) { r.push_back(raw(names[0], {a[1]}, {s, a[1]})); a.erase(a.begin(), a.begin() + 2); }
        }
        return r;
    }
    vector<Raw> both(vector<string>& a) const {
        size_t n = a.size(); vector<Raw> r;
        if (style) { r = style_fn(a); if (a.size() != n || !r.empty()) return r; }
        if (ext) { auto p = ext_fn(a[0]); if (!p.first.empty()) { vector<string> v; if (!p.second.empty()) v.push_back(p.second); r.push_back(raw(p.first, v, {a[0]})); a.erase(a.begin()); } }
        return r;
    }
};
struct Call { size_t n; string front; };
static vector<po::option> to_real(const vector<Raw>& r) { vector<po::option> o; for (auto& x : r) { po::option y; y.string_key = x.name; y.value = x.vals; y.original_tokens = x.origs; o.push_back(y); } return o; }

static void random_case(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.need_short = r.chance(60);
    int style = gen_style(r); g.nodup_ci = (style & st::case_insensitive) != 0;
    Table t = gen_table(r, g);
    po::options_description d; build(t, d);
    for (int k = 0; k < 4; ++k) {
        Custom cu; cu.style = r.chance(60); cu.ext = !cu.style || r.chance(40);
        cu.skind = (int)r.below(7); cu.ekind = (int)r.below(7);
        for (int j = 0; j < 2; ++j) {
            const Opt& o = t[r.below((unsigned)t.size())];
            string n = !o.longs.empty() ? r.pick(o.longs) : string("-") + o.sh;
            if (o.sh && r.chance(20)) n = string("-") + o.sh;
            if (r.chance(12)) n = "nosuch"; if (r.chance(10) && n.size() > 2) n = n.substr(0, 2);
            cu.names.push_back(n);
        }
        vector<string> a = r.chance(30) ? gen_args(r, t, 6) : gen_good_args(r, t, style, 6);
        unsigned ins = 1 + r.below(3);
        for (unsigned j = 0; j < ins; ++j) {
            string n = r.pick(cu.names); vector<string> v;
            switch (r.below(6)) {
            case 0: v.push_back("+" + n); break;
            case 1: v.push_back("+" + n + "=" + gen_value(r)); break;
            case 2: v.push_back("@" + gen_value(r)); break;
            case 3: v.push_back("%pair"); if (r.chance(80)) { v.push_back(gen_value(r)); v.push_back(plain_value(r)); } break;
            case 4: v.push_back("%" + n + (r.chance(50) ? ":" + plain_value(r) : "") + (r.chance(20) ? ":w" : "")); break;
            default: v.push_back("%multi"); }
            size_t at = r.below((unsigned)a.size() + 1);
            a.insert(a.begin() + (long)at, v.begin(), v.end());
        }
        // a user parser is not given an empty argument list, but it is given empty arguments
        bool unreg = r.chance(40); Pos pos = gen_pos(r, t, 30);
        c.cur = case_desc(t, a, style, unreg, &pos) + " style parser " + (cu.style ? std::to_string(cu.skind) : "none") + " token parser " + (cu.ext ? std::to_string(cu.ekind) : "none") + " names " + mon::show(cu.names);
        vector<Call> scalls, mcalls; vector<string> ecalls; bool not_suffix = false;
        Outcome o;
        try {
            po::command_line_parser p(a);
            p.options(d).style(style);
            if (unreg) p.allow_unregistered();
            po::positional_options_description pd; if (pos.used) { pd = make_pos(pos); p.positional(pd); }
            if (cu.style) p.extra_style_parser([&](vector<string>& v) {
                scalls.push_back(Call{v.size(), v.empty() ? string("<none>") : v[0]});
                if (v.empty() || v.size() > a.size() || !std::equal(v.begin(), v.end(), a.end() - (long)v.size())) { if (v.size() != 1) not_suffix = true; }
                return v.empty() ? vector<po::option>() : to_real(cu.style_fn(v)); });
            if (cu.ext) p.extra_parser([&](const string& s) { ecalls.push_back(s); return cu.ext_fn(s); });
            po::parsed_options res = p.run();
            o.opts = convert(res.options);
        } catch (const std::exception&) { o = from_exception(std::current_exception()); }
        Model m{t, style, unreg, &pos, {}}; Outcome w;
        m.custom = [&](vector<string>& v) { mcalls.push_back(Call{v.size(), v[0]}); return cu.both(v); };
        try { w.opts = m.parse(a); } catch (const ModelError& e) { w.e = e.e; }
        c.eval();
        if (!diff(o, w).empty()) { c.fail("model-" + diff_kind(o, w), diff(o, w) + " " + o.what); continue; }
        c.count(o.e == OK ? "accepted" : (string("rejected-") + err_name(o.e)).c_str());
        // the trace: the style parser sees exactly the remaining arguments, in order
        if (not_suffix) c.fail("offered-not-remaining", "the style parser was offered something else than the remaining arguments");
        if (cu.style) {
            // every offer of several arguments is one of the main loop, as the model makes it
            vector<Call> x, y; for (auto& q : scalls) if (q.n > 1) x.push_back(q); for (auto& q : mcalls) if (q.n > 1) y.push_back(q);
            bool eq = x.size() == y.size(); for (size_t i = 0; eq && i < x.size(); ++i) eq = x[i].n == y[i].n && x[i].front == y[i].front;
            if (!eq) c.fail("offer-sequence", "style parser offers differ: " + std::to_string(x.size()) + " expected " + std::to_string(y.size()));
            c.count("style-parser-offers", scalls.size());
        } else {
            // the token parser sees each argument at the front exactly in order (lookahead may ask again)
            size_t i = 0; for (auto& q : ecalls) if (i < mcalls.size() && mcalls[i].front == q) ++i;
            if (i < mcalls.size()) c.fail("offer-sequence", "token parser was not offered " + mon::show(mcalls[i].front));
            c.count("token-parser-offers", ecalls.size());
        }
        for (auto& q : ecalls) if (std::find(a.begin(), a.end(), q) == a.end()) c.fail("offered-not-an-argument", "the token parser was offered " + mon::show(q));
        // a parser that declines everything changes nothing
        if ((!cu.style || cu.skind == 0) && (!cu.ext || cu.ekind == 0 || cu.ekind == 6)) {
            Outcome plain = real_parse(d, a, style, unreg, &pos);
            if (plain.desc() != o.desc()) c.fail("declining-parser", "with a declining parser " + o.desc() + " without " + plain.desc());
            c.count("declining");
        } else if (o.e == OK) {
            Outcome plain = real_parse(d, a, style, unreg, &pos);
            if (plain.desc() != o.desc()) { c.nontrivial(c.cur); c.count("used"); if (c.want_sample()) c.sample(c.cur + " -> " + o.desc()); }
        }
    }
}
// a style parser that replaces an argument by several others, as for response files: the same as if
// they had been written there
static void expanding(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.need_short = r.chance(60);
    int style = gen_style(r);
    Table t = gen_table(r, g); po::options_description d; build(t, d);
    for (int k = 0; k < 4; ++k) {
        std::map<string, vector<string> > files;
        auto some = [&](bool nested) { vector<string> v = r.chance(50) ? gen_args(r, t, 4) : gen_good_args(r, t, style, 4); if (nested && r.chance(40)) v.insert(v.begin() + (r.chance(60) ? 0 : r.below((unsigned)v.size() + 1)), "@2"); return v; };
        files["@1"] = some(true); /* one argument for one is no change the library can see */ if (files["@1"] == vector<string>(1, "@2")) files["@1"].push_back("x"); files["@2"] = some(false); files["@3"] = r.chance(50) ? vector<string>() : vector<string>(1, gen_token(r, t));
        bool gives_option = r.chance(30), also_token_parser = r.chance(30);
        vector<string> a = some(false); unsigned n = 1 + r.below(3);
        for (unsigned j = 0; j < n; ++j) a.insert(a.begin() + r.below((unsigned)a.size() + 1), r.chance(25) ? string("@v") : "@" + std::to_string(1 + r.below(3)));
        vector<string> flat(a);
        for (size_t i = 0; i < flat.size(); ) { if (flat[i] == "--") break; auto f = files.find(flat[i]); if (f == files.end()) { ++i; continue; } vector<string> x = f->second; flat.erase(flat.begin() + (long)i); flat.insert(flat.begin() + (long)i, x.begin(), x.end()); }
        bool unreg = r.chance(40);
        unsigned expansions = 0;
        auto run = [&](const vector<string>& args, bool expand) {
            Outcome o;
            try {
                po::command_line_parser p(args); p.options(d).style(style); if (unreg) p.allow_unregistered();
                p.extra_style_parser([&, expand](vector<string>& v) {
                    vector<po::option> res;
                    if (expand) { auto f = files.find(v[0]); if (f != files.end()) { ++expansions; v.erase(v.begin()); v.insert(v.begin(), f->second.begin(), f->second.end()); return res; } }
                    if (gives_option && v[0] == "@v") { po::option x; x.value.push_back("made"); x.original_tokens.push_back("@v"); v.erase(v.begin()); res.push_back(x); }
                    return res; });
                if (also_token_parser) p.extra_parser([&](const string& s) { return s.size() > 1 && s[0] == '+' ? std::make_pair(s.substr(1), string()) : std::make_pair(string(), string()); });
                po::parsed_options res = p.run(); o.opts = convert(res.options);
            } catch (const std::exception&) { o = from_exception(std::current_exception()); }
            return o;
        };
        c.cur = case_desc(t, a, style, unreg, 0) + " @1 " + mon::show(files["@1"]) + " @2 " + mon::show(files["@2"]) + " @3 " + mon::show(files["@3"]);
        Outcome o = run(a, true), w = run(flat, false);
        c.eval();
        // an option that needs a value takes the argument as it stands: another line
        bool raw = false; for (auto& x : o.opts) if (x.pos == -1) for (auto& v : x.val) if (files.count(v) || v == "--") raw = true;
        if (raw || o.e != w.e) { if (!raw && o.e == OK) c.fail("expanded-accepted", o.desc() + " but written out " + w.desc()); c.count("expanded-otherwise"); continue; }
        if (!diff(o, w).empty()) { c.fail("expanded-" + diff_kind(o, w), diff(o, w)); continue; }
        if (o.e == OK && expansions) { c.nontrivial(c.cur); c.count("expanded"); }
    }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"exceptions-of-user-parsers", [](Ctx& c) {
        po::options_description d; d.add_options()("foo,f", po::value<string>())("bar", "x");
        struct Mine { int x; };
        c.eval();
        for (int way = 0; way < 2; ++way) for (const char* at : {"boom", "--foo"}) {
            c.cur = string(at) + (way ? " token parser" : " style parser");
            vector<string> a = {"--bar", at, "boom"}; int got = 0;
            try {
                po::command_line_parser p(a); p.options(d);
                if (way) p.extra_parser([](const string& s) -> std::pair<string, string> { if (s == "boom") throw Mine{7}; return std::make_pair(string(), string()); });
                else p.extra_style_parser([](vector<string>& v) -> vector<po::option> { if (v[0] == "boom") throw Mine{7}; return vector<po::option>(); });
                p.run();
            } catch (const Mine& m) { got = m.x; } catch (...) {}
            if (got != 7) c.fail("user-exception", "the exception of the user's parser did not reach the caller unchanged");
            c.nontrivial(c.cur);
        }
    }});
    f.push_back({"parse_command_line-ext", [](Ctx& c) {
        po::options_description d; d.add_options()("foo,f", po::value<string>())("bar,b", "x");
        const char* argv[] = {"prog", "+foo=1", "--bar", "+bar", "-f", "2"};
        c.eval(); c.cur = "parse_command_line with a token parser";
        auto fn = [](const string& s) { return s[0] == '+' ? (s.find('=') == string::npos ? std::make_pair(s.substr(1), string()) : std::make_pair(s.substr(1, s.find('=') - 1), s.substr(s.find('=') + 1))) : std::make_pair(string(), string()); };
        po::parsed_options p = po::parse_command_line(6, argv, d, 0, fn);
        Outcome o; o.opts = convert(p.options);
        string got; for (auto& x : o.opts) got += x.key + mon::show(x.val) + mon::show(x.orig);
        if (got != "foo[\"1\"][\"+foo=1\"]bar[][\"--bar\"]bar[][\"+bar\"]foo[\"2\"][\"-f\" \"2\"]") c.fail("parse-command-line-ext", got);
    }});
    return f;
}
MON_MAIN(fixed(), [](Ctx& c) { if (c.r.chance(15)) expanding(c); else random_case(c); })
