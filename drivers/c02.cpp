// C02: permitted spellings of the same assignment are equivalent. Oracle: by construction, and pairwise.
#include "spell.hpp"
using namespace cli; using mon::Ctx;

static string semantic_view(const vector<Parsed>& v) { string s; for (auto& p : v) s += p.key + "|" + std::to_string(p.pos) + "|" + mon::show(p.val) + "|" + (p.unreg ? "u;" : ";"); return s; }

static void random_case(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.need_short = r.chance(60); g.alias_pct = 30;
    int style = gen_style(r);
    g.nodup_ci = (style & st::case_insensitive) != 0;
    Table t = gen_table(r, g);
    po::options_description d; build(t, d);
    for (int k = 0; k < 3; ++k) {
        Speller sp(t, style, r);
        vector<Item> items = sp.items(6);
        string expect; unsigned np = 0;
        for (auto& it : items) { if (it.opt < 0) expect += "|" + std::to_string(np++) + "|"; else expect += t[(size_t)it.opt].key("") + "|-1|"; expect += mon::show(it.vals) + "|;"; }
        std::set<vector<string> > forms; string stored0; vector<string> first;
        for (int j = 0; j < 5; ++j) {
            vector<string> a;
            if (!sp.spell(items, a)) { c.count("unspellable"); continue; }
            if (!forms.insert(a).second) continue;
            c.cur = case_desc(t, a, style, false, 0) + " meaning" + show(items, t);
            po::parsed_options po_(&d);
            Outcome o = real_parse(d, a, style, false, 0, &po_);
            c.eval();
            if (o.e != OK) { c.fail("spelling-rejected", "a permitted spelling is rejected: " + o.desc()); continue; }
            string got = semantic_view(o.opts);
            if (got != expect) { c.fail("spelling-meaning", "meaning " + got + " expected " + expect); continue; }
            string s = store_text(po_);
            if (stored0.empty()) { stored0 = s; first = a; }
            else if (s != stored0) c.fail("spelling-stored", "stored " + s + " but spelled as " + mon::show(first) + " it is " + stored0);
            if (s.compare(0, 5, "error") == 0) c.count("store-errors"); else c.count("stored");
            if (forms.size() == 3 && c.want_sample() && items.size() > 2) c.sample(c.cur + " => " + s);
        }
        if (forms.size() >= 2) { for (auto& f : forms) c.nontrivial(c.cur + mon::show(f)); c.count("classes-with-several-spellings"); }
        for (auto& u : sp.used) c.count(("spelling-" + u.first).c_str(), u.second);
    }
}
// a value that is stored must be the exact text given, whatever the spelling
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    static const char* vals[] = {"a=b", "=", "==x", "a b ", " lead", "\"q\"", "'", "--foo", "-", "-1", "--", "x--y", "\\", "\xff", "a\nb", "/etc", "%n", "=-x"};
    for (const char* v : vals) f.push_back({string("value ") + mon::show(string(v)), [v](Ctx& c) {
        po::options_description d;
        d.add_options()("foo,f", po::value<string>())("bar,b", "x");
        vector<vector<string> > forms = {{string("--foo=") + v}, {"--foo", v}, {string("-f") + v}, {"-f", v}, {string("/f") + v}, {"/f", v}, {string("-foo=") + v}, {"/foo", v}, {string("--fo=") + v}, {string("-bf") + v}, {"-bf", v}};
        for (auto& a : forms) {
            c.cur = mon::show(a);
            po::variables_map vm;
            // a short option with a value is a disguised long one if its text reads as one
            int style = st::unix_style | st::allow_slash_for_short | (a[0][1] == 'f' && a[0][2] == 'o' ? st::allow_long_disguise : 0);
            c.eval();
            try { po::store(po::command_line_parser(a).options(d).style(style).run(), vm); }
            catch (const std::exception& e) { c.fail("fixed-rejected", e.what()); continue; }
            if (!vm.count("foo") || vm["foo"].as<string>() != v) c.fail("fixed-value", "value is not the text given");
            c.nontrivial(c.cur);
        }
    }});
    // one group of very many flags means what the same flags mean alone
    f.push_back({"long groups", [](Ctx& c) {
        string pool; for (char x = 'a'; x <= 'z'; ++x) { pool += x; pool += (char)(x - 32); } for (char x = '0'; x <= '9'; ++x) pool += x;
        po::options_description d; for (char x : pool) if (x != 'v' && x != 'w') d.add_options()((string(",") + x).c_str(), "flag");
        d.add_options()("value,v", po::value<string>())("list,w", po::value<vector<string> >()->multitoken());
        pool.erase(pool.find('v'), 1); pool.erase(pool.find('w'), 1);
        for (unsigned n = 1; n <= 300; n += n < 70 ? 1 : 23) for (int tail = 0; tail < 5; ++tail) { const char lead = '-';
            string g(1, lead); vector<string> apart, one;
            for (unsigned i = 0; i < n; ++i) { char x = pool[(i * 7 + n) % pool.size()]; g += x; apart.push_back(string("-") + x); }
            if (tail == 1) { g += "vText"; apart.push_back("--value=Text"); } else if (tail == 2) { g += "v"; apart.push_back("--value"); } else if (tail == 3) { g += "wA"; apart.push_back("--list=A"); } else if (tail == 4) { g += "w"; apart.push_back("--list"); }
            one.push_back(g);
            if (tail) for (auto* q : {&one, &apart}) { q->push_back("after"); q->push_back("more"); }
            int style = st::unix_style | st::allow_slash_for_short;
            c.cur = "group of " + std::to_string(n) + " " + g; c.eval(); c.count("long-groups");
            Outcome x = real_parse(d, one, style, false, 0), y = real_parse(d, apart, style, false, 0);
            if (x.e != OK || y.e != OK || semantic_view(x.opts) != semantic_view(y.opts)) { c.fail("long-group", "is " + x.desc().substr(0, 200) + " but apart " + y.desc().substr(0, 200)); return; }
            if (n <= 50) { po::variables_map m1, m2; string e1, e2;
                try { po::store(po::command_line_parser(one).options(d).style(style).run(), m1); } catch (const std::exception& e) { e1 = "error"; }
                try { po::store(po::command_line_parser(apart).options(d).style(style).run(), m2); } catch (const std::exception& e) { e2 = "error"; }
                if (e1 != e2 || m1.size() != m2.size()) { c.fail("long-group-stored", "differs from the flags alone"); return; } }
            c.nontrivial(c.cur);
        }
    }});
    // names matched by a wildcard ignoring case are stored as they were spelled, whatever their case
    f.push_back({"wildcards ignoring case", [](Ctx& c) {
        po::options_description d; d.add_options()("abc*", po::value<vector<string> >()->composing())("Xyz.*", po::value<string>())("other", "");
        for (int style : {(int)st::unix_style, st::unix_style | st::long_case_insensitive, st::unix_style | st::case_insensitive, st::unix_style | st::short_case_insensitive, (int)(st::unix_style | st::allow_long_disguise | st::case_insensitive)})
            for (const char* pre : {"abc", "ABC", "aBc", "Xyz.", "xyz.", "XYZ."}) for (const char* post : {"", "d", "D.e", "-1"}) for (int how = 0; how < 3; ++how) {
                string nm = string(pre) + post; vector<string> a;
                if (how == 2 && !(style & st::allow_long_disguise)) continue;
                if (how == 1) { a.push_back("--" + nm); a.push_back("Value"); } else a.push_back((how == 2 ? "-" : "--") + nm + "=Value");
                bool decl = !nm.compare(0, 3, "abc") || !nm.compare(0, 4, "Xyz."), fit = decl || (style & st::long_case_insensitive);
                c.cur = "wildcards abc* and Xyz.*, style " + std::to_string(style) + " args " + mon::show(a); c.eval(); c.count("wildcard-case"); c.nontrivial(c.cur);
                po::variables_map vm; string err;
                try { po::store(po::command_line_parser(a).options(d).style(style).run(), vm); po::notify(vm); } catch (const std::exception& e) { err = e.what(); }
                if (err.empty() != fit) { c.fail(fit ? "wildcard-rejected" : "wildcard-accepted", err); continue; }
                if (!fit) continue;
                bool list = (pre[0] | 32) == 'a';
                if (!vm.count(nm) || vm.size() != 1) { c.fail("wildcard-stored", "not stored under " + nm); continue; }
                string got = list ? (vm[nm].as<vector<string> >().size() == 1 ? vm[nm].as<vector<string> >()[0] : string("?")) : vm[nm].as<string>();
                if (got != "Value") c.fail("wildcard-stored", got);
            }
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
