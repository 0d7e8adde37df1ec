// C10: precedence among sources. Histories of stores with uniquely identified values against a
// reference map.
#include "hist.hpp"
#include "histworld.hpp"
using namespace cli; using mon::Ctx;

static void random_case(Ctx& c) {
    Rng& r = c.r;
    World w(gen_rich(r, 7, r.chance(60), true), r.chance(60));   // other attributes must make no difference
    ValueIds ids;
    po::variables_map vm; RefMap ref;
    unsigned n = 1 + r.below(5); string hist; unsigned stored = 0; std::set<int> kinds;
    vector<std::pair<Source, po::parsed_options> > done;
    for (unsigned i = 0; i < n; ++i) {
        Source s = gen_source(r, w, ids, true);
        bool again = !done.empty() && r.chance(12);
        c.cur = "options " + show(w.t) + " history" + hist + " then " + s.show(w.t);
        if (!again) done.push_back(std::make_pair(s, parse_source(r, w, s)));
        else { size_t q = r.below((unsigned)done.size()); done.push_back(done[q]); s = done.back().first; c.count("stored-again"); }
        hist += " " + s.show(w.t) + (again ? "(again)" : "");
        c.cur = "options " + show(w.t) + " history" + hist;
        bool want = ref.store(w, s), got = true; string what;
        try { po::store(done.back().second, vm); }
        catch (const po::multiple_occurrences& e) { got = false; what = e.what(); }
        catch (const std::exception& e) { c.fail("store-throws", string("unexpected error ") + e.what()); return; }
        c.eval();
        if (want != got) { c.fail(want ? "store-refused" : "repeat-accepted", want ? "store refused: " + what : "a scalar repeated in one source was accepted: " + map_text(vm)); return; }
        if (!got) { c.count("repeats-refused"); continue; }
        ++stored; kinds.insert(s.kind);
        string x = map_text(vm), y = ref.text();
        if (x != y) { c.fail("precedence", "map " + x + " expected " + y); return; }
        // the accessors say the same
        for (auto& o : w.t) {
            string k = o.key(); bool has = ref.m.count(k) != 0;
            if (vm.count(k) != (has ? 1u : 0u)) c.fail("count", k);
            if (vm[k].empty() == has) c.fail("empty", k);
            if (has && (vm[k].defaulted() != ref.m[k].defaulted || any_text(vm[k].value()) != ref.m[k].text)) c.fail("operator[]", k + " is " + any_text(vm[k].value()));
            for (size_t j = 1; j < o.longs.size(); ++j) if (vm.count(o.longs[j])) c.fail("stored-under-alias", o.longs[j]);
        }
        for (auto& e : ref.m) c.count(e.second.defaulted ? "defaulted-entries" : "explicit-entries");
    }
    bool comp = false; for (auto& o : w.t) if (o.composing && ref.m.count(o.key()) && ref.m[o.key()].parts.size() > 1) comp = true;
    if (comp) c.count("composed");
    if (stored >= 2 && kinds.size() >= 2) { c.nontrivial(c.cur); if (c.want_sample() && stored > 2) c.sample(c.cur + " -> " + ref.text()); }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"F12 repeated option with an implicit value", [](Ctx& c) {
        po::options_description d;
        d.add_options()("foo", po::value<vector<string> >()->implicit_value(vector<string>(1, "imp"), "imp")->composing())("n", po::value<int>()->implicit_value(3));
        auto run = [&](vector<string> a) { return store_text(po::command_line_parser(a).options(d).run()); };
        c.eval(); c.cur = "args [--foo=1 --foo]";
        if (run({"--foo=1", "--foo"}) != "foo=v[\"1\" \"imp\"];") c.fail("implicit-overwrites", "--foo=1 --foo gives " + run({"--foo=1", "--foo"}));
        c.cur = "args [--n=1 --n]";
        if (run({"--n=1", "--n"}).compare(0, 5, "error") != 0) c.fail("implicit-overwrites", "--n=1 --n gives " + run({"--n=1", "--n"}));
    }});
    f.push_back({"environment-source", [](Ctx& c) {
        // the real environment parser as one of three sources
        setenv("VPX_LEVEL", "7", 1); setenv("VPX_TAG", "t-env", 1); setenv("VPX_EMPTY", "", 1);
        po::options_description d;
        d.add_options()("level", po::value<int>()->default_value(1))("tag", po::value<vector<string> >()->composing())("empty", po::value<string>()->default_value("x"))("other", po::value<int>()->default_value(5));
        for (int order = 0; order < 6; ++order) {
            int p[3] = {order / 2, 0, 0}; p[1] = (p[0] + 1 + order % 2) % 3; p[2] = 3 - p[0] - p[1];
            po::variables_map vm; string tags; int level = -1;
            for (int i = 0; i < 3; ++i) {
                if (p[i] == 0) { po::store(po::command_line_parser(vector<string>{"--level=2", "--tag=c1", "--tag", "c2"}).options(d).run(), vm); tags += "\"c1\" \"c2\" "; if (level < 0) level = 2; }
                if (p[i] == 1) { po::store(po::parse_environment(d, "VPX_"), vm); tags += "\"t-env\" "; if (level < 0) level = 7; }
                if (p[i] == 2) { std::istringstream is("tag = f1\nlevel = 3\n"); po::store(po::parse_config_file(is, d), vm); tags += "\"f1\" "; if (level < 0) level = 3; }
                c.eval();
            }
            tags.pop_back();
            string want = "empty=s\"\";level=i" + std::to_string(level) + ";other(d)=i5;tag=v[" + tags + "];";
            c.cur = "order " + std::to_string(order); c.nontrivial(c.cur);
            if (map_text(vm) != want) c.fail("three-sources", map_text(vm) + " expected " + want);
        }
    }});
    histworld::add(f, histworld::CONTENT, 4);
    return f;
}
MON_MAIN(fixed(), random_case)
