// C12: notification. Every callback and bound variable is recorded; the reference map says what
// must be delivered.
#include "hist.hpp"
#include "histworld.hpp"
using namespace cli; using mon::Ctx;

static void random_case(Ctx& c) {
    Rng& r = c.r;
    World w(gen_rich(r, 8, true, true), true);
    ValueIds ids; po::variables_map vm; RefMap ref; string hist;
    std::map<string, string> bound;      // what each bound variable must hold
    for (auto& o : w.t) if (o.bound && o.ty != T_UNT && o.ty != T_UFLAG) bound[o.key()] = w.sinks.text(o);
    auto check_bound = [&](const char* key) { for (auto& o : w.t) if (bound.count(o.key()) && w.sinks.text(o) != bound[o.key()]) c.fail(key, o.key() + " is " + w.sinks.text(o) + " expected " + bound[o.key()]); };
    unsigned n = 1 + r.below(4), delivered = 0, refused = 0;
    std::set<string> inserted;
    for (unsigned i = 0; i < n; ++i) {
        Source s = gen_source(r, w, ids, false);
        // what is required is often given
        if (i + 1 == n && r.chance(60)) for (size_t k = 0; k < w.t.size(); ++k) if (w.t[k].required && !ref.m.count(w.t[k].key())) { bool there = false; for (auto& o : s.occ) if (o.opt == (int)k) there = true; if (!there && w.in(w.t[k], s.groups) && !w.t[k].flag()) { Occ o; o.opt = (int)k; o.name = w.t[k].longs[0]; o.vals.push_back(value_for(r, w.t[k].ty, ids)); s.occ.push_back(o); } }
        order_cfg(s);
        hist += " store " + s.show(w.t);
        c.cur = "options " + show(w.t) + " history" + hist;
        po::parsed_options p = parse_source(r, w, s);
        w.sinks.events.clear();
        try { po::store(p, vm); } catch (const std::exception& e) { c.fail("store-throws", e.what()); return; }
        ref.store(w, s);
        if (!w.sinks.events.empty()) c.fail("store-notifies", "storing ran a callback of " + w.sinks.events[0].key);
        check_bound("store-writes");
        if (r.chance(10)) { string k = "own" + std::to_string(i); vm.insert(std::make_pair(k, po::variable_value(boost::any(5), r.chance(50)))); inserted.insert(k); }
        unsigned times = r.below(3);
        for (unsigned q = 0; q < times; ++q) {
            hist += " notify"; c.cur = "options " + show(w.t) + " history" + hist;
            vector<string> missing; for (auto& q2 : ref.required) if (!ref.m.count(q2.first)) missing.push_back(q2.first);
            w.sinks.events.clear(); string what; bool threw = false;
            try { po::notify(vm); }
            catch (const po::required_option& e) { threw = true; what = e.what(); }
            catch (const std::exception& e) { c.fail("notify-throws", e.what()); return; }
            c.eval();
            if (threw != !missing.empty()) { c.fail(threw ? "required-but-present" : "required-not-reported", threw ? what : "missing " + mon::show(missing)); return; }
            if (threw) {
                ++refused; c.count("required-missing");
                bool named = false; for (auto& m : missing) if (what.find(m) != string::npos) named = true;
                if (!named) c.fail("required-not-named", what);
                if (!w.sinks.events.empty()) c.fail("callback-before-required", w.sinks.events[0].key);
                check_bound("written-before-required");
                continue;
            }
            // exactly once each, with the final value
            std::map<string, int> cnt; std::map<string, string> val;
            for (auto& e : w.sinks.events) { ++cnt[e.key]; val[e.key] = e.text; }
            for (auto& o : w.t) {
                string k = o.key(); bool present = ref.m.count(k) != 0, typed = o.ty != T_UNT && o.ty != T_UFLAG;
                int want = present && o.callback && typed ? 1 : 0;
                if (cnt[k] != want) c.fail("delivered-times", k + " delivered " + std::to_string(cnt[k]) + " times expected " + std::to_string(want));
                else if (want) { ++delivered; if (val[k] != ref.m[k].text) c.fail("delivered-value", k + " delivered " + val[k] + " expected " + ref.m[k].text); c.count(ref.m[k].defaulted ? "delivered-defaults" : "delivered-explicit"); }
                if (present && bound.count(k)) { bound[k] = ref.m[k].text; c.count("bound-written"); }
            }
            check_bound("bound-value");
            if (map_text(vm) .empty() != (ref.m.empty() && inserted.empty())) c.fail("notify-changes-map", map_text(vm));
        }
        if (r.chance(6)) { hist += " clear"; vm.clear(); ref = RefMap(); inserted.clear(); }
    }
    if (delivered + refused > 1) { c.nontrivial(c.cur); if (c.want_sample() && delivered > 3) c.sample(c.cur); }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"throwing-callback", [](Ctx& c) {
        vector<string> seen; bool armed = true; int a = 0, b = 0;
        po::options_description d;
        d.add_options()("a", po::value<int>(&a)->notifier([&](int) { seen.push_back("a"); }))("b", po::value<int>(&b)->notifier([&](int) { seen.push_back("b"); if (armed) throw std::runtime_error("mine"); }))("c", po::value<int>()->default_value(3)->notifier([&](int) { seen.push_back("c"); }));
        po::variables_map vm; po::store(po::command_line_parser(vector<string>{"--a=1", "--b=2"}).options(d).run(), vm);
        c.eval(); c.cur = "callback of b throws"; c.nontrivial(c.cur);
        string what; try { po::notify(vm); } catch (const std::exception& e) { what = e.what(); }
        if (what != "mine") c.fail("callback-exception", "the callback's exception did not reach the caller: " + what);
        if (map_text(vm) != "a=i1;b=i2;c(d)=i3;") c.fail("notify-changes-map", map_text(vm));
        armed = false; seen.clear(); po::notify(vm);
        std::sort(seen.begin(), seen.end());
        if (seen != vector<string>{"a", "b", "c"} || a != 1 || b != 2) c.fail("notify-again", mon::show(seen));
    }});
    f.push_back({"required and chained maps", [](Ctx& c) {
        // a map answers for itself: values, defaults and callbacks of the maps behind it are not its own
        for (int k = 0; k < 8; ++k) {
            int x = -1, calls = 0, base_calls = 0; bool in_base = k & 1, in_own = k & 2, base_default = k & 4;
            po::options_description d, b;
            d.add_options()("need", po::value<int>(&x)->required()->notifier([&](int) { ++calls; }));
            po::typed_value<int>* bv = po::value<int>()->notifier([&](int) { ++base_calls; });
            if (base_default) bv->default_value(9);
            b.add_options()("need", bv)("baseonly", po::value<int>()->required());
            po::variables_map vm, base; vm.next(&base);
            vector<string> ba; if (in_base) ba.push_back("--need=5");
            vector<string> oa; if (in_own) oa.push_back("--need=6");
            po::store(po::command_line_parser(ba).options(b).run(), base);
            po::store(po::command_line_parser(oa).options(d).run(), vm);
            c.eval(); c.cur = "required option, chain case " + std::to_string(k); c.nontrivial(c.cur); c.count("chained-required");
            bool threw = false; try { po::notify(vm); } catch (const po::required_option& e) { threw = true; if (string(e.what()).find("need") == string::npos) c.fail("required-not-named", e.what()); }
            if (threw == in_own) c.fail(threw ? "required-but-present" : "required-not-reported", "own " + std::to_string(in_own) + " chained " + std::to_string(in_base));
            if (x != (in_own ? 6 : -1) || calls != (in_own ? 1 : 0) || base_calls) c.fail("delivered-times", "calls " + std::to_string(calls) + " chained " + std::to_string(base_calls));
            if (map_text(base) != (in_base ? "need=i5;" : base_default ? "need(d)=i9;" : "")) c.fail("notify-changes-map", map_text(base));
        }
    }});
    f.push_back({"required-display-and-variants", [](Ctx& c) {
        // required options by kind; the condition is presence, defaults included, over several stores
        int x = -1;
        po::options_description d; d.add_options()("need,n", po::value<int>(&x)->required())("def", po::value<int>()->default_value(1)->required());
        po::options_description e; e.add_options()("other", po::value<int>()->required());
        po::variables_map vm; c.eval(); c.cur = "required over two descriptions";
        auto missing = [&] { try { po::notify(vm); return string(); } catch (const po::required_option& q) { return string(q.what()); } };
        if (missing() != "") c.fail("required-but-never-stored", "an untouched map requires something");
        po::store(po::command_line_parser(vector<string>()).options(d).run(), vm);
        if (missing().find("need") == string::npos) c.fail("required-not-reported", missing());
        po::store(po::command_line_parser(vector<string>{"--need=4"}).options(d).run(), vm);
        if (missing() != "" || x != 4) c.fail("required-but-present", missing());
        po::store(po::command_line_parser(vector<string>()).options(e).run(), vm);
        x = -1;
        if (missing().find("other") == string::npos || x != -1) c.fail("required-not-reported", missing());
        po::store(po::command_line_parser(vector<string>{"--other=4"}).options(e).run(), vm);
        if (missing() != "" || x != 4) c.fail("required-but-present", missing());
        // positional and wildcard required options
        c.nontrivial(c.cur);
    }});
    histworld::add(f, histworld::CONTENT | histworld::FAILURES | histworld::NOTIFY, 3);
    return f;
}
MON_MAIN(fixed(), random_case)
