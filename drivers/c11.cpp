// C11: failed stores have no effect. Two maps: one sees every store, its twin only the successful
// ones; they must never differ. Plus snapshots around each failure.
#include "hist.hpp"
#include "histworld.hpp"
using namespace cli; using mon::Ctx;

struct Own { int id; };
struct Picky { int v; };
struct Thrown { int x; };
static void validate(boost::any& v, const vector<string>& xs, Picky*, int) {
    if (xs.size() == 1 && xs[0] == "boom") throw Thrown{1};
    if (xs.size() == 1 && xs[0] == "bad") throw po::validation_error(po::validation_error::invalid_option_value);
    v = boost::any(Picky{(int)xs.size()});
}
static void random_case(Ctx& c) {
    Rng& r = c.r;
    RTable t = gen_rich(r, 7, true, true);
    World w(t, true), w2(t, true);
    for (World* x : {&w, &w2}) { x->ga.add_options()("picky", po::value<Picky>(), "p"); x->all.add_options()("picky", po::value<Picky>(), "p"); }
    ValueIds ids; po::variables_map vm, twin; string hist; unsigned failed = 0, ok = 0;
    unsigned n = 2 + r.below(5);
    for (unsigned i = 0; i < n; ++i) {
        Source s = gen_source(r, w, ids, false);
        u_int64_t ps = r.next(); Rng ra(ps), rb(ps);
        po::parsed_options p = parse_source(ra, w, s), q = parse_source(rb, w2, s);
        bool wide = r.chance(10);
        string defect;
        if (r.chance(65)) {
            // break it at a random place
            po::option x; size_t at = r.below((unsigned)p.options.size() + 1);
            vector<int> in; for (size_t k = 0; k < t.size(); ++k) if (w.in(t[k], s.groups)) in.push_back((int)k);
            const Rich* o = in.empty() ? 0 : &t[(size_t)in[r.below((unsigned)in.size())]];
            switch (r.below(8)) {
            case 0: if (!o || (o->ty != T_INT && o->ty != T_VINT && o->ty != T_DBL && o->ty != T_BOOL)) continue; x.string_key = o->key(); x.value.push_back("1x"); defect = "bad-value"; break;
            case 1: if (!o || o->ty != T_VINT) continue; x.string_key = o->key(); x.value = {"1", "2", "no"}; defect = "bad-element"; break;
            case 2: if (!o || is_vec(o->ty)) continue; x.string_key = o->key(); x.value = {"1", "2"}; defect = "many-values"; break;
            case 3: if (!o || is_vec(o->ty) || o->ty == T_UNT) continue; x.string_key = o->key(); x.value = {"1"}; if (o->ty == T_UFLAG) x.value.clear(); { po::option y(x); p.options.insert(p.options.begin() + (long)r.below((unsigned)at + 1), y); } ++at; defect = "repeated"; break;
            case 4: x.string_key = "nosuch"; x.value = {"1"}; defect = "unknown"; break;
            case 5: if (s.groups == 2) continue; x.string_key = "picky"; x.value = {"bad"}; defect = "user-validation-error"; break;
            case 6: if (s.groups == 2) continue; x.string_key = "picky"; x.value = {"boom"}; defect = "foreign-exception"; break;
            default: if (!o || (o->ty != T_INT && o->ty != T_DBL) || o->has_impl) continue; x.string_key = o->key(); defect = "no-value"; }
            p.options.insert(p.options.begin() + (long)std::min(at, p.options.size()), x);
        }
        string before = map_text(vm), thrown;
        hist += " " + s.show(t) + (defect.empty() ? "" : "+" + defect) + (wide ? "(wide)" : "");
        c.cur = "options " + show(t) + " history" + hist;
        auto put = [&](const po::parsed_options& x, po::variables_map& m) { if (wide) { po::wparsed_options wp(x); po::store(wp, m); } else po::store(x, m); };
        bool good = true;
        try { put(p, vm); } catch (const Thrown&) { good = false; thrown = "foreign"; } catch (const std::exception& e) { good = false; thrown = e.what(); }
        c.eval();
        if (good) { ++ok; try { put(defect.empty() ? q : p, twin); } catch (...) { c.fail("twin-throws", "the twin map refuses what the map accepted"); return; } }
        else {
            ++failed; c.count(("failed-" + (defect.empty() ? string("none") : defect)).c_str());
            if (defect.empty()) { c.fail("store-throws", "a correct source was refused: " + thrown); return; }
            if (map_text(vm) != before) { c.fail("changed-by-failure", "before " + before + " after " + map_text(vm)); return; }
        }
        if (map_text(vm) != map_text(twin)) { c.fail(good ? "history-differs" : "twin-differs", "map " + map_text(vm) + " twin " + map_text(twin)); return; }
        // the promise covers the hidden state: required marks and finality show in later operations
        if (r.chance(35)) {
            w.sinks.events.clear(); w2.sinks.events.clear();
            string e1 = "ok", e2 = "ok";
            try { po::notify(vm); } catch (const std::exception& e) { e1 = e.what(); }
            // the twin may hold semantics of either world; compare outcomes only
            try { po::notify(twin); } catch (const std::exception& e) { e2 = e.what(); }
            if (e1 != e2) c.fail("required-marks-differ", "notify says '" + e1 + "' twin '" + e2 + "'");
            c.count(e1 == "ok" ? "notified" : "required-missing");
        }
        if (failed && good) c.count("stores-after-failure");
    }
    if (failed && ok) { c.nontrivial(c.cur); if (c.want_sample() && failed > 1) c.sample(c.cur + " -> " + map_text(vm)); }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"empty-map-stays-empty", [](Ctx& c) {
        po::options_description d; d.add_options()("a", po::value<int>()->default_value(1))("b", po::value<int>())("r", po::value<int>()->required())("m", po::value<vector<int> >()->composing());
        for (auto a : {vector<string>{"--m=1", "--b=x"}, vector<string>{"--b=1", "--b=2"}, vector<string>{"--m=1", "--m=x"}, vector<string>{"--b=1", "--m=3", "--a=99999999999999"}}) {
            po::variables_map vm; c.eval(); c.cur = mon::show(a); c.nontrivial(c.cur);
            try { po::store(po::command_line_parser(a).options(d).run(), vm); c.fail("accepted", "bad source accepted"); } catch (const po::error&) {}
            if (!vm.empty()) c.fail("changed-by-failure", map_text(vm));
            try { po::notify(vm); } catch (const std::exception& e) { c.fail("required-marks-differ", e.what()); }
            // corrected input behaves as on a fresh map
            po::store(po::command_line_parser(vector<string>{"--b=5", "--m=7"}).options(d).run(), vm);
            if (map_text(vm) != "a(d)=i1;b=i5;m=vi[7 ];") c.fail("corrected-input", map_text(vm));
        }
    }});
    histworld::add(f, histworld::CONTENT | histworld::FAILURES, 4);
    return f;
}
MON_MAIN(fixed(), random_case)
