// C26: chains of variables maps. Histories of store, direct insertion, clear, re-linking and copying
// over up to six maps (one of them possibly the user's own class), every name looked up from every
// map after every step and compared with a reference chain.
#include "hist.hpp"
using namespace cli; using mon::Ctx;

// a user's map, counting how often it is asked
struct Own : po::abstract_variables_map {
    std::map<string, po::variable_value> m; mutable unsigned asked = 0;
    const po::variable_value& get(const string& n) const { static const po::variable_value none; ++asked; auto i = m.find(n); return i == m.end() ? none : i->second; }
};
struct Node {
    std::unique_ptr<po::variables_map> vm; std::unique_ptr<Own> own; RefMap ref; int next = -1;
    po::abstract_variables_map& a() { return own ? (po::abstract_variables_map&)*own : (po::abstract_variables_map&)*vm; }
};
static string shown(const po::variable_value& v) { return v.empty() ? "empty" : string(v.defaulted() ? "(d)" : "") + any_text(v.value()); }
static string expected(const vector<Node>& n, int i, const string& k) {
    string def;
    for (; i >= 0; i = n[(size_t)i].next) {
        auto it = n[(size_t)i].ref.m.find(k);
        if (it == n[(size_t)i].ref.m.end()) continue;
        if (!it->second.defaulted) return it->second.text;
        if (def.empty()) def = "(d)" + it->second.text;
    }
    return def.empty() ? "empty" : def;
}
static void random_case(Ctx& c) {
    Rng& r = c.r;
    World w(gen_rich(r, 5, true, false), false);
    ValueIds ids;
    vector<Node> n(r.chance(3) ? 12 + r.below(60) : 1 + r.below(6));
    for (auto& x : n) x.vm.reset(new po::variables_map);
    if (n.size() > 1 && r.chance(15)) { Node& x = n[r.below((unsigned)n.size())]; x.vm.reset(); x.own.reset(new Own); }
    // link, through the constructor or through next()
    string hist;
    for (int i = (int)n.size() - 2; i >= 0; --i) if (r.chance(n.size() > 6 ? 98 : 85)) {
        Node& x = n[(size_t)i]; x.next = i + 1;
        if (x.vm && r.chance(50)) x.vm.reset(new po::variables_map(&n[(size_t)i + 1].a())); else x.a().next(&n[(size_t)i + 1].a());
        hist += " " + std::to_string(i) + "->" + std::to_string(i + 1);
    }
    vector<string> names;
    for (auto& o : w.t) { for (auto& l : o.longs) names.push_back(l); if (o.sh) names.push_back(string("-") + o.sh); }
    for (const char* s : {"nosuch", "", "alph", "direct1", "direct2"}) names.push_back(s);
    unsigned steps = 2 + r.below(8); std::set<string> outcomes; bool chained = false;
    for (unsigned s = 0; s < steps; ++s) {
        int i = (int)r.below((unsigned)n.size()); Node& x = n[(size_t)i];
        unsigned op = r.below(100);
        if (x.own) {   // values put by the user
            string k = r.pick(names); bool d = r.chance(40); Entry e; e.defaulted = d; e.text = "s\"u" + std::to_string(s) + "\"";
            if (k.empty()) continue;
            x.own->m[k] = po::variable_value(boost::any("u" + std::to_string(s)), d); x.ref.m[k] = e;
            hist += " user" + std::to_string(i) + "." + k + (d ? "(d)" : "");
        } else if (op < 50) {
            Source src = gen_source(r, w, ids, false);
            hist += " store" + std::to_string(i) + ":" + src.show(w.t);
            c.cur = "options " + show(w.t) + hist;
            auto p = parse_source(r, w, src);
            bool want = x.ref.store(w, src), got = true;
            try { po::store(p, *x.vm); } catch (const po::error&) { got = false; }
            if (want != got) { c.fail("store-outcome", want ? "refused" : "accepted"); return; }
            c.count("stores");
        } else if (op < 62) {
            string k = r.chance(60) ? "direct" + std::to_string(1 + r.below(2)) : w.t[r.below((unsigned)w.t.size())].key();
            bool d = r.chance(40);
            hist += " insert" + std::to_string(i) + "." + k + (d ? "(d)" : "");
            x.vm->erase(k); x.vm->insert(std::make_pair(k, po::variable_value(boost::any(string("i") + std::to_string(s)), d)));
            Entry e; e.defaulted = d; e.text = "s\"i" + std::to_string(s) + "\""; x.ref.m[k] = e;
            // a later explicit occurrence would have to extend a value of another type
            for (auto& o : w.t) if (o.key() == k) x.ref.fin.insert(k);
            if (x.ref.fin.count(k)) { x.vm->erase(k); x.ref.m.erase(k); x.ref.fin.erase(k); if (k.compare(0, 6, "direct")) { x.vm->clear(); x.ref = RefMap(); hist += " clear" + std::to_string(i); } }
            c.count("insertions");
        } else if (op < 74) {
            hist += " clear" + std::to_string(i); x.vm->clear(); x.ref = RefMap(); c.count("clears");
            c.cur = "options " + show(w.t) + hist;
            // required marks are gone
            try { po::notify(*x.vm); } catch (const po::error& e) { c.fail("required-mark-survives-clear", e.what()); return; }
        } else if (op < 88) {
            int to = (int)r.below((unsigned)n.size() + 1) - 1;
            if (to >= 0 && to <= i) to = r.chance(50) ? -1 : i + 1;      // never a cycle
            if (to >= (int)n.size()) to = -1;
            hist += " " + std::to_string(i) + "->" + std::to_string(to);
            x.next = to; x.a().next(to < 0 ? 0 : &n[(size_t)to].a()); c.count("relinks");
        } else if (op < 94) {
            // a copy keeps values, finality and link; maps pointing at the old object are pointed at the copy
            hist += " copy" + std::to_string(i);
            std::unique_ptr<po::variables_map> y(new po::variables_map(*x.vm)); x.vm.swap(y); 
            for (auto& z : n) if (z.next == i) z.a().next(x.vm.get());
            c.count("copies");
        } else {
            hist += " notify" + std::to_string(i); bool want = true;
            for (auto& q : x.ref.required) if (!x.ref.m.count(q.first)) want = false;
            bool got = true; c.cur = "options " + show(w.t) + hist;
            // required marks are those of this map, values behind it do not count
            try { po::notify(*x.vm); } catch (const po::required_option&) { got = false; }
            if (want != got) { c.fail("notify", want ? "a required option was reported missing" : "a missing required option was not reported"); return; }
            c.count("notifies");
        }
        c.cur = "options " + show(w.t) + hist;
        vector<string> before;
        for (auto& y : n) before.push_back(y.vm ? map_text(*y.vm) : string());
        for (size_t j = 0; j < n.size(); ++j) {
            if (n[j].vm && before[j] != n[j].ref.text()) { c.fail("content", "map " + std::to_string(j) + " holds " + before[j] + " expected " + n[j].ref.text()); return; }
            for (auto& k : names) {
                const po::abstract_variables_map& am = n[j].a();
                string got = shown(am[k]), want = expected(n, (int)j, k);
                c.eval();
                if (got != want) { c.fail("lookup", "map " + std::to_string(j) + "[" + k + "] is " + got + " expected " + want); return; }
                if (n[j].vm && shown((*n[j].vm)[k]) != want) { c.fail("lookup-direct", k); return; }
                if (n[j].vm && n[j].vm->count(k) != n[j].ref.m.count(k)) { c.fail("count", k); return; }
                if (n[j].next >= 0) {
                    auto it = n[j].ref.m.find(k); bool absent = it == n[j].ref.m.end();
                    const char* kind = absent ? (want == "empty" ? "absent-everywhere" : "taken-from-behind") : !it->second.defaulted ? "explicit-here" : want[0] == '(' ? "default-here" : "default-overridden-from-behind";
                    c.count(kind); outcomes.insert(kind); chained = true;
                    // the value comes from beyond an absent map
                    if (n[j].next >= 0 && n[(size_t)n[j].next].next >= 0 && !n[(size_t)n[j].next].ref.m.count(k) && !absent && it->second.defaulted && want[0] != '(') c.count("overridden-from-two-behind");
                }
            }
        }
        for (size_t j = 0; j < n.size(); ++j) if (n[j].vm && map_text(*n[j].vm) != before[j]) { c.fail("lookup-modifies", "map " + std::to_string(j) + " was " + before[j] + " is " + map_text(*n[j].vm)); return; }
    }
    if (chained && outcomes.size() >= 3) { c.nontrivial(c.cur); if (c.want_sample() && n.size() > 2) c.sample(c.cur); }
}
// every assignment of absent/default/explicit to chains of up to seven maps
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    for (unsigned len = 1; len <= 7; ++len) f.push_back({"all chains of length " + std::to_string(len), [len](Ctx& c) {
        unsigned total = 1; for (unsigned i = 0; i < len; ++i) total *= 3;
        for (unsigned code = 0; code < total; ++code) {
            vector<po::variables_map> m(len); string want = "empty", def, d;
            unsigned q = code;
            for (unsigned i = 0; i < len; ++i, q /= 3) {
                int v = (int)i + 1;
                if (q % 3) { m[i].insert(std::make_pair(string("k"), po::variable_value(boost::any(v), q % 3 == 1))); string t = "i" + std::to_string(v); if (q % 3 == 1) { if (def.empty()) def = "(d)" + t; } else if (want == "empty") want = t; }
                d += "ade"[q % 3];
                if (i + 1 < len) m[i].next(&m[i + 1]);
            }
            if (want == "empty" && !def.empty()) want = def;
            c.cur = "chain " + d; c.eval(); c.nontrivial(c.cur); c.count("enumerated-chains");
            if (shown(m[0]["k"]) != want) c.fail("enumerated", "gives " + shown(m[0]["k"]) + " expected " + want);
            for (auto& x : m) if (x.count("other") || shown(m[0]["other"]) != "empty" || x.size() > 1) c.fail("enumerated-modified", d);
        }
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
