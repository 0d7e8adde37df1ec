// All short histories of stores over a fixed set of sources, two descriptions sharing a composing and
// a required option, against a map kept by the documented rules. Used by C10, C11 and C12.
#pragma once
#include "spell.hpp"
#include <sstream>
#include <memory>
namespace histworld {
using namespace cli; using mon::Ctx;
struct Got { string who, key, text; bool operator<(const Got& o) const { return std::tie(key, who, text) < std::tie(o.key, o.who, o.text); } bool operator==(const Got& o) const { return key == o.key && who == o.who && text == o.text; } };
inline string show(const vector<Got>& v) { string r; for (auto& g : v) r += g.who + ":" + g.key + "=" + g.text + " "; return r; }
struct Entry { bool def = false; char kind = 's'; vector<string> v; string who;
    string text() const { if (kind == 'v') { string r = "v["; for (size_t i = 0; i < v.size(); ++i) r += (i ? " \"" : "\"") + v[i] + "\""; return r + "]"; } if (kind == 'i') return "i" + v[0]; return "s\"" + v[0] + "\""; } };
struct Ref { std::map<string, Entry> m; std::set<string> fin, required;
    string text() const { string r; for (auto& e : m) r += e.first + (e.second.def ? "(d)=" : "=") + e.second.text() + ";"; return r; } };
struct Occ { string key; vector<string> v; bool bad = false; };
struct Src { string name; int desc; vector<Occ> occ; std::shared_ptr<po::parsed_options> p; };
struct World {
    po::options_description d1, d2; vector<Got> ev; string a, e; int n; vector<string> b; vector<Src> src;
    template<class T> boost::function1<void, const T&> cb(const char* who, const char* key) { vector<Got>* l = &ev; string w = who, k = key; return [l, w, k](const T& x) { l->push_back(Got{w, k, any_text(boost::any(x))}); }; }
    void reset() { ev.clear(); a = e = "<unset>"; n = -9; b.assign(1, "<unset>"); }
    World() {
        typedef vector<string> V;
        d1.add_options()
            ("a,x", po::value<string>(&a)->notifier(cb<string>("1", "a")), "")
            ("b", po::value<V>(&b)->composing()->notifier(cb<V>("1", "b")), "")
            ("c", po::value<V>()->multitoken()->default_value(V(1, "cd"), "cd")->notifier(cb<V>("1", "c")), "")
            ("e,ee,E", po::value<string>(&e)->implicit_value("ei")->default_value("ed")->notifier(cb<string>("1", "e")), "")
            ("n", po::value<int>(&n)->required()->notifier(cb<int>("1", "n")), "")
            ("w*", po::value<V>()->notifier(cb<V>("1", "w*")), "");
        d2.add_options()
            ("b", po::value<V>()->composing()->notifier(cb<V>("2", "b")), "")
            ("n", po::value<int>()->required()->notifier(cb<int>("2", "n")), "")
            ("z", po::value<string>()->default_value("zd")->notifier(cb<string>("2", "z")), "")
            ("q", po::value<string>()->default_value("qd")->required(), "");
        cli("--a=1", 1, {"--a=1"}, {{"a", {"1"}}});
        cli("-x2 --b=b1", 1, {"-x2", "--b=b1"}, {{"a", {"2"}}, {"b", {"b1"}}});
        cfg("b=b2,b=b3", 1, "b=b2\nb=b3\n", {{"b", {"b2"}}, {"b", {"b3"}}});
        cli("--c 1 2 --b b4", 1, {"--c", "1", "2", "--b", "b4"}, {{"c", {"1", "2"}}, {"b", {"b4"}}});
        cfg("c=3,c=4", 1, "c=3\nc=4\n", {{"c", {"3"}}, {"c", {"4"}}});
        cli("-E", 1, {"-E"}, {{"e", {"ei"}}});
        cfg("ee=5,a=6", 1, "ee=5\na=6\n", {{"e", {"5"}}, {"a", {"6"}}});
        cli("--n=7", 1, {"--n=7"}, {{"n", {"7"}}});
        { po::positional_options_description pd; pd.add("a", 1).add("b", -1); po::command_line_parser p(V{"8", "b7", "b8"}); add("8 b7 b8", 1, p.options(d1).positional(pd).run(), {{"a", {"8"}}, {"b", {"b7"}}, {"b", {"b8"}}}); }
        cli("--w1=9 --w2=10", 1, {"--w1=9", "--w2=10"}, {{"w1", {"9"}}, {"w2", {"10"}}});
        cfg("w1=11", 1, "w1=11\n", {{"w1", {"11"}}});
        cli("nothing(2)", 2, {}, {});
        cli("--b=b5 --n=12(2)", 2, {"--b=b5", "--n=12"}, {{"b", {"b5"}}, {"n", {"12"}}});
        cli("nothing", 1, {}, {});
        cli("--z=13(2)", 2, {"--z=13"}, {{"z", {"13"}}});
        good = src.size();
        cli("--b=b9 --a=14 --a=15", 1, {"--b=b9", "--a=14", "--a=15"}, {{"b", {"b9"}}, {"a", {"14"}}, {"a", {"15"}, true}});
        cli("--b=b10 --n=no", 1, {"--b=b10", "--n=no"}, {{"b", {"b10"}}, {"n", {"no"}, true}});
        cfg("w3=16,e=17,ee=18", 1, "w3=16\ne=17\nee=18\n", {{"w3", {"16"}}, {"e", {"17"}}, {"e", {"18"}, true}});
        cli("--n=no --b=b11(2)", 2, {"--n=no", "--b=b11"}, {{"n", {"no"}, true}, {"b", {"b11"}}});
    }
    size_t good;
    void add(const string& name, int desc, const po::parsed_options& p, const vector<Occ>& o) { src.push_back(Src{name, desc, o, std::make_shared<po::parsed_options>(p)}); }
    void cli(const string& n, int d, const vector<string>& a, const vector<Occ>& o) { add(n, d, po::command_line_parser(a).options(d == 1 ? d1 : d2).run(), o); }
    void cfg(const string& n, int d, const string& t, const vector<Occ>& o) { std::istringstream is(t); add(n, d, po::parse_config_file(is, d == 1 ? d1 : d2), o); }
    // the documented rules; false if the source must be refused, then nothing changes
    static bool store(Ref& ref, const Src& s) {
        Ref r = ref;
        const string who = s.desc == 1 ? "1" : "2";
        for (auto& o : s.occ) {
            if (ref.fin.count(o.key)) continue;
            if (o.bad) return false;
            bool list = o.key == "b" || o.key == "c" || o.key[0] == 'w';
            Entry& e = r.m[o.key];
            if (e.def || !list) e.v.clear();
            e.def = false; e.kind = list ? 'v' : o.key == "n" ? 'i' : 's';
            e.v.insert(e.v.end(), o.v.begin(), o.v.end());
            e.who = who;
            if (o.key != "b") r.fin.insert(o.key);
        }
        auto def = [&](const char* k, char kind, const char* t) { if (!r.m.count(k)) { Entry e; e.def = true; e.kind = kind; e.v.push_back(t); e.who = who; r.m[k] = e; } };
        if (s.desc == 1) { def("c", 'v', "cd"); def("e", 's', "ed"); } else { def("z", 's', "zd"); def("q", 's', "qd"); }
        r.required.insert("n"); if (s.desc == 2) r.required.insert("q");
        ref = r;
        return true;
    }
};
enum { CONTENT = 1, FAILURES = 2, NOTIFY = 4 };
struct Explorer {
    Ctx& c; World w; int what; unsigned depth; size_t nsrc; unsigned bad = 0;
    Explorer(Ctx& x, int wh, unsigned d) : c(x), what(wh), depth(d), nsrc(wh & FAILURES ? w.src.size() : w.good) {}
    void fail(const char* key, const string& hist, const string& text) { c.cur = "history: " + hist; c.fail(string("all-histories-") + key, text); ++bad; }
    void notify(const po::variables_map& vm, const Ref& ref, const string& hist) {
        po::variables_map x(vm); w.reset();
        vector<string> missing; for (auto& k : ref.required) if (!ref.m.count(k)) missing.push_back(k);
        string said; bool threw = false;
        try { po::notify(x); } catch (const po::required_option& e) { threw = true; said = e.what(); } catch (const std::exception& e) { fail("notify-throws", hist, e.what()); return; }
        c.eval(); c.count(threw ? "all-histories-refused" : "all-histories-notified");
        if (threw != !missing.empty()) { fail("required", hist, threw ? said : "missing " + mon::show(missing)); return; }
        bool untouched = w.a == "<unset>" && w.e == "<unset>" && w.n == -9 && w.b == vector<string>(1, "<unset>");
        if (threw) { if (!w.ev.empty() || !untouched) fail("callback-before-required", hist, show(w.ev)); if (said.find("'--n'") == string::npos && said.find("n") == string::npos) fail("required-not-named", hist, said); return; }
        vector<Got> want; for (auto& e : ref.m) { if (e.first == "q") continue; want.push_back(Got{e.second.who, e.first[0] == 'w' ? "w*" : e.first, e.second.text()}); }
        vector<Got> got = w.ev; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        if (!(got == want)) fail("delivered", hist, "delivered " + show(got) + " expected " + show(want));
        auto bound = [&](const char* k, const string& have, const string& unset) { auto i = ref.m.find(k); string exp = i == ref.m.end() || i->second.who != "1" ? unset : i->second.text(); if (have != exp) fail("bound", hist, string(k) + " is " + have + " expected " + exp); };
        bound("a", any_text(boost::any(w.a)), "s\"<unset>\""); bound("e", any_text(boost::any(w.e)), "s\"<unset>\""); bound("n", any_text(boost::any(w.n)), "i-9"); bound("b", any_text(boost::any(w.b)), "v[\"<unset>\"]");
        if (map_text(x) != ref.text()) fail("notify-changes-map", hist, map_text(x));
    }
    void go(const po::variables_map& vm, const Ref& ref, const string& hist, bool failed, unsigned level, size_t only) {
        for (size_t i = 0; i < nsrc && bad < 5; ++i) {
            if (only != (size_t)-1 && i != only) continue;
            po::variables_map x(vm); Ref r(ref); w.reset();
            string h = hist + (hist.empty() ? "" : "; ") + w.src[i].name;
            bool want = World::store(r, w.src[i]), got = true; string said;
            try { po::store(*w.src[i].p, x); } catch (const std::exception& e) { got = false; said = e.what(); }
            c.eval(); c.count("all-histories"); if (!want) c.count("all-histories-failures");
            if (level == depth && (i % 3 == 0)) c.nontrivial(h);
            if (want != got) { fail(want ? "store-refused" : "bad-source-accepted", h, want ? said : map_text(x)); continue; }
            string t = map_text(x), e = r.text();
            if (t != e) { fail(!want ? "changed-by-failure" : failed ? "after-failure" : "precedence", h, "map " + t + " expected " + e); continue; }
            if (!w.ev.empty() || w.a != "<unset>" || w.n != -9) fail("store-notifies", h, show(w.ev));
            if (what & NOTIFY) notify(x, r, h);
            if (level < depth) go(x, r, h, failed || !want, level + 1, (size_t)-1);
        }
    }
};
inline size_t n_sources(int what) { World w; return what & FAILURES ? w.src.size() : w.good; }
// one fixed case per first source
inline void add(vector<mon::Fixed>& f, int what, unsigned depth) {
    size_t n = n_sources(what);
    for (size_t i = 0; i < n; ++i) f.push_back({"all histories of up to " + std::to_string(depth) + " stores beginning with source " + std::to_string(i), [=](Ctx& c) { Explorer e(c, what, depth); e.go(po::variables_map(), Ref(), "", false, 1, i); }});
}
}
