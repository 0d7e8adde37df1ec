// C29: semantics, validators and value types written by the user. Every call the library makes on them is
// recorded (with unique ids for the stored objects) and compared with the calls the interface promises.
#include "spell.hpp"
#include "utf8.hpp"
#include <boost/optional.hpp>
#include <memory>
#include <optional>
#include <sstream>
using namespace cli; using mon::Ctx; typedef std::wstring W;

struct Event { char what; int id; vector<string> tokens; bool utf8; long in, out; };
static string show(const Event& e) { return string(1, e.what) + std::to_string(e.id) + (e.what == 'p' ? mon::show(e.tokens) + (e.utf8 ? "u" : "") : "") + "<" + std::to_string(e.in) + ">"; }
static string show(const vector<Event>& v) { string r; for (auto& e : v) r += show(e) + " "; return r; }
struct Log { vector<Event> ev; long serial = 0; int alive = 0; };
// what a semantics stores: a unique serial number and everything it was ever given
struct Obj { long serial; vector<string> all; };
struct OwnError : po::validation_error { int x; OwnError(int n) : po::validation_error(po::validation_error::invalid_option_value, "", "", 0), x(n) {} ~OwnError() throw() {} };
static void boom(const vector<string>& t) {
    for (auto& s : t) {
        if (s == "boom-validation") throw po::validation_error(po::validation_error::invalid_option_value);
        if (s == "boom-own") throw OwnError(4711);
        if (s == "boom-foreign") throw std::domain_error("foreign");
        if (s == "boom-int") throw 42;
    }
}
struct Decl { unsigned mn, mx; bool composing, required, def; int flavour; };
template<class T> static vector<string> bytes(const vector<T>&);
template<> vector<string> bytes(const vector<string>& v) { return v; }
template<> vector<string> bytes(const vector<W>& v) { vector<string> r; for (auto& s : v) r.push_back(u8::enc(s)); return r; }
template<class Base> struct Spy : Base {
    int id; Decl d; std::shared_ptr<Log> log;
    Spy(int i, const Decl& x, const std::shared_ptr<Log>& l) : id(i), d(x), log(l) { ++log->alive; }
    ~Spy() { --log->alive; }
    string name() const { return "spy" + std::to_string(id); }
    unsigned min_tokens() const { return d.mn; }
    unsigned max_tokens() const { return d.mx; }
    bool is_composing() const { return d.composing; }
    bool is_required() const { return d.required; }
    void take(boost::any& v, const vector<string>& t, bool utf8) const {
        const Obj* o = boost::any_cast<Obj>(&v);
        long in = v.empty() ? 0 : o ? o->serial : -1, out = ++log->serial;
        log->ev.push_back({'p', id, t, utf8, in, out});
        boom(t);
        Obj n; n.serial = out; if (o) n.all = o->all; n.all.insert(n.all.end(), t.begin(), t.end()); v = n;
    }
    bool apply_default(boost::any& v) const {
        long out = d.def ? ++log->serial : 0;
        log->ev.push_back({'d', id, {}, false, v.empty() ? 0 : -1, out});
        if (d.def) v = Obj{out, {"default"}};
        return d.def;
    }
    void notify(const boost::any& v) const { const Obj* o = boost::any_cast<Obj>(&v); log->ev.push_back({'n', id, {}, false, o ? o->serial : -1, 0}); }
};
struct Raw : Spy<po::value_semantic> { using Spy::Spy; void parse(boost::any& v, const vector<string>& t, bool u) const { take(v, t, u); } };
struct Narrow : Spy<po::value_semantic_codecvt_helper<char> > { using Spy::Spy; void xparse(boost::any& v, const vector<string>& t) const { take(v, t, false); } };
struct Wide : Spy<po::value_semantic_codecvt_helper<wchar_t> > { using Spy::Spy; void xparse(boost::any& v, const vector<W>& t) const { take(v, bytes(t), false); } };

typedef std::map<string, long> State;     // key -> serial (negative: a default)
static State state(const po::variables_map& vm) { State s; for (auto& e : vm) { const Obj* o = boost::any_cast<Obj>(&e.second.value()); s[e.first] = o ? (e.second.defaulted() ? -o->serial : o->serial) : 0; } return s; }
static string show(const State& s) { string r; for (auto& e : s) r += e.first + "=" + std::to_string(e.second) + " "; return r; }

static string good_value(Rng& r, bool valid_utf8) {
    if (r.chance(7)) { static const vector<string> b = {"boom-validation", "boom-own", "boom-foreign", "boom-int"}; return r.pick(b); }
    string v = r.chance(60) ? plain_value(r) : gen_value(r);
    return valid_utf8 ? u8::clean(v) : v;
}
static void histories(Ctx& c) {
    Rng& r = c.r;
    GenOpt g; g.nodup_ci = r.chance(30); g.need_short = r.chance(50);
    Table t = gen_table(r, g);
    std::shared_ptr<Log> log = std::make_shared<Log>();
    vector<Decl> decl; bool any_helper = false;
    for (auto& o : t) {
        static const unsigned mm[][2] = {{0, 0}, {0, 1}, {1, 1}, {1, 1}, {1, 15}, {0, 15}, {2, 2}, {3, 3}, {1, 2}, {2, 4}, {0, 2}, {0, 3}, {2, 15}, {4, 4}};
        const unsigned* x = mm[r.below(14)];
        o.ar = custom(x[0], x[1]);
        Decl d{min_tok(o.ar), max_tok(o.ar), r.chance(35), r.chance(8), r.chance(30), (int)r.below(3)};
        if (d.flavour) any_helper = true;
        decl.push_back(d);
    }
    std::unique_ptr<po::options_description> desc(new po::options_description("d"));
    for (size_t i = 0; i < t.size(); ++i) {
        po::value_semantic* s;
        if (decl[i].flavour == 0) s = new Raw((int)i, decl[i], log); else if (decl[i].flavour == 1) s = new Narrow((int)i, decl[i], log); else s = new Wide((int)i, decl[i], log);
        desc->add_options()(t[i].decl().c_str(), s, "d");
    }
    // names the option by one of its own names; -1 if there is none such
    auto owner = [&](const string& n) { for (size_t i = 0; i < t.size(); ++i) { if (t[i].sh && n == string("-") + t[i].sh) return (int)i; for (auto& l : t[i].longs) if (l == n) return (int)i; } return -1; };
    std::unique_ptr<po::variables_map> vm(new po::variables_map);
    State now; std::set<string> final_; std::set<string> required;
    string history;
    unsigned steps = 1 + r.below(4); unsigned parses = 0;
    for (unsigned step = 0; step < steps; ++step) {
        // --- a source
        po::parsed_options p(desc.get()); bool utf8 = false, got = false, long_style = true;
        unsigned kind = r.below(10);
        if (kind < 7) {
            int style = gen_style(r); if (!g.nodup_ci) style &= ~(st::long_case_insensitive | st::short_case_insensitive);
            if (!style || !style_ok(style)) style = st::unix_style;
            long_style = (style & (st::allow_long | st::allow_long_disguise)) != 0;      // F22b otherwise
            vector<string> a;
            if (r.chance(55)) {
                unsigned n = r.below(8);
                for (unsigned i = 0; i < n; ++i) {
                    const Opt& o = t[r.below((unsigned)t.size())];
                    string nm = o.longs.empty() ? string("-") + o.sh : "--" + r.pick(o.longs);
                    unsigned mx = std::min(max_tok(o.ar), 5u), k = min_tok(o.ar) + r.below(mx - min_tok(o.ar) + 1); if (r.chance(8)) k += r.below(2);
                    bool adj = k && r.chance(40);
                    string first = good_value(r, any_helper);
                    if (adj && !first.empty()) nm += (o.longs.empty() ? "" : "=") + first; else adj = false;
                    a.push_back(nm); for (unsigned j = adj; j < k; ++j) a.push_back(good_value(r, any_helper));
                }
            } else a = gen_args(r, t);
            if (any_helper) for (auto& s : a) s = u8::clean(s);
            Pos pos = gen_pos(r, t, 40); bool un = r.chance(25);
            c.cur = case_desc(t, a, style, un, &pos);
            Outcome o = real_parse(*desc, a, style, un, &pos, &p), m = model_parse(t, a, style, un, &pos);
            c.eval(); c.count("parsed");
            if (!diff(o, m).empty()) { c.fail("model-" + diff_kind(o, m), diff(o, m) + " " + o.what); return; }
            if (!log->ev.empty()) { c.fail("called-by-parser", show(log->ev)); return; }
            if (o.e != OK) { c.count((string("rejected-") + err_name(o.e)).c_str()); continue; }
            for (auto& x : o.opts) { int i = owner(x.key); if (i >= 0 && x.pos == -1 && !x.unreg) { if (x.val.size() < decl[(size_t)i].mn) c.fail("too-few-tokens", show(x)); if (x.val.size() > decl[(size_t)i].mx) c.fail("too-many-tokens", show(x)); if (x.val.size() > 1) c.count("several-tokens"); } }
            got = true; history += c.cur + "; ";
        } else if (kind < 9) {
            string conf; unsigned n = r.below(6);
            for (unsigned i = 0; i < n; ++i) { const Opt& o = t[r.below((unsigned)t.size())]; if (o.longs.empty()) continue; string v = good_value(r, any_helper), w; for (char ch : v) if (ch != '\n' && ch != '#' && ch != '\r') w += ch; conf += r.pick(o.longs) + " = " + w + "\n"; }
            std::istringstream is(conf); c.cur = "options " + show(t) + " config " + mon::show(conf);
            try { p = po::parse_config_file(is, *desc, true); got = true; } catch (const po::error&) {}
            history += c.cur + "; ";
        } else {
            // a source made by the user: any number of tokens, aliases, nothing recorded
            unsigned n = r.below(5); c.cur = "options " + show(t) + " user-made";
            for (unsigned i = 0; i < n; ++i) { const Opt& o = t[r.below((unsigned)t.size())]; po::option x; x.string_key = o.longs.empty() ? string("-") + o.sh : r.pick(o.longs); unsigned k = r.below(4); for (unsigned j = 0; j < k; ++j) x.value.push_back(good_value(r, any_helper)); c.cur += " " + x.string_key + mon::show(x.value); p.options.push_back(x); }
            got = true; history += c.cur + "; ";
        }
        if (!got) continue;
        // --- store it, perhaps through the wide overload
        utf8 = any_helper ? r.chance(40) : r.chance(25);
        bool valid = true; for (auto& x : p.options) for (auto& s : x.value) if (u8::clean(s) != s) valid = false;
        if (utf8 && !valid) utf8 = false;
        vector<Event> want; State next = now; std::set<string> nfinal = final_; bool throws = false, unknown = false; string boomed; std::set<string> nreq = required;
        std::map<string, long> staged; long serial = log->serial;
        for (auto& x : p.options) {
            if (x.string_key.empty() || x.unregistered || final_.count(x.string_key)) continue;
            int i = owner(x.string_key);
            if (i < 0) { unknown = true; break; }
            string key = t[(size_t)i].key(""); if (final_.count(key)) continue;
            long in = staged.count(key) ? staged[key] : now.count(key) && now[key] > 0 ? now[key] : 0;
            want.push_back({'p', i, x.value, decl[(size_t)i].flavour == 0 && utf8, in, ++serial});
            staged[key] = serial;
            for (auto& s : x.value) if (s.compare(0, 5, "boom-") == 0 && (s == "boom-validation" || s == "boom-own" || s == "boom-foreign" || s == "boom-int")) { throws = true; boomed = s; break; }
            if (throws) break;
            if (!decl[(size_t)i].composing) nfinal.insert(key);
        }
        if (!throws && !unknown) {
            for (auto& s : staged) next[s.first] = s.second;
            for (size_t i = 0; i < t.size(); ++i) {
                string key = t[i].key("");
                if (decl[i].required) nreq.insert(key);
                if (next.count(key)) continue;
                want.push_back({'d', (int)i, {}, false, 0, decl[i].def ? ++serial : 0});
                if (decl[i].def) next[key] = -serial;
            }
        }
        log->ev.clear();
        string thrown; int own = 0; string named;
        try {
            if (utf8) { po::wparsed_options w(p); po::store(w, *vm); } else po::store(p, *vm);
        }
        catch (const OwnError& e) { thrown = "boom-own"; own = e.x; named = e.get_option_name(); }
        catch (const po::unknown_option&) { thrown = "unknown"; }
        catch (const po::validation_error& e) { thrown = "boom-validation"; named = e.get_option_name(); }
        catch (const std::domain_error& e) { thrown = string("boom-") + e.what(); }
        catch (const std::exception& e) { thrown = e.what(); }
        catch (int n) { thrown = n == 42 ? "boom-int" : "int"; }
        c.eval(); c.count("stores"); parses += (unsigned)want.size();
        vector<Event> got_ev; got_ev.swap(log->ev);
        bool same_calls = got_ev.size() == want.size();
        // the order of the values matters, the order in which the options are asked for a default does not
        std::multiset<int> gd, wd; vector<string> gp, wp;
        for (auto& e : got_ev) { if (e.what == 'p') gp.push_back(show(e)); else if (e.what == 'd' && e.in == 0) gd.insert(e.id); else same_calls = false; }
        for (auto& e : want) { if (e.what == 'p') { wp.push_back(show(e)); c.count("values-given"); if (e.in) c.count("values-continued"); } else { wd.insert(e.id); c.count("defaults-asked"); } }
        if (throws || unknown) { if (gp != wp) same_calls = false; } else if (gp != wp || gd != wd) same_calls = false;
        if ((throws || unknown) && !gd.empty()) c.count("default-before-failure");
        if (throws || unknown) same_calls = gp == wp;
        if (!same_calls) { c.fail("calls", "the semantics saw " + show(got_ev) + " expected " + show(want)); return; }
        string expect_thrown = throws ? boomed : unknown ? "unknown" : "";
        if (thrown != expect_thrown) { c.fail("exception", "store threw " + mon::show(thrown) + " expected " + mon::show(expect_thrown)); return; }
        if (own && own != 4711) c.fail("exception", "the user's exception was changed");
        if (long_style && (thrown == "boom-own" || thrown == "boom-validation")) { c.count("own-errors"); string k = want.back().id >= 0 ? t[(size_t)want.back().id].key("") : ""; size_t b = 0; while (b < named.size() && (named[b] == '-' || named[b] == '/')) ++b; string stripped = k; while (!stripped.empty() && stripped[0] == '-') stripped.erase(0, 1); if (named.substr(b) != stripped) c.fail("error-names", "the error names " + mon::show(named) + " expected " + mon::show(k)); }
        if (!thrown.empty()) c.count("failed-stores");
        else {
            // the serials of defaults follow the order of the calls actually seen
            for (auto& e : got_ev) if (e.what == 'd' && e.out) next[t[(size_t)e.id].key("")] = -e.out;
            now = next; final_ = nfinal; required = nreq;
        }
        State s = state(*vm);
        if (s != now) { c.fail(thrown.empty() ? "stored" : "changed-by-failure", "map holds " + show(s) + "expected " + show(now)); return; }
        // --- notify
        if (r.chance(40)) {
            bool missing = false; for (auto& k : required) if (!now.count(k)) missing = true;
            // what is stored keeps its semantics alive
            bool drop = step + 1 == steps && r.chance(60); if (drop) { p = po::parsed_options(0); desc.reset(); c.count("description-gone"); }
            log->ev.clear(); bool req = false;
            try { po::notify(*vm); } catch (const po::required_option&) { req = true; }
            c.eval(); c.count("notified");
            std::multiset<string> g2, w2; for (auto& e : log->ev) g2.insert(show(e));
            if (!missing) for (auto& x : now) { int i = owner(x.first); w2.insert(show(Event{'n', i, {}, false, x.second < 0 ? -x.second : x.second, 0})); }
            if (req != missing) c.fail("required", string(req ? "refused" : "accepted") + " with " + show(now));
            else if (g2 != w2) c.fail("notified", "notifications " + show(log->ev) + "for the map " + show(now));
            log->ev.clear();
            if (drop) break;
        }
    }
    if (parses > 2) { c.nontrivial(history); if (c.want_sample()) c.sample(history + " -> " + show(now)); }
    // nothing outlives its last user
    desc.reset(); vm.reset();
    if (log->alive) c.fail("not-destroyed", std::to_string(log->alive) + " semantics alive after everything was destroyed");
}

// ---- user types: validate() found by argument-dependent lookup, operator>>, specialised vectors
namespace user {
    struct Magic { string text; };
    static vector<string> calls;
    static void validate(boost::any& v, const vector<string>& xs, Magic*, int) {
        calls.push_back(mon::show(xs) + (v.empty() ? "" : "again"));
        boom(xs);
        string s; for (auto& x : xs) s += "<" + x + ">";
        Magic m; m.text = (v.empty() ? "" : boost::any_cast<Magic>(v).text) + s; v = m;
    }
    struct WMagic { W text; };
    static void validate(boost::any& v, const vector<W>& xs, WMagic*, int) {
        calls.push_back(mon::show(bytes(xs)) + (v.empty() ? "" : "again"));
        W s; for (auto& x : xs) s += L"<" + x + L">";
        WMagic m; m.text = s; v = m;
    }
    struct Point { int x, y; };
    static std::istream& operator>>(std::istream& i, Point& p) { char ch = 0; if (i >> p.x >> ch >> p.y && ch != ';') i.setstate(std::ios::failbit); return i; }
    static std::ostream& operator<<(std::ostream& o, const Point& p) { return o << p.x << ";" << p.y; }
    static std::wistream& operator>>(std::wistream& i, Point& p) { wchar_t ch = 0; if (i >> p.x >> ch >> p.y && ch != L';') i.setstate(std::ios::failbit); return i; }
    enum Level { low, mid, high };
    static std::istream& operator>>(std::istream& i, Level& l) { string s; i >> s; if (s == "low") l = low; else if (s == "mid") l = mid; else if (s == "high") l = high; else i.setstate(std::ios::failbit); return i; }
    static std::ostream& operator<<(std::ostream& o, const Level& l) { return o << (l == low ? "low" : l == mid ? "mid" : "high"); }
    struct Opaque { int n; };               // no stream operators at all
    static void validate(boost::any& v, const vector<string>& xs, vector<Opaque>*, int) { calls.push_back("vector" + mon::show(xs)); vector<Opaque> o; for (auto& x : xs) o.push_back(Opaque{(int)x.size()}); v = o; }
}
static void user_types(Ctx& c) {
    Rng& r = c.r;
    using namespace user;
    po::options_description d; Magic bound; vector<string> notified; Point pbound = {0, 0};
    bool multi = r.chance(50), vec_multi = r.chance(70); bool imp = r.chance(40), def = r.chance(40);
    po::typed_value<Magic>* m = po::value<Magic>(&bound); if (multi) m->multitoken();
    if (imp) m->implicit_value(Magic{"implicit"}, "i");
    if (def) m->default_value(Magic{"default"}, "d");
    m->notifier([&](const Magic& x) { notified.push_back("magic " + x.text); });
    po::typed_value<vector<Magic> >* vm_ = po::value<vector<Magic> >(); if (vec_multi) vm_->multitoken();
    d.add_options()("magic", m, "")("magics", vm_, "")("wmagic", po::wvalue<WMagic>()->multitoken(), "")
        ("point", po::value<Point>(&pbound)->default_value(Point{1, 2}), "")("points", po::value<vector<Point> >()->multitoken(), "")("wpoint", po::wvalue<Point>(), "")
        ("level", po::value<Level>()->default_value(mid)->implicit_value(high), "")("opaque", po::value<vector<Opaque> >()->multitoken(), "");
    vector<string> a, want_calls; std::map<string, string> want; bool bad = false; string bad_text, first_boom;
    d.add_options()("maybe", po::value<std::optional<Magic> >(), "")("bmaybe", po::value<boost::optional<Magic> >(), "");
    string boomed, boomer;
    vector<string> names = {"maybe", "bmaybe", "magic", "magics", "wmagic", "point", "points", "wpoint", "level", "opaque"}; r.shuffle(names);
    auto val = [&] { string v = u8::clean(r.chance(60) ? plain_value(r) : gen_value(r)); if (v.empty() || v[0] == '-' || v[0] == '/') v = "v" + v; return v; };
    auto list = [&](unsigned lo, unsigned hi) { vector<string> v; unsigned n = lo + r.below(hi - lo + 1); for (unsigned i = 0; i < n; ++i) v.push_back(val()); return v; };
    auto point = [&](string& out) { int x = r.chance(25) ? r.range(-999, 0) : r.range(0, 999), y = r.range(-99999, 99999); out = std::to_string(x) + ";" + std::to_string(y); if (r.chance(8)) { static const vector<string> b = {"1,2", "1;", ";", "x;1", "1;2x", "1;2 ", "", "99999999999;1"}; string o = r.pick(b); bad = true; bad_text = o; return o; } return out; };
    for (auto& n : names) {
        if (bad || !boomed.empty() || r.chance(35)) continue;
        vector<string> v; string w;
        if (n == "maybe" || n == "bmaybe") { v = list(1, 1); w = "[<" + v[0] + ">]"; want_calls.push_back(mon::show(v)); }
        else if (n == "magic") { v = multi ? list(imp ? 0 : 1, 3) : list(imp ? 0 : 1, 1); if (v.empty()) w = "implicit"; else { for (auto& x : v) w += "<" + x + ">"; want_calls.push_back(mon::show(v)); } }
        else if (n == "magics") { v = vec_multi ? list(1, 4) : list(1, 1); for (auto& x : v) { w += "{<" + x + ">}"; want_calls.push_back(mon::show(vector<string>(1, x))); } }
        else if (n == "wmagic") { v = list(1, 3); for (auto& x : v) w += "<" + x + ">"; want_calls.push_back(mon::show(v)); }
        else if (n == "point" || n == "wpoint") { string s; string t = point(s); v.push_back(t); w = t; }
        else if (n == "points") { unsigned k = 1 + r.below(3); for (unsigned i = 0; i < k && !bad; ++i) { string s; string t = point(s); v.push_back(t); w += "{" + t + "}"; } }
        else if (n == "level") { static const vector<string> l = {"low", "mid", "high"}; if (r.chance(30)) { w = "high"; } else { v.push_back(r.pick(l)); w = v[0]; if (r.chance(10)) { v[0] += "er"; bad = true; bad_text = v[0]; } } }
        else { v = list(1, 3); for (auto& x : v) w += std::to_string(x.size()) + ","; want_calls.push_back("vector" + mon::show(v)); }
        if ((n == "magic" || n == "magics" || n == "maybe" || n == "bmaybe") && !v.empty() && r.chance(10)) { static const vector<string> b = {"boom-validation", "boom-own", "boom-foreign", "boom-int"}; boomed = r.pick(b); boomer = n; v[r.below((unsigned)v.size())] = boomed; }
        want[n] = w;
        // as options of the parsed kind, so that any text can be a value
        a.push_back(n); a.push_back(std::to_string(v.size())); a.insert(a.end(), v.begin(), v.end());
    }
    // spelled on a command line where the text allows it, handed over parsed otherwise
    po::parsed_options p(&d); vector<string> line;
    for (size_t i = 0; i < a.size();) { po::option o; o.string_key = a[i]; size_t n = (size_t)atoi(a[i + 1].c_str()); for (size_t j = 0; j < n; ++j) o.value.push_back(a[i + 2 + j]); o.original_tokens.push_back("--" + a[i]); p.options.push_back(o); line.push_back("--" + a[i]); line.insert(line.end(), o.value.begin(), o.value.end()); i += 2 + n; }
    bool spelled = true; for (auto& o : p.options) for (size_t j = 0; j < o.value.size(); ++j) { const string& s = o.value[j]; if (s.empty() ||s == "--" || s[0] == '-') spelled = false; }
    c.cur = "user types " + mon::show(line) + (multi ? " multi" : "") + (vec_multi ? " vmulti" : "") + (imp ? " implicit" : "") + (def ? " default" : "");
    bool wide = r.chance(40);
    calls.clear();
    po::variables_map vm; string err, thrown, named; int own = 0;
    try {
        if (spelled && wide) { vector<W> wl; for (auto& s : line) wl.push_back(u8::dec(s)); po::wparsed_options q(po::wcommand_line_parser(wl).options(d).run()); po::store(q, vm); c.count("user-types-wide"); }
        else if (spelled) { po::store(po::command_line_parser(line).options(d).run(), vm); c.count("user-types-line"); }
        else if (wide) po::store(po::wparsed_options(p), vm);
        else po::store(p, vm);
        po::notify(vm);
    } catch (const po::invalid_option_value& e) { err = string("value ") + e.what(); }
    catch (const OwnError& e) { thrown = err = "boom-own"; own = e.x; named = e.get_option_name(); }
    catch (const po::validation_error& e) { thrown = "boom-validation"; err = e.what(); named = e.get_option_name(); }
    catch (const std::domain_error& e) { thrown = err = string("boom-") + e.what(); }
    catch (const std::exception& e) { err = e.what(); }
    catch (int i) { thrown = err = i == 42 ? "boom-int" : "int"; }
    c.eval(); c.count("user-types"); if (want.size() > 2) c.nontrivial(c.cur);
    if (bad) { c.count("user-types-refused"); if (err.compare(0, 6, "value ")) c.fail("user-value-accepted", "text " + mon::show(bad_text) + " gave " + mon::show(err)); return; }
    if (!boomed.empty()) {
        c.count("user-types-own-errors");
        if (thrown != boomed || (own && own != 4711)) c.fail("user-exception", "the caller got " + mon::show(thrown) + " " + err + " expected " + boomed + " thrown by the user's validator");
        else if (!named.empty() && named.find(boomer) == string::npos) c.fail("user-exception-names", "the error names " + mon::show(named) + " expected " + boomer);
        if (!vm.empty()) c.fail("user-exception-map", "the map has entries after a failed store");
        return;
    }
    if (!err.empty()) { c.fail("user-value-refused", err); return; }
    if (calls != want_calls) c.fail("validator-calls", "calls " + mon::show(calls) + " expected " + mon::show(want_calls));
    std::map<string, string> got;
    auto txt = [](const Point& q) { std::ostringstream o; o << q; return o.str(); };
    for (auto& e : vm) {
        const boost::any& x = e.second.value(); string w;
        if (auto q = boost::any_cast<std::optional<Magic> >(&x)) w = *q ? "[" + (*q)->text + "]" : "[]"; else if (auto q = boost::any_cast<boost::optional<Magic> >(&x)) w = *q ? "[" + (*q)->text + "]" : "[]";
        else if (auto q = boost::any_cast<Magic>(&x)) w = q->text; else if (auto q = boost::any_cast<vector<Magic> >(&x)) { for (auto& y : *q) w += "{" + y.text + "}"; } else if (auto q = boost::any_cast<WMagic>(&x)) w = u8::enc(q->text);
        else if (auto q = boost::any_cast<Point>(&x)) w = txt(*q); else if (auto q = boost::any_cast<vector<Point> >(&x)) { for (auto& y : *q) w += "{" + txt(y) + "}"; } else if (auto q = boost::any_cast<Level>(&x)) w = *q == low ? "low" : *q == mid ? "mid" : "high"; else if (auto q = boost::any_cast<vector<Opaque> >(&x)) { for (auto& y : *q) w += std::to_string(y.n) + ","; } else w = "?";
        got[e.first] = w;
    }
    if (def && !want.count("magic")) want["magic"] = "default";
    if (!want.count("point")) want["point"] = "1;2";
    if (!want.count("level")) want["level"] = "mid";
    for (auto& e : want) if (got[e.first] != e.second) c.fail("user-value", e.first + " is " + mon::show(got[e.first]) + " expected " + mon::show(e.second));
    if (got.size() != want.size()) c.fail("user-value", std::to_string(got.size()) + " entries expected " + std::to_string(want.size()));
    if (txt(pbound) != want["point"]) c.fail("user-bound", "point " + txt(pbound));
    if (want.count("magic") ? bound.text != want["magic"] || notified != vector<string>(1, "magic " + want["magic"]) : !notified.empty() || !bound.text.empty()) c.fail("user-bound", "magic " + mon::show(bound.text) + " notified " + mon::show(notified));
}
static void random_case(Ctx& c) { if (c.r.chance(75)) histories(c); else user_types(c); }
// custom token bounds x every spelling x up to four following tokens, against the model
static void enumerate(Ctx& c, unsigned mn, unsigned mx) {
    Table t(2); t[0].longs.push_back("opt"); t[0].sh = 'o'; t[0].ar = custom(mn, mx); t[1].longs.push_back("dd"); t[1].sh = 'd'; t[1].ar = FLAG;
    std::shared_ptr<Log> log = std::make_shared<Log>();
    po::options_description d; d.add_options()("opt,o", new Raw(0, Decl{min_tok(t[0].ar), max_tok(t[0].ar), false, false, false, 0}, log), "d")("dd,d", new po::untyped_value(true), "d");
    static const vector<string> al = {"plain", "-d", "--dd", "--", "", "-1"};
    static const vector<string> sp = {"--opt", "--opt=adj", "-o", "-oadj", "-do", "-doadj"};
    for (auto& s : sp) for (unsigned len = 0; len <= 4; ++len) {
        unsigned total = 1; for (unsigned i = 0; i < len; ++i) total *= (unsigned)al.size();
        for (unsigned k = 0; k < total; ++k) {
            vector<string> a(1, s); for (unsigned i = 0, q = k; i < len; ++i, q /= (unsigned)al.size()) a.push_back(al[q % al.size()]);
            c.cur = case_desc(t, a, st::unix_style, false, 0);
            Outcome o = real_parse(d, a, st::unix_style, false, 0), m = model_parse(t, a, st::unix_style, false, 0);
            c.eval(); c.count("enumerated"); c.nontrivial(c.cur);
            if (!diff(o, m).empty()) c.fail("model-" + diff_kind(o, m), diff(o, m) + " " + o.what);
        }
    }
}
static vector<mon::Fixed> fixed() {
    std::locale::global(std::locale("C.utf8"));
    vector<mon::Fixed> f;
    for (unsigned mn = 0; mn < 5; ++mn) for (unsigned mx : {0u, 1u, 2u, 3u, 4u, 15u}) if (mn <= mx) f.push_back({"tokens " + std::to_string(mn) + " to " + std::to_string(mx), [=](Ctx& c) { enumerate(c, mn, mx); }});
    return f;
}
MON_MAIN(fixed(), random_case)
