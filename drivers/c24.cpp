// C24: threads sharing descriptions nobody modifies. Oracles: ThreadSanitizer (data races), and the
// transcript of every thread compared with the same operations done alone on an identically built
// twin. The threads run first, so that they also make the first use of everything, in the description
// and (in the first case of a process) in the whole process.
#include "spell.hpp"
#include <atomic>
#include <sstream>
#include <thread>
#include <sched.h>
#include <time.h>
using namespace cli; using mon::Ctx; typedef std::wstring W; using mon::u64;
extern char** environ;

// Relaxed everywhere: the monitor must not order the threads it watches.
struct Watch {
    std::atomic<unsigned> ticket{0}, active{0}, overlapping{0}, most{0}; std::atomic<bool> go{false};
    std::atomic<unsigned char> order[1 << 12];
    void enter(unsigned who) { unsigned k = ticket.fetch_add(1, std::memory_order_relaxed); if (k < (1 << 12)) order[k].store((unsigned char)who, std::memory_order_relaxed); unsigned a = active.fetch_add(1, std::memory_order_relaxed); if (a) overlapping.fetch_add(1, std::memory_order_relaxed); if (a + 1 > most.load(std::memory_order_relaxed)) most.store(a + 1, std::memory_order_relaxed); }
    void leave() { active.fetch_sub(1, std::memory_order_relaxed); }
};
static thread_local string* events = 0; static thread_local Rng* delays = 0;
// a delay at a place inside the library's operations
static void pause_here() {
    if (!delays) return;
    switch (delays->below(12)) { case 0: case 1: sched_yield(); break; case 2: { timespec t = {0, (long)delays->below(60000)}; nanosleep(&t, 0); break; } case 3: for (volatile unsigned i = 0; i < 300; ++i); break; default: break; }
}
struct Slow { string t; };
inline void validate(boost::any& v, const vector<string>& x, Slow*, int) { pause_here(); po::validators::check_first_occurrence(v); string s = po::validators::get_single_string(x, true); if (s.find('!') != string::npos) throw po::invalid_option_value(s); pause_here(); v = Slow{s}; }
inline std::ostream& operator<<(std::ostream& os, const Slow& s) { pause_here(); return os << s.t; }

struct Shared {
    Table t; int style = 0; po::options_description all, second; po::positional_options_description pos; Pos p;
    vector<vector<string> > lines; vector<std::unique_ptr<po::parsed_options> > parsed; std::unique_ptr<po::wparsed_options> wparsed; vector<string> configs; po::variables_map maps[2]; vector<string> names;
    Shared(u64 seed, bool prepare) : all("All the options", 72, 30), second("Second") {
        Rng r(seed);
        GenOpt g; g.wild = r.chance(30); g.max_opts = 9; t = gen_table(r, g); style = gen_style(r); if (!style_ok(style)) style = 0; p = gen_pos(r, t); pos = make_pos(p);
        po::options_description inner("Inner"), deep("Deep");
        build(t, all);
        inner.add_options()("slow,s", po::value<Slow>()->default_value(Slow{"late"})->implicit_value(Slow{"soon"})->value_name("WHEN")->notifier([](const Slow& s) { pause_here(); if (events) *events += "slow " + s.t + ";"; }), "takes its time,\nin two\tparagraphs of some length which have to be wrapped by the printing code")
            ("number,n", po::value<int>()->default_value(7)->notifier([](int i) { if (events) *events += "number " + std::to_string(i) + ";"; }), "a number")
            ("list", po::value<vector<int> >()->composing()->multitoken()->notifier([](const vector<int>& v) { pause_here(); if (events) *events += "list " + std::to_string(v.size()) + ";"; }), "several numbers");
        deep.add_options()("sect.wide", po::wvalue<W>()->default_value(L"\x20ac", "euro"), "wide")("sect.switch", po::bool_switch(), "switch")("sect.real", po::value<double>()->implicit_value(0.5), "real")("must", po::value<string>(), "demanded")("any.*", po::value<string>(), "wild");
        inner.add(deep); all.add(inner);
        second.add_options()("must", po::value<string>()->required(), "demanded")("number,n", po::value<int>()->default_value(8), "other default");
        for (unsigned i = 0; i < 6; ++i) { vector<string> a = r.chance(60) ? gen_good_args(r, t, style) : gen_args(r, t); for (unsigned k = r.below(3); k--;) a.insert(a.begin() + (long)r.below((unsigned)a.size() + 1), r.pick(vector<string>{"--slow=x", "--slow=!", "--number=12", "--number=x", "--list=1", "--slow", "--must=1", "-n3", "--any.thing=1", "--sect.wide=\xe2\x82\xac"})); lines.push_back(a); }
        for (unsigned i = 0; i < 3; ++i) { string s; for (unsigned k = r.below(6); k--;) s += r.pick(vector<string>{"slow = now # c\n", "number=5\n", "list=1\nlist=2\n", "[sect]\n", "[sect]\nwide=\xe2\x82\xac\n", "real=1.5\n", "[any]\nthing=1\n", "must=be\n", "oops\n", "unknown=1\n", "number=x\n", "alpha=1\n"}); configs.push_back(s); }
        for (auto& o : t) { for (auto& l : o.longs) { names.push_back(l); names.push_back(l.substr(0, 2)); } if (o.sh) names.push_back(string("-") + o.sh); }
        for (const char* s : {"slow", "sl", "number", "must", "any.x", "sect", "SLOW", "", "-n", "nope"}) names.push_back(s);
        // results of earlier operations, shared as well; where not prepared the threads use everything first
        if (prepare) {
            for (auto& a : lines) try { parsed.emplace_back(new po::parsed_options(po::command_line_parser(a).options(all).style(style).positional(pos).allow_unregistered().run())); } catch (const std::exception&) {}
            for (auto& q : parsed) try { wparsed.reset(new po::wparsed_options(*q)); } catch (const std::exception&) {}
            for (auto& q : parsed) try { po::store(*q, maps[0]); } catch (const std::exception&) {}
            try { std::istringstream is("number=3\nmust=x\n"); po::store(po::parse_config_file(is, second), maps[1]); } catch (const std::exception&) {}
            maps[0].next(&maps[1]);
        }
    }
};
static string value_text(const po::variable_value& v) { if (v.empty()) return "none"; string s = v.defaulted() ? "default " : "given "; if (auto p = boost::any_cast<Slow>(&v.value())) return s + p->t; if (auto p = boost::any_cast<W>(&v.value())) return s + mon::show(*p); return s + any_text(v.value()); }
static string vm_text(const po::variables_map& m) { string s; for (auto& x : m) s += x.first + "=" + value_text(x.second) + ";"; return s; }
template<class CH> static string opts(const vector<po::basic_option<CH> >& v) { string s; for (auto& o : v) s += o.string_key + "@" + std::to_string(o.position_key) + mon::show(o.value) + mon::show(o.original_tokens) + (o.unregistered ? "u" : "") + (o.case_insensitive ? "i" : "") + ";"; return s; }
static string digest(const Shared& s) { std::ostringstream os; os << s.all << s.second; for (auto& o : s.all.options()) { os << o->format_name() << o->format_parameter() << o->key("k") << o->description().size() << o->semantic()->min_tokens() << "/" << o->semantic()->max_tokens() << o->semantic()->is_required(); auto l = o->long_names(); for (size_t i = 0; i < l.second; ++i) os << l.first[i]; } for (auto& q : s.parsed) os << opts(q->options); os << vm_text(s.maps[0]) << vm_text(s.maps[1]) << s.pos.max_total_count(); return os.str(); }

static const unsigned N_OPS = 14;
static string operation(const Shared& s, Rng& r, unsigned which) {
    string out; string ev; struct Ev { Ev(string* e) { events = e; } ~Ev() { events = 0; } } hold(&ev);
    try {
        switch (which) {
        case 0: { po::command_line_parser p(r.pick(s.lines)); p.options(s.all).style(s.style); if (r.chance(60)) p.positional(s.pos); if (r.chance(40)) p.allow_unregistered(); out = opts(p.run().options); break; }
        case 1: { vector<W> w; for (auto& a : r.pick(s.lines)) { W x; for (char ch : a) x += (wchar_t)(unsigned char)ch; w.push_back(x); } po::wcommand_line_parser p(w); p.options(s.all).style(s.style).allow_unregistered(); out = opts(p.run().options); break; }
        case 2: case 3: { po::variables_map m; po::command_line_parser p(r.pick(s.lines)); p.options(s.all).style(s.style).positional(s.pos); if (which == 3) p.allow_unregistered(); po::store(p.run(), m); out = vm_text(m); po::notify(m); out += vm_text(m); break; }
        case 4: { po::variables_map m; if (!s.parsed.empty()) po::store(*r.pick(s.parsed), m); if (s.wparsed) po::store(*s.wparsed, m); out = vm_text(m); po::notify(m); break; }
        case 5: { po::variables_map m; std::istringstream is(r.pick(s.configs)); auto q = po::parse_config_file(is, s.all, r.chance(50)); out = opts(q.options); po::store(q, m); out += vm_text(m); po::notify(m); break; }
        case 6: { string c = r.pick(s.configs); W w; for (char ch : c) w += (wchar_t)(unsigned char)ch; std::wistringstream is(w); auto q = po::parse_config_file(is, s.all, true); out = opts(q.options); po::variables_map m; po::store(q, m); out += vm_text(m); break; }
        case 7: { auto q = po::parse_environment(s.all, "VPM_"); out = opts(q.options); q = po::parse_environment(s.all, [&s](const string& n) { pause_here(); return s.all.find_nothrow(n, true) ? n : string(); }); out += opts(q.options); break; }
        case 8: for (unsigned k = 0; k < 8; ++k) { const string& n = r.pick(s.names); const auto* d = s.all.find_nothrow(n, r.chance(50), r.chance(50), r.chance(50)); out += d ? d->format_name() + d->canonical_display_name(1) + d->long_name() + d->key(n) : "-"; out += s.all.find(n, k & 1).description(); } break;
        case 9: { std::ostringstream os; os << s.all; s.second.print(os, 30); out = os.str() + std::to_string(s.all.get_option_column_width()); break; }
        case 10: { po::options_description mine("mine"); mine.add_options()("own", po::value<int>()); mine.add(s.second).add(s.all); po::variables_map m; po::store(po::command_line_parser(vector<string>{"--own=4"}).options(mine).allow_unregistered().run(), m); out = vm_text(m); std::ostringstream os; os << mine; out += os.str(); po::notify(m); break; }
        case 11: for (unsigned k = 0; k < 10; ++k) { const string& n = r.pick(s.names); const auto& m = s.maps[k & 1]; out += value_text(m[n]) + std::to_string(m.count(n)); if (m.count(n)) out += value_text(m.at(n)); } out += s.pos.max_total_count() ? s.pos.name_for_position(0) : "-"; break;
        case 12: { for (auto& x : po::split_unix("a \"b c\" d\\ e")) out += x + "|"; W w = L"wide \x20ac \x1f600"; string u = boost::to_utf8(w); out += mon::show(boost::from_utf8(u)) + u; for (auto& q : s.parsed) { for (auto& x : po::collect_unrecognized(q->options, po::include_positional)) out += x + "|"; } out += boost::to_local_8_bit(L"plain") + mon::show(boost::from_local_8_bit("plain")); break; }
        default: { po::variables_map m; std::istringstream is(r.chance(50) ? "number=3\n" : "must=1\nnumber=x\n"); po::store(po::parse_config_file(is, s.second), m); out = vm_text(m); po::notify(m); }
        }
    } catch (const std::exception& e) { out += string(" error: ") + e.what(); }
    if (!ev.empty()) out += " events: " + ev;
    return out;
}
struct Plan { u64 seed; unsigned n; bool same; };
static vector<string> script(const Shared& s, const Plan& p, Watch* w, unsigned who, u64 delay_seed) {
    Rng r(p.seed), d(delay_seed); vector<string> out; if (w) delays = &d;
    if (w) while (!w->go.load(std::memory_order_relaxed)) ;
    for (unsigned i = 0; i < p.n; ++i) {
        unsigned which = r.below(N_OPS); Rng q(r.next());
        if (w) { pause_here(); w->enter(who); }
        out.push_back(std::to_string(which) + ": " + operation(s, q, which));
        if (w) w->leave();
    }
    delays = 0; return out;
}
static void random_case(Ctx& c) {
    Rng& r = c.r; static bool first = true;
    const u64 seed = r.next(); const bool prepare = !first && r.chance(60); const unsigned n = 2 + r.below(7);
    // all threads doing the same meet in the same place; different ones meet everywhere
    const bool same = r.chance(35); vector<Plan> plans; for (unsigned i = 0; i < n; ++i) { Plan p{same && i ? plans[0].seed : r.next(), 4 + r.below(8), same}; if (same && i) p.n = plans[0].n; plans.push_back(p); }
    c.cur = std::to_string(n) + " threads" + (same ? " doing the same" : "") + (prepare ? ", shared results" : ", first use"); if (first) { c.count("process-first-use"); first = false; }
    static Watch w; w.go = false; w.ticket = 0; w.active = 0; w.overlapping = 0; w.most = 0;
    auto a = std::unique_ptr<Shared>(new Shared(seed, prepare));
    vector<vector<string> > got(n); vector<std::thread> th; vector<u64> ds; for (unsigned i = 0; i < n; ++i) ds.push_back(r.next());
    for (unsigned i = 0; i < n; ++i) th.emplace_back([&, i] { got[i] = script(*a, plans[i], &w, i, ds[i]); });
    w.go.store(true, std::memory_order_relaxed);
    for (auto& t : th) t.join();
    c.eval(); unsigned ops = w.ticket; string order; for (unsigned i = 0; i < ops && i < (1 << 12); ++i) order += (char)('a' + w.order[i]);
    c.count("operations", ops); c.count("overlapping-operations", w.overlapping); if (w.most >= 3) c.count("three-at-once"); if (!prepare) c.count("first-use-of-description");
    if (w.overlapping) c.nontrivial(order + std::to_string(seed));
    // alone, on a twin
    auto b = std::unique_ptr<Shared>(new Shared(seed, prepare));
    for (unsigned i = 0; i < n; ++i) {
        vector<string> want = script(*b, plans[i], 0, i, 0);
        for (size_t k = 0; k < want.size(); ++k) { if (want[k].find("error: ") != string::npos) c.count("errors"); if (got[i][k] != want[k]) { c.fail("result-differs", "operation " + std::to_string(k) + " of thread " + std::to_string(i) + " gave " + mon::show(got[i][k].substr(0, 600)) + ", alone it gives " + mon::show(want[k].substr(0, 600))); return; } }
        // once more: repeating gives the same
        if (i == 0) { c.count("repeated"); if (script(*b, plans[i], 0, i, 0) != want) { c.fail("not-repeatable", "the same operations give another result the second time"); return; } }
    }
    // what was shared is as it was
    if (digest(*a) != digest(*b)) { c.fail("shared-changed", mon::show(digest(*a).substr(0, 800)) + " expected " + mon::show(digest(*b).substr(0, 800))); return; }
    auto fresh = std::unique_ptr<Shared>(new Shared(seed, prepare)); if (digest(*fresh) != digest(*a)) c.fail("shared-changed", "the shared descriptions differ from unused ones");
    if (c.want_sample()) c.sample(c.cur + " order " + order.substr(0, 100) + " " + got[0][0].substr(0, 150));
}
static vector<mon::Fixed> fixed() { vector<mon::Fixed> f; return f; }
int main(int argc, char** argv) {
    static char e1[] = "VPM_NUMBER=4", e2[] = "number=1", e3[] = "VPM_SLOW=env", e4[] = "PATH=x", e5[] = "nonsense", *env[] = {e1, e2, e3, e4, e5, 0};
    vector<char*> all; for (char** e = environ; *e; ++e) if (!strncmp(*e, "VERIF", 5) || strstr(*e, "SAN_OPTIONS")) all.push_back(*e); for (char** e = env; *e; ++e) all.push_back(*e); all.push_back(0); environ = all.data();
    return mon::run(argc, argv, fixed(), random_case);
}
