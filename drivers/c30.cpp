// C30: typed access and value semantics of maps, values, parsed options, parsers and positional
// descriptions. Histories over several maps and sources that are copied, assigned, swapped, moved,
// changed in place and destroyed, each with its own reference map.
#include "hist.hpp"
#include <memory>
using namespace cli; using mon::Ctx; typedef std::wstring W;

template<class T> static int reads(const po::variable_value& v) { try { const T& x = v.as<T>(); return boost::any_cast<T>(&v.value()) == &x ? 1 : -1; } catch (const boost::bad_any_cast&) { return 0; } }
template<class T> static int reads_mut(po::variable_value& v) { try { T& x = v.as<T>(); return boost::any_cast<T>(&v.value()) == &x ? 1 : -1; } catch (const boost::bad_any_cast&) { return 0; } }
// which of twelve types a value can be read as
static vector<int> readable(const po::variable_value& v) { return {reads<string>(v), reads<int>(v), reads<double>(v), reads<bool>(v), reads<vector<string> >(v), reads<vector<int> >(v), reads<W>(v), reads<long>(v), reads<unsigned>(v), reads<char>(v), reads<const char*>(v), reads<boost::any>(v)}; }
static vector<int> readable_mut(po::variable_value& v) { return {reads_mut<string>(v), reads_mut<int>(v), reads_mut<double>(v), reads_mut<bool>(v), reads_mut<vector<string> >(v), reads_mut<vector<int> >(v), reads_mut<W>(v), reads_mut<long>(v), reads_mut<unsigned>(v), reads_mut<char>(v), reads_mut<const char*>(v), reads_mut<boost::any>(v)}; }
static int type_of(const Rich& o) { switch (o.ty) { case T_STR: case T_UNT: case T_UFLAG: return 0; case T_INT: return 1; case T_DBL: return 2; case T_SWITCH: case T_BOOL: return 3; case T_VSTR: return 4; default: return 5; } }
static vector<int> only(int t) { vector<int> v(12, 0); if (t >= 0) v[(size_t)t] = 1; return v; }
static string opts_text(const vector<po::option>& v) { string r; for (auto& o : v) { r += o.string_key + "#" + std::to_string(o.position_key) + mon::show(o.value) + mon::show(o.original_tokens) + (o.unregistered ? "u" : "") + (o.case_insensitive ? "i" : "") + ";"; } return r; }

struct Slot { std::unique_ptr<po::variables_map> vm; RefMap ref; std::map<string, std::pair<int, string> > own; };   // own: entries made by the user
static string slot_text(const Slot& s) { std::map<string, Entry> all(s.ref.m); for (auto& e : s.own) { Entry x; x.text = e.second.second; x.defaulted = e.second.first != 0; all[e.first] = x; } string r; for (auto& e : all) r += e.first + (e.second.defaulted ? "(d)=" : "=") + e.second.text + ";"; return r; }

static void random_case(Ctx& c) {
    Rng& r = c.r;
    World w(gen_rich(r, 7, r.chance(50), true), true); ValueIds ids;
    vector<Slot> maps(1); maps[0].vm.reset(new po::variables_map);
    struct Src { Source s; std::unique_ptr<po::parsed_options> p; string text; };
    vector<Src> srcs; string hist; unsigned copies = 0, mods = 0;
    auto check = [&](const char* key) -> bool {
        for (size_t i = 0; i < maps.size(); ++i) { string x = map_text(*maps[i].vm), y = slot_text(maps[i]); if (x != y) { c.fail(key, "map " + std::to_string(i) + " is " + x + " expected " + y); return false; } }
        for (auto& s : srcs) if (opts_text(s.p->options) != s.text) { c.fail("parsed-options-changed", opts_text(s.p->options) + " expected " + s.text); return false; }
        return true;
    };
    unsigned n = 4 + r.below(14);
    for (unsigned step = 0; step < n; ++step) {
        size_t i = r.below((unsigned)maps.size()); Slot& m = maps[i];
        unsigned op = r.below(12); string at = std::to_string(i);
        if (srcs.empty() || op == 0) {
            Src s; s.s = gen_source(r, w, ids, false); s.p.reset(new po::parsed_options(parse_source(r, w, s.s))); s.text = opts_text(s.p->options);
            srcs.push_back(std::move(s)); hist += " parse"; if (srcs.size() > 4) { srcs.erase(srcs.begin()); }
        } else if (op <= 3) {
            Src& s = srcs[r.below((unsigned)srcs.size())]; hist += " store" + at + s.s.show(w.t); c.cur = "options " + show(w.t) + " history" + hist;
            std::unique_ptr<po::parsed_options> copy;
            if (r.chance(40)) { copy.reset(new po::parsed_options(*s.p)); if (r.chance(50)) s.p.swap(copy); ++copies; }       // either the copy or the original serves
            string before = opts_text(s.p->options);
            try { if (r.chance(25)) po::store(po::wparsed_options(*s.p), *m.vm); else po::store(*s.p, *m.vm); } catch (const std::exception& e) { c.fail("store-throws", e.what()); return; }
            m.ref.store(w, s.s); c.count("stores");
            if (copy && opts_text(copy->options) != before) c.fail("parsed-options-changed", "the copy");
        } else if (op == 4) {
            if (maps.size() == 1 || (maps.size() < 4 && r.chance(60))) { Slot s; s.vm.reset(new po::variables_map(*m.vm)); s.ref = m.ref; s.own = m.own; maps.push_back(std::move(s)); hist += " copy" + at; ++copies; c.count("map-copies"); }
            else { size_t j = r.below((unsigned)maps.size()); *maps[j].vm = *m.vm; RefMap x = m.ref; maps[j].ref = x; auto y = m.own; maps[j].own = y; hist += " assign" + at + ">" + std::to_string(j); ++copies; c.count("map-assignments"); }
        } else if (op == 5) {
            size_t j = r.below((unsigned)maps.size());
            if (j != i) { std::swap(*maps[j].vm, *m.vm); std::swap(maps[j].ref, m.ref); std::swap(maps[j].own, m.own); hist += " swap" + at + "," + std::to_string(j); c.count("map-swaps"); }
            else { std::unique_ptr<po::variables_map> t(new po::variables_map(std::move(*m.vm))); m.vm.swap(t); hist += " move" + at; c.count("map-moves"); }
        } else if (op == 6) {
            // an entry changed in place keeps its mark, and the change is what everyone sees from now on
            std::map<string, po::variable_value>& mm = *m.vm; if (m.ref.m.empty()) continue;
            auto it = m.ref.m.begin(); std::advance(it, r.below((unsigned)m.ref.m.size())); const Rich* o = 0; for (auto& x : w.t) if (x.key() == it->first) o = &x;
            po::variable_value& v = mm.find(it->first)->second; string id = value_for(r, o->ty == T_UFLAG || o->ty == T_UNT ? T_STR : o->ty, ids); Entry& e = it->second;
            switch (type_of(*o)) { case 0: v.as<string>() = id; e.text = RefMap::scalar(T_STR, id); break; case 1: v.as<int>() = atoi(id.c_str()); e.text = "i" + id; break; case 2: v.as<double>() = atof(id.c_str()); e.text = RefMap::scalar(T_DBL, id); break; case 3: v.as<bool>() ^= true; e.text = v.as<bool>() ? "true" : "false"; break;
            case 4: v.as<vector<string> >().assign(1, id); e.parts.assign(1, id); e.text = RefMap::render(*o, e.parts); break; default: boost::any_cast<vector<int> >(v.value()); v.value() = boost::any(vector<int>(1, atoi(id.c_str()))); e.parts.assign(1, id); e.text = RefMap::render(*o, e.parts); }
            hist += " change" + at + ":" + it->first; ++mods; c.count("changed-in-place");
        } else if (op == 7) {
            string k = "own" + std::to_string(step); bool d = r.chance(30); int kind = (int)r.below(3); boost::any a; if (kind == 0) a = (int)step; else if (kind == 1) a = string("mine"); else a = vector<string>(2, "x");
            m.vm->insert(std::make_pair(k, po::variable_value(a, d))); m.own[k] = std::make_pair((int)d, any_text(a)); hist += " insert" + at; c.count("own-entries");
        } else if (op == 8 && maps.size() > 1) { maps.erase(maps.begin() + (long)i); hist += " destroy" + at; }
        else if (op == 9) { m.vm->clear(); m.ref = RefMap(); m.own.clear(); hist += " clear" + at; }
        else if (op == 10) {
            vector<string> missing; for (auto& q : m.ref.required) if (!m.ref.m.count(q.first)) missing.push_back(q.first);
            w.sinks.events.clear(); bool threw = false; hist += " notify" + at; c.cur = "options " + show(w.t) + " history" + hist;
            try { po::notify(*m.vm); } catch (const po::required_option&) { threw = true; }
            if (threw != !missing.empty()) { c.fail("required", string(threw ? "refused" : "accepted") + " with missing " + mon::show(missing)); return; }
            std::map<string, string> got, want; for (auto& e : w.sinks.events) got[e.key] = got.count(e.key) ? "twice" : e.text;
            if (!threw) for (auto& o : w.t) if (o.callback && o.ty != T_UNT && o.ty != T_UFLAG && m.ref.m.count(o.key())) { want[o.key()] = m.ref.m[o.key()].text; if (o.bound && w.sinks.text(o) != want[o.key()]) c.fail("bound-value", o.key() + " is " + w.sinks.text(o) + " expected " + want[o.key()]); }
            if (got != want) { string a, b; for (auto& e : got) a += e.first + "=" + e.second + " "; for (auto& e : want) b += e.first + "=" + e.second + " "; c.fail("delivered", "delivered " + a + "expected " + b); return; }
            c.count("notified");
        }
        c.cur = "options " + show(w.t) + " history" + hist;
        c.eval();
        if (!check("map")) return;
        // every entry can be read as its own type and as nothing else, and reading changes nothing
        Slot& z = maps[r.below((unsigned)maps.size())]; const po::variables_map& cz = *z.vm;
        size_t chosen = step + 1 == n ? w.t.size() : r.below((unsigned)w.t.size());
        for (size_t oi = 0; oi < w.t.size(); ++oi) {
            const Rich& o = w.t[oi]; if (chosen != w.t.size() && chosen != oi) continue;
            bool has = z.ref.m.count(o.key()) != 0; const po::variable_value& v = cz[o.key()]; vector<int> want = only(has ? type_of(o) : -1);
            if (readable(v) != want) { string s; for (int q : readable(v)) s += std::to_string(q); c.fail("typed-access", o.key() + " of type " + ty_name(o.ty) + " is readable as " + s); }
            if (v.empty() == has || cz.count(o.key()) != (has ? 1u : 0u) || v.defaulted() != (has && z.ref.m[o.key()].defaulted)) c.fail("marks", o.key());
            if (has) { auto it = z.vm->find(o.key()); po::variable_value one(it->second), two; two = it->second; if (&it->second != &v) c.fail("lookup-copies", o.key()); if (readable_mut(it->second) != want || (r.chance(15) && (readable(one) != want || readable(two) != want)) || one.defaulted() != v.defaulted() || two.defaulted() != v.defaulted() || any_text(one.value()) != any_text(v.value()) || any_text(two.value()) != any_text(v.value())) c.fail("value-copy", o.key()); c.count("typed-reads");
                one.value() = boost::any(3.25f); }
            else if (r.chance(30)) c.count("absent-reads");
        }
        if (reads<int>(cz["no such name"]) || !cz["no such name"].empty() || cz.count("no such name")) c.fail("typed-access", "a name that is in no map");
        if (!check("reading-changes")) return;
    }
    if (copies + mods > 1 && maps.size() > 1) { c.nontrivial(c.cur); if (c.want_sample()) c.sample(c.cur); }
}
static void parsers(Ctx& c, unsigned round) {
    // copies of parsers, positional descriptions and results, used after everything they were made from is gone
    Rng r(round + 77); Table t = gen_table(r); po::options_description d; build(t, d);
    vector<string> a = gen_good_args(r, t, st::unix_style); Pos pos = gen_pos(r, t, 60); int style = gen_style(r); bool un = r.chance(50);
    c.cur = case_desc(t, a, style, un, &pos); c.eval(); c.count("parser-copies"); c.nontrivial(c.cur);
    Outcome want = real_parse(d, a, style, un, &pos);
    auto run = [&](po::command_line_parser& p) { Outcome o; try { o.opts = convert(p.run().options); } catch (const std::exception&) { o = from_exception(std::current_exception()); } return o; };
    try {
        std::unique_ptr<vector<string> > args(new vector<string>(a)); po::positional_options_description pd = make_pos(pos);
        std::unique_ptr<po::command_line_parser> p(new po::command_line_parser(*args)); args.reset();
        p->options(d).style(style); if (un) p->allow_unregistered(); if (pos.used) p->positional(pd);
        po::command_line_parser q(*p), s(vector<string>(1, "other")); s = *p;
        Outcome x = run(*p); p.reset(); Outcome y = run(q), z = run(s);
        if (!diff(x, want).empty()) c.fail("parser", diff(x, want)); if (!diff(y, want).empty()) c.fail("parser-copy", diff(y, want)); if (!diff(z, want).empty()) c.fail("parser-assigned", diff(z, want));
        // positional descriptions
        po::positional_options_description e(pd), f; f.add("junk", 3); f = pd; unsigned lim = pos.limit();
        for (auto* g : {&e, &f}) { if (g->max_total_count() != lim) c.fail("positional-copy", std::to_string(g->max_total_count())); for (unsigned k = 0; k < std::min(lim, 12u); ++k) if (g->name_for_position(k) != pos.name(k)) c.fail("positional-copy", g->name_for_position(k)); }
        e.add("more", 1); if (pd.max_total_count() != lim) c.fail("positional-copy", "adding to a copy changed the original");
        // wide results own everything they need
        std::unique_ptr<po::wparsed_options> wp; string n;
        try { po::parsed_options np = po::command_line_parser(a).options(d).style(style).allow_unregistered().run(); n = opts_text(np.options); wp.reset(new po::wparsed_options(np)); po::wparsed_options other(np); *wp = other; other.options.clear(); other.utf8_encoded_options.options.clear(); } catch (const std::exception&) {}
        if (wp && opts_text(wp->utf8_encoded_options.options) != n) c.fail("wide-result-copy", opts_text(wp->utf8_encoded_options.options) + " expected " + n);
    } catch (const po::invalid_command_line_style&) {}
}
template<class T> static const std::type_info& declared(const po::typed_value<T>* v) { const po::typed_value_base* b = dynamic_cast<const po::typed_value_base*>(static_cast<const po::value_semantic*>(v)); return b ? b->value_type() : typeid(void); }
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    for (unsigned i = 0; i < 16; ++i) f.push_back({"parsers " + std::to_string(i), [i](Ctx& c) { for (unsigned k = 0; k < 60; ++k) parsers(c, i * 60 + k); }});
    f.push_back({"declared types", [](Ctx& c) {
        c.eval();
#define TYPE(T) { std::unique_ptr<po::typed_value<T > > v(po::value<T >()); if (declared(v.get()) != typeid(T)) c.fail("declared-type", #T); c.count("declared-types"); }
        TYPE(int) TYPE(string) TYPE(bool) TYPE(double) TYPE(vector<int>) TYPE(vector<string>) TYPE(float) TYPE(char) TYPE(unsigned long)
        std::unique_ptr<po::typed_value<bool> > b(po::bool_switch()); if (declared(b.get()) != typeid(bool)) c.fail("declared-type", "switch");
        po::untyped_value u; if (dynamic_cast<po::typed_value_base*>(static_cast<po::value_semantic*>(&u))) c.fail("declared-type", "untyped");
        // wide values are read as what they were declared
        po::options_description d; d.add_options()("w", po::wvalue<W>(), "")("n", po::wvalue<int>(), "")("v", po::wvalue<vector<W> >()->multitoken(), "")("s", po::value<string>(), "");
        po::variables_map vm; po::store(po::wcommand_line_parser(vector<W>{L"--w=x", L"--n=5", L"--v", L"a", L"b", L"--s=y"}).options(d).run(), vm);
        if (readable(vm["w"]) != only(6) || readable(vm["n"]) != only(1) || readable(vm["s"]) != only(0) || readable(vm["v"]) != only(-1) || vm["v"].as<vector<W> >().size() != 2) c.fail("typed-access", "wide options");
    }});
    f.push_back({"values and maps outlive their descriptions", [](Ctx& c) {
        vector<string> seen; int bound = 0; po::variables_map vm, copy;
        {
            std::unique_ptr<po::options_description> d(new po::options_description), g(new po::options_description("g"));
            g->add_options()("a,a", po::value<int>(&bound)->notifier([&](int v) { seen.push_back("a" + std::to_string(v)); }), "")("b", po::value<vector<string> >()->composing()->notifier([&](const vector<string>& v) { seen.push_back("b" + std::to_string(v.size())); }), "")("c", po::value<string>()->default_value("dflt")->notifier([&](const string& v) { seen.push_back("c" + v); }), "")("r", po::value<int>()->required(), "");
            d->add(*g); g.reset();
            { std::unique_ptr<std::istringstream> is(new std::istringstream("b = 1\na = 5\n")); po::parsed_options p = po::parse_config_file(*is, *d); is.reset(); po::store(p, vm); }
            { po::parsed_options p(d.get()); { vector<string> a{"--b=2"}; p = po::command_line_parser(a).options(*d).run(); } po::store(p, vm); }
            copy = vm;
        }
        c.eval(); c.count("outlived");
        for (int i = 0; i < 2; ++i) { bool req = false; seen.clear(); try { po::notify(i ? copy : vm); } catch (const po::required_option& e) { req = string(e.what()).find("'--r'") != string::npos; } if (!req || !seen.empty()) c.fail("outlive-required", mon::show(seen)); }
        for (auto* m : {&vm, &copy}) { m->insert(std::make_pair(string("r"), po::variable_value(boost::any(1), false))); bound = 0; seen.clear(); po::notify(*m); if (seen != vector<string>{"a5", "b2", "cdflt"}) c.fail("outlive-notify", mon::show(seen)); if (bound != 5) c.fail("outlive-bound", std::to_string(bound)); }
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
