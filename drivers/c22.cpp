// C22: error messages. Each erroneous input is run twice, once with a plain marker and once with
// hostile text in its place: the second message must be the first with the marker replaced.
#include "spell.hpp"
#include <sstream>
#include <typeinfo>
#include <unistd.h>
using namespace cli; using mon::Ctx;

static string replace_all(string s, const string& a, const string& b) { string r; size_t p = 0; for (;;) { size_t q = s.find(a, p); if (q == string::npos) return r + s.substr(p); r += s.substr(p, q - p) + b; p = q + a.size(); } }
struct Msg { string text, type, problem; };
template<class E> static bool copies(const E& e, Msg& m) {
    // the same text every time, from copies, from assigned objects and when thrown again
    string a = e.what(), b = e.what(), g = e.get_option_name();
    if (a != b) m.problem = "a second call of what() gives " + b;
    E c(e); if (c.what() != a) m.problem = string("a copy says ") + c.what();
    E d(c); d = e; if (d.what() != a) m.problem = string("an assigned object says ") + d.what();
    if (c.get_option_name() != g || e.get_option_name() != g) m.problem = "get_option_name differs";
    try { throw c; } catch (std::exception& x) { if (x.what() != a) m.problem = string("thrown again it says ") + x.what(); }
    try { throw e; } catch (E x) { if (x.what() != a) m.problem = string("caught by value it says ") + x.what(); }
    return true;
}
// what the library says about the error in flight
static Msg message() {
    Msg m;
    std::exception_ptr p = std::current_exception();
    try { std::rethrow_exception(p); } catch (const std::exception& e) { m.text = e.what(); m.type = typeid(e).name(); }
    try { std::rethrow_exception(p); }
    catch (const po::unknown_option& e) { copies(e, m); m.type = "unknown_option"; }
    catch (const po::ambiguous_option& e) { copies(e, m); m.type = "ambiguous_option"; }
    catch (const po::invalid_config_file_syntax& e) { copies(e, m); m.type = "invalid_config_file_syntax"; string t = e.tokens(); if (t != e.tokens()) m.problem = "tokens() differs"; }
    catch (const po::invalid_command_line_syntax& e) { copies(e, m); m.type = "invalid_command_line_syntax"; if (e.tokens() != e.get_option_name()) m.problem = "tokens() differs"; }
    catch (const po::invalid_option_value& e) { copies(e, m); m.type = "invalid_option_value"; }
    catch (const po::invalid_bool_value& e) { copies(e, m); m.type = "invalid_bool_value"; }
    catch (const po::validation_error& e) { copies(e, m); m.type = "validation_error"; }
    catch (const po::multiple_occurrences& e) { copies(e, m); m.type = "multiple_occurrences"; }
    catch (const po::multiple_values& e) { copies(e, m); m.type = "multiple_values"; }
    catch (const po::required_option& e) { copies(e, m); m.type = "required_option"; }
    catch (const po::error_with_option_name& e) { copies(e, m); }
    catch (const std::exception&) {}
    for (int i = 0; i < 3; ++i) try { std::rethrow_exception(p); } catch (const std::exception& e) { if (e.what() != m.text) m.problem = string("rethrown it says ") + e.what(); }
    return m;
}
// user-defined types, whose validation reports in the user's own words
struct Own1 { int x; }; struct Own2 { int x; }; struct Own3 { int x; };
inline void validate(boost::any&, const vector<string>& v, Own1*, int) { throw po::invalid_option_value(v.at(0)); }
struct my_error : po::error_with_option_name { my_error(const string& extra) : po::error_with_option_name("own trouble with '%canonical_option%' at '%extra%' (%prefix%|%original_token%|%option%)") { set_substitute("extra", extra); set_substitute_default("extra", "at '%extra%'", "nowhere"); } };
inline void validate(boost::any&, const vector<string>& v, Own2*, int) { throw my_error(v.at(0)); }
inline void validate(boost::any&, const vector<string>&, Own3*, int) { throw po::validation_error(po::validation_error::invalid_option); }

enum Kind { UNKNOWN_OPT, UNKNOWN_VAL, AMBIG, AMBIG_SAME, MISSING_ARG, MISSING_MIDDLE, EMPTY_ADJACENT, EXTRA_ARG, TOO_MANY_POS, BAD_INT, BAD_BOOL, BAD_ELEMENT, BAD_WIDE, BAD_NAME, REPEATED, MANY_VALUES, NEEDS_VALUE, REQUIRED, CFG_UNKNOWN, CFG_LINE, CFG_VALUE, CFG_SECTION, CFG_REPEATED, NO_FILE, ENV_VALUE, OWN_VALUE, OWN_ERROR, OWN_KIND, WILD_VALUE, ABBREVIATED, POS_VALUE, EXT_UNKNOWN, N_KIND };
static const char* kind_name[] = {"unknown", "unknown-with-value", "ambiguous", "ambiguous-same-name", "missing-argument", "missing-argument-in-the-middle", "empty-adjacent", "extra-argument", "too-many-positional", "bad-int", "bad-bool", "bad-element", "bad-wide-int", "bad-value-of-named-option", "repeated", "many-values", "needs-value", "required", "config-unknown", "config-line", "config-value", "config-section", "config-repeated", "no-file", "environment-value", "own-value", "own-error", "own-kind", "wildcard-value", "abbreviated", "positional-value", "additional-parser-unknown"};
static bool in_name(Kind k) { switch (k) { case BAD_INT: case BAD_BOOL: case BAD_ELEMENT: case BAD_WIDE: case CFG_LINE: case CFG_VALUE: case NO_FILE: case ENV_VALUE: case OWN_VALUE: case OWN_ERROR: case POS_VALUE: case TOO_MANY_POS: return false; default: return true; } }
static bool config(Kind k) { return k == CFG_UNKNOWN || k == CFG_LINE || k == CFG_VALUE || k == CFG_SECTION || k == CFG_REPEATED || k == NO_FILE; }

// the option as the message has to show it: with the prefix of the syntax in use
static string prefix(int style) { return style & st::allow_long ? "--" : style & st::allow_long_disguise ? "-" : style & st::allow_dash_for_short ? "-" : "/"; }
struct Case { Kind k; int style; bool adj; unsigned variant; };
// runs the case with text s; 'shown' is what the message must contain
static Msg run_case(const Case& q, const string& s, vector<string>& shown) {
    po::options_description d; vector<string> a; shown.clear();
    const string P = prefix(q.style); const bool lng = (q.style & st::allow_long) != 0;
    const string L = lng ? "--" : "-";                      // how a long name is written in this style
    auto val = [&](const string& n, const string& v) { if (q.adj) a.push_back(L + n + "=" + v); else { a.push_back(L + n); a.push_back(v); } };
    auto opt = [&](const string& n) { shown.push_back("'" + P + n + "'"); };
    string text; std::wstring wtext; bool wide_source = false; int from = 0;     // 0 command line, 1 config text, 2 environment
    po::positional_options_description pos; bool use_pos = false, ext = false;
    switch (q.k) {
    case UNKNOWN_OPT: d.add_options()("other", ""); a.push_back("--" + s); shown.push_back("'--" + s + "'"); break;
    case UNKNOWN_VAL: d.add_options()("other", ""); a.push_back("--" + s + "=val"); shown.push_back("--" + s); break;
    case AMBIG: d.add_options()((s + "-aa").c_str(), "")("between", "")((s + "-bb").c_str(), ""); a.push_back(L + s + "-"); shown.push_back("'" + L + s + "-'"); opt(s + "-aa"); opt(s + "-bb"); break;
    case AMBIG_SAME: d.add_options()(s.c_str(), "")("between", "")(s.c_str(), ""); a.push_back(L + s); opt(s); break;
    case MISSING_ARG: d.add_options()(s.c_str(), po::value<string>()); a.push_back(L + s); opt(s); break;
    case MISSING_MIDDLE: d.add_options()("flag,f", "")((s + ",z").c_str(), po::value<string>()); a.push_back(L + s); a.push_back("-f"); a.push_back("x"); opt(s); break;
    case EMPTY_ADJACENT: d.add_options()(s.c_str(), po::value<string>()); a.push_back(L + s + "="); opt(s); break;
    case EXTRA_ARG: d.add_options()(s.c_str(), ""); a.push_back(L + s + "=val"); opt(s); break;
    case TOO_MANY_POS: use_pos = true; pos.add("x", 1); d.add_options()("x", po::value<string>()); a.push_back(s); a.push_back(s); break;
    case BAD_INT: d.add_options()("num", po::value<int>()); val("num", s); opt("num"); shown.push_back("'" + s + "'"); break;
    case BAD_BOOL: d.add_options()("sure", po::value<bool>()); val("sure", s); opt("sure"); shown.push_back("'" + s + "'"); break;
    case BAD_ELEMENT: d.add_options()("list", po::value<vector<int> >()->multitoken()); a.push_back(L + "list=1"); a.push_back("2"); a.push_back(s); a.push_back("3"); opt("list"); shown.push_back("'" + s + "'"); break;
    case BAD_WIDE: d.add_options()("num", po::wvalue<int>()); val("num", s); opt("num"); shown.push_back("'" + s + "'"); wide_source = q.variant & 1; break;
    case BAD_NAME: d.add_options()(s.c_str(), po::value<int>()); val(s, "val"); opt(s); shown.push_back("'val'"); break;
    case REPEATED: d.add_options()(s.c_str(), po::value<string>()); val(s, "1"); val(s, "2"); opt(s); break;
    case MANY_VALUES: d.add_options()(s.c_str(), po::value<string>()->multitoken()); val(s, "1"); a.push_back("2"); opt(s); break;
    case NEEDS_VALUE: d.add_options()(s.c_str(), po::value<int>()->zero_tokens()); a.push_back(L + s); opt(s); break;
    case REQUIRED: d.add_options()("other", "")(s.c_str(), po::value<int>()->required()); opt(s); break;
    case CFG_UNKNOWN: from = 1; d.add_options()("other", ""); text = "other=1\n" + s + " = 1\n"; shown.push_back("'" + s + "'"); break;
    case CFG_LINE: from = 1; d.add_options()("other", ""); text = "  " + s + "  # comment\n"; shown.push_back("'" + s + "'"); break;
    case CFG_VALUE: from = 1; d.add_options()("sec.num", po::value<int>()); text = "[sec]\nnum = " + s + "\n"; shown.push_back("'sec.num'"); shown.push_back("'" + s + "'"); break;
    case CFG_SECTION: from = 1; d.add_options()(("a." + s).c_str(), po::value<int>()); text = "[a]\n" + s + "=val\n"; shown.push_back("'a." + s + "'"); shown.push_back("'val'"); break;
    case CFG_REPEATED: from = 1; d.add_options()(s.c_str(), po::value<int>()); text = s + "=1\n" + s + "=2\n"; shown.push_back("'" + s + "'"); break;
    case NO_FILE: from = 3; d.add_options()("num", po::value<int>()); shown.push_back("/" + s + "'"); break;
    case ENV_VALUE: from = 2; d.add_options()("num", po::value<int>()); shown.push_back("'num'"); shown.push_back("'" + s + "'"); break;
    case OWN_VALUE: d.add_options()("own", po::value<Own1>()); val("own", s); opt("own"); shown.push_back("'" + s + "'"); break;
    case OWN_ERROR: d.add_options()("own", po::value<Own2>()); val("own", s); opt("own"); shown.push_back("'" + s + "' (" + P + "|" + a[0] + "|own)"); break;
    case OWN_KIND: d.add_options()(s.c_str(), po::value<Own3>()); val(s, "x"); opt(s); break;
    case WILD_VALUE: d.add_options()("prefix.*", po::value<int>()); val("prefix." + s, "val"); opt("prefix." + s); shown.push_back("'val'"); break;
    case ABBREVIATED: d.add_options()((s + "-and-more").c_str(), po::value<int>()); val(s, "val"); opt(s + "-and-more"); shown.push_back("'val'"); break;
    case POS_VALUE: use_pos = true; pos.add("num", -1); d.add_options()("num", po::value<int>()); a.push_back(s); opt("num"); shown.push_back("'" + s + "'"); break;
    default: ext = true; d.add_options()("other", ""); a.push_back("@" + s); shown.push_back("'@" + s + "'"); break;
    }
    po::variables_map vm;
    // other sources that do not have it either, before and after: the most explicit spelling is the one to show
    auto lacking = [&](unsigned n) { if (q.k != REQUIRED) return; if (n == 0) { std::istringstream is("[other]\n"); po::store(po::parse_config_file(is, d), vm); } else if (n == 1) po::store(po::parsed_options(&d), vm); else po::store(po::parse_environment(d, [](const string&) { return string(); }), vm); };
    try {
        if (q.variant & 1) lacking(q.variant / 4);
        if (from == 1) { std::istringstream is(text); po::store(po::parse_config_file(is, d), vm); }
        else if (from == 3) po::parse_config_file(("no-such-directory/" + s).c_str(), d);
        else if (from == 2) { setenv("VPM_NUM", s.c_str(), 1); po::store(po::parse_environment(d, [](const string& n) { return n == "VPM_NUM" ? "num" : ""; }), vm); }
        else if (wide_source) { vector<std::wstring> w; for (auto& x : a) w.push_back(std::wstring(x.begin(), x.end())); po::store(po::wcommand_line_parser(w).options(d).style(q.style).run(), vm); }
        else {
            po::command_line_parser p(a); p.options(d).style(q.style); if (use_pos) p.positional(pos);
            if (ext) p.extra_parser([](const string& t) { return t[0] == '@' ? std::make_pair(t.substr(1), string()) : std::pair<string, string>(); });
            po::store(p.run(), vm);
        }
        if (q.variant & 2) lacking(q.variant / 4);
        po::notify(vm);
    } catch (const std::exception&) { return message(); }
    return Msg();
}
static bool style_fits(const Case& q) {
    if (q.k == UNKNOWN_OPT || q.k == UNKNOWN_VAL) return q.style & st::allow_long;
    if (q.k == ABBREVIATED || q.k == AMBIG) return q.style & st::allow_guessing;
    if (q.k == MISSING_MIDDLE) return (q.style & st::allow_short) && (q.style & st::allow_dash_for_short) && !(q.style & st::allow_long_disguise);
    if (q.k == NEEDS_VALUE) return !q.adj;
    return true;
}
static const vector<string>& placeholders() { static const vector<string> v = {"%canonical_option%", "%value%", "%prefix%", "%option%", "%original_token%", "%invalid_line%", "option '%canonical_option%'", "argument ('%value%')", "%", "%%", "100%", "%d%s%n", "%nothing%", "%value", "value%", "%option%value%", "%val%value%ue%", "at '%extra%'", "%extra%"}; return v; }
static string hostile(Rng& r, const Case& q) {
    string s; unsigned n = 1 + r.below(3);
    for (unsigned i = 0; i < n; ++i) {
        switch (r.below(6)) {
        case 0: case 1: case 2: s += r.pick(placeholders()); break;
        case 3: s += gen_value(r); break;
        case 4: s += r.pick(vector<string>{"'", "\"", "\\", "{}", "$1", "\xd1\x8f", "\xff", "\x01", "  x  y", "[", "]", "~", "&", "<", "|"}); break;
        default: for (unsigned j = 0, m = r.below(30); j < m; ++j) s += (char)(1 + r.below(255)); }
    }
    if (r.chance(3)) { string t; unsigned m = 50 + r.below(300); for (unsigned j = 0; j < m; ++j) t += r.pick(placeholders()); s = t; }
    // what the syntax itself does not allow in this place
    string o;
    for (char ch : s) {
        if (ch == 0) continue;
        if (in_name(q.k) && (ch == ',' || ch == '=' )) continue;
        if (config(q.k) && q.k != NO_FILE && (ch == '#' || ch == '\n' || ch == '\r' || ch == '=')) continue;
        if (q.k == NO_FILE && ch == '/') continue;
        if (q.k == BAD_WIDE && (ch & 0x80)) continue;
        if (q.k == NO_FILE && o.size() > 100) continue;
        o += ch;
    }
    auto trim = [&] { while (!o.empty() && strchr(" \t\r\n", o[0])) o.erase(0, 1); while (!o.empty() && strchr(" \t\r\n", o.back())) o.pop_back(); };
    if (config(q.k)) trim();
    if (q.k == CFG_LINE || q.k == CFG_UNKNOWN || q.k == CFG_SECTION || q.k == CFG_REPEATED) while (!o.empty() && o[0] == '[') o.erase(0, 1);
    // prefix characters before a name are not part of it, a star behind it makes it a wildcard
    if (in_name(q.k) || q.k == TOO_MANY_POS || q.k == POS_VALUE || q.k == BAD_ELEMENT || q.k == EXT_UNKNOWN || !q.adj) while (!o.empty() && (o[0] == '-' || o[0] == '/')) o.erase(0, 1);
    if (in_name(q.k)) { while (!o.empty() && o.back() == '*') o.pop_back(); if (o.find('*') != string::npos) o = "%x%"; }
    if (config(q.k)) trim();
    // a value which is one, is no error
    if (q.k == BAD_BOOL || q.k == BAD_INT || q.k == BAD_WIDE || q.k == BAD_ELEMENT || q.k == POS_VALUE || q.k == CFG_VALUE || q.k == ENV_VALUE) { string l = lower(o); char* e; (void)strtod(l.c_str(), &e); if (*e == 0 || l == "true" || l == "false" || l == "yes" || l == "no" || l == "on" || l == "off" || !l.compare(0, 2, "0x")) o = "%value%"; }
    if (o.size() < 2) o += "%v%";
    return o;
}
static int pick_style(Rng& r) {
    static const vector<int> v = {st::unix_style, st::unix_style, st::unix_style | st::allow_slash_for_short, st::unix_style | st::case_insensitive, st::unix_style | st::allow_long_disguise, st::allow_long_disguise | st::long_allow_adjacent | st::long_allow_next | st::allow_guessing, st::allow_long_disguise | st::allow_slash_for_short | st::long_allow_adjacent | st::long_allow_next,
        st::allow_long | st::long_allow_adjacent | st::long_allow_next | st::allow_guessing};
    return r.pick(v);
}
static void judge(Ctx& c, const Case& q, const string& s) {
    static const string marker = "QqZqQ";
    vector<string> shown0, shown;
    c.cur = string(kind_name[q.k]) + " style 0x" + [&] { char b[16]; snprintf(b, 16, "%x", q.style); return string(b); }() + (q.adj ? " adjacent" : "") + " text " + mon::show(s);
    Msg plain = run_case(q, marker, shown0), got = run_case(q, s, shown);
    c.eval(); c.count(kind_name[q.k]);
    if (plain.type.empty()) { c.fail("no-error", "the plain case is not an error"); return; }
    if (got.type.empty()) { c.fail("accepted", "the error depends on the text"); return; }
    if (got.type != plain.type) { c.fail("error-class-depends-on-text", got.type + ": " + got.text + " instead of " + plain.type + ": " + plain.text); return; }
    if (!got.problem.empty() || !plain.problem.empty()) { c.fail("not-stable", "message " + got.text + " but " + got.problem + plain.problem); return; }
    for (auto& x : shown0) if (plain.text.find(x) == string::npos) { c.fail("message-incomplete", mon::show(plain.text) + " does not contain " + mon::show(x)); return; }
    for (auto& x : shown) if (got.text.find(x) == string::npos) { c.fail("text-not-verbatim", mon::show(got.text) + " does not contain " + mon::show(x)); return; }
    if (plain.text.find('%') != string::npos) { c.fail("placeholder-left", plain.text); return; }
    string want = replace_all(plain.text, marker, s);
    if (got.text != want) { c.fail("message-depends-on-text", mon::show(got.text) + " expected " + mon::show(want)); return; }
    if (s.find('%') != string::npos) c.nontrivial(c.cur);
    if (c.want_sample() && s.size() < 60) c.sample(c.cur + " -> " + got.text);
}
static void long_case(Ctx& c) {
    Rng& r = c.r; Case q;
    do { q.k = (Kind)r.below(N_KIND); q.style = pick_style(r); q.adj = r.chance(50); q.variant = r.below(12); } while (!style_fits(q));
    judge(c, q, hostile(r, q));
}
// options given by their letter, in styles with and without long options
static void short_case(Ctx& c) {
    Rng& r = c.r;
    static const vector<int> styles = {st::unix_style, st::allow_short | st::allow_dash_for_short | st::short_allow_adjacent | st::short_allow_next | st::allow_sticky, st::allow_short | st::allow_slash_for_short | st::short_allow_adjacent | st::short_allow_next, st::unix_style | st::allow_slash_for_short, st::allow_long_disguise | st::long_allow_next | st::allow_short | st::allow_dash_for_short | st::short_allow_next};
    int style = r.pick(styles); bool slash = (style & st::allow_slash_for_short) && (!(style & st::allow_dash_for_short) || r.chance(50));
    char ch = "vxQ?@1\xc4"[r.below(7)]; bool has_long = r.chance(50), adj = r.chance(50);
    const string name = has_long ? string("verbose,") + ch : string(",") + ch, tok = string(slash ? "/" : "-") + ch;
    // the name to be shown: the long one where the syntax has long names
    const bool longs = style & (st::allow_long | st::allow_long_disguise);
    const string disp = "'" + (has_long && longs ? prefix(style) + "verbose" : longs ? string("-") + ch : prefix(style) + ch) + "'";
    string v = hostile(r, Case{BAD_INT, style, adj, 0}); unsigned what = r.below(4);
    po::options_description d; vector<string> a, shown;
    if (what == 0) { d.add_options()(name.c_str(), po::value<int>()); if (adj) a.push_back(tok + v); else { a.push_back(tok); a.push_back(v); } shown.push_back(disp); shown.push_back("'" + v + "'"); }
    else if (what == 1) { d.add_options()(name.c_str(), po::value<int>()); a.push_back(tok); shown.push_back(disp); }
    else if (what == 2) { d.add_options()(name.c_str(), po::value<string>()); for (int i = 0; i < 2; ++i) if (adj) a.push_back(tok + v); else { a.push_back(tok); a.push_back(v); } shown.push_back(disp); }
    else { d.add_options()("other", ""); a.push_back(tok + (adj ? v : "")); shown.push_back("'" + a[0] + "'"); if (!(style & (st::allow_long | st::allow_long_disguise))) shown[0] = "'" + tok; if (slash && longs) shown[0] = tok; }
    c.cur = "short " + mon::show(name) + " style " + std::to_string(style) + " args " + mon::show(a);
    Msg m;
    try { po::variables_map vm; po::store(po::command_line_parser(a).options(d).style(style).run(), vm); }
    catch (const std::exception&) { m = message(); }
    c.eval(); c.count("short-options");
    if (m.type.empty()) { c.fail("no-error", "accepted"); return; }
    if (!m.problem.empty()) { c.fail("not-stable", m.text + " but " + m.problem); return; }
    for (auto& x : shown) if (m.text.find(x) == string::npos) { c.fail("short-message", mon::show(m.text) + " does not contain " + mon::show(x)); return; }
    string rest = m.text; for (auto& x : shown) rest = replace_all(rest, x, ""); rest = replace_all(replace_all(rest, v, ""), tok, "");
    if (rest.find('%') != string::npos) { c.fail("placeholder-left", m.text); return; }
    c.nontrivial(c.cur);
}
static void random_case(Ctx& c) { if (c.r.chance(80)) long_case(c); else short_case(c); }
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"every kind with every placeholder", [](Ctx& c) {
        for (int k = 0; k < N_KIND; ++k) for (int style : {(int)st::unix_style, (int)(st::allow_long_disguise | st::long_allow_adjacent | st::long_allow_next | st::allow_guessing)}) for (int adj = 0; adj < 2; ++adj) for (auto& p : placeholders()) {
            Case q{(Kind)k, style, adj != 0, 1}; if (!style_fits(q)) continue;
            if (p.size() < 2) continue;
            judge(c, q, p); judge(c, q, "x" + p + "y"); c.count("enumerated");
        }
    }});
    f.push_back({"user-made errors", [](Ctx& c) {
        // substitutions may name any placeholder, in any order, and mention each other
        for (auto& p : placeholders()) for (auto& p2 : placeholders()) for (int style : {0, (int)st::allow_long, (int)st::allow_long_disguise, (int)st::allow_dash_for_short, (int)st::allow_slash_for_short}) {
            struct E : po::error_with_option_name { E(const string& n, const string& t, int s) : po::error_with_option_name("<%a%|%canonical_option%|%b%|%missing%|%a%>", n, t, s) {} };
            E e("name", "-token", style); e.set_substitute("a", p); e.set_substitute("b", p2);
            const char* pre[] = {"name", "--name", "-name", "-t", "/t"}; int i = style == 0 ? 0 : style == st::allow_long ? 1 : style == st::allow_long_disguise ? 2 : style == st::allow_dash_for_short ? 3 : 4;
            string want = "<" + p + "|" + pre[i] + "|" + p2 + "|%missing%|" + p + ">";
            c.cur = "substitutions " + mon::show(p) + " " + mon::show(p2) + " style " + std::to_string(style); c.eval(); c.count("user-made"); c.nontrivial(c.cur);
            if (e.what() != want) c.fail("user-made-message", string(e.what()) + " expected " + want);
            Msg m; copies(e, m); if (!m.problem.empty()) c.fail("user-made-not-stable", m.problem);
        }
    }});
    f.push_back({"context added step by step", [](Ctx& c) {
        // the message tells the present state of the error, whatever was set or read before
        struct E : po::error_with_option_name { E() : po::error_with_option_name("<%canonical_option%|%option%|%original_token%|%prefix%|%value%>") { set_substitute("value", "v0"); } };
        const vector<string> names = {"name", "other", "-n", "", "%value%", "-name"}, toks = {"--name=1", "-nX", "/qX", "", "%option%", "n"};
        const int styles[] = {0, st::allow_long, st::allow_long_disguise, st::allow_dash_for_short, st::allow_slash_for_short};
        auto strip = [](const string& x) { size_t i = x.find_first_not_of("-/"); return i == string::npos ? string() : x.substr(i); };
        for (unsigned run = 0; run < 3000; ++run) {
            Rng r(run * 7919u + 5);
            E e; string n, t, v = "v0"; int sty = 0; string hist;
            vector<E> kept; vector<string> said;
            for (unsigned k = 0, m = 1 + r.below(8); k < m; ++k) {
                switch (r.below(6)) {
                case 0: n = r.pick(names); t = r.pick(toks); sty = styles[r.below(5)]; e.add_context(n, t, sty); hist += " context(" + n + "," + t + "," + std::to_string(sty) + ")"; break;
                case 1: n = r.pick(names); e.set_option_name(n); hist += " name(" + n + ")"; break;
                case 2: t = r.pick(toks); e.set_original_token(t); hist += " token(" + t + ")"; break;
                case 3: sty = styles[r.below(5)]; e.set_prefix(sty); hist += " prefix(" + std::to_string(sty) + ")"; break;
                case 4: v = r.chance(50) ? "v" + std::to_string(k) : string(r.below(700), 'v'); e.set_substitute("value", v); hist += " value"; break;
                default: kept.push_back(e); said.push_back(e.what()); hist += " copied"; }
                if (r.chance(50)) continue;
                const string pre = sty == 0 ? "" : sty == st::allow_long ? "--" : sty == st::allow_slash_for_short ? "/" : "-";
                string canon = n.empty() ? t : sty == st::allow_long || sty == st::allow_long_disguise ? (n.size() == 2 && n[0] == '-' ? n : pre + strip(n)) : sty && !strip(t).empty() ? pre + strip(t)[0] : strip(n);
                string want = "<" + canon + "|" + n + "|" + t + "|" + pre + "|" + v + ">";
                c.cur = "error assembled by" + hist; c.eval(); c.count("assembled"); c.nontrivial(c.cur);
                if (e.what() != want) { c.fail("assembled-message", string(e.what()) + " expected " + want); break; }
                if (e.get_option_name() != canon) c.fail("assembled-name", e.get_option_name() + " expected " + canon);
            }
            for (size_t k = 0; k < kept.size(); ++k) if (kept[k].what() != said[k]) c.fail("assembled-copy", "a copy changed with the original: " + string(kept[k].what()));
        }
        // errors of the library, given a context after having been read
        po::validation_error ve(po::validation_error::invalid_option_value); ve.set_substitute("value", "v"); string a = ve.what();
        ve.add_context("foo", "--foo", st::allow_long); string b = ve.what(); ve.add_context("bar", "-bar", st::allow_long_disguise); string d = ve.what();
        c.cur = "validation_error read before and between contexts";
        if (a.find("%") != string::npos || b.find("'--foo'") == string::npos || d.find("'-bar'") == string::npos) c.fail("assembled-message", a + " / " + b + " / " + d);
    }});
    f.push_back({"ambiguous short options", [](Ctx& c) {
        // the ambiguous argument is the one named, also when it is met while another option looks for its value
        const int dash = st::allow_short | st::allow_dash_for_short | st::short_allow_adjacent | st::short_allow_next | st::allow_sticky, slash = dash | st::allow_slash_for_short;
        const int onlyslash = st::allow_short | st::allow_slash_for_short | st::short_allow_adjacent | st::short_allow_next;
        for (int style : {(int)st::unix_style, (int)st::default_style | st::allow_long_disguise, dash, slash, onlyslash, (int)(st::unix_style | st::case_insensitive)})
            for (int names = 0; names < 3; ++names) for (const vector<string>& lead : vector<vector<string> >{{}, {"--need"}, {"--need=1"}, {"-n"}, {"-n1"}, {"--list"}, {"--list", "x"}, {"-l"}, {"-fn"}, {"word"}, {"/n"}, {"/n", "1"}}) for (const char* tok : {"-d", "/d", "-dx", "-fd"}) {
                bool lng = (style & st::allow_long) != 0;
                if (!lng && !lead.empty() && lead[0].compare(0, 2, "--") == 0) continue;
                if (tok[0] == '/' && !(style & st::allow_slash_for_short)) continue;
                if (tok[0] == '-' && !(style & st::allow_dash_for_short)) continue;
                if (!lead.empty() && lead[0][0] == '/' && !(style & st::allow_slash_for_short)) continue;
                if (!lead.empty() && lead[0][0] == '-' && lead[0][1] != '-' && !(style & st::allow_dash_for_short)) continue;
                po::options_description d;
                d.add_options()("need,n", po::value<string>(), "")("list,l", po::value<vector<string> >()->multitoken(), "")("flag,f", "");
                d.add_options()(names == 0 ? "delta,d" : names == 1 ? ",d" : "delta,d", po::value<string>(), "")(names == 2 ? ",d" : "dodo,d", po::value<string>(), "");
                if (names && (style & st::allow_long_disguise)) continue;      // -d abbreviates the one long name there
                vector<string> a = lead; a.push_back(tok);
                // an argument that is taken as a value is not looked up
                bool wants = !lead.empty() && (lead.back() == "--need" || lead.back() == "-n" || lead.back() == "-fn" || lead.back() == "/n" || lead.back() == "--list" || lead.back() == "-l");
                if (wants && string(tok) != "-d") continue;
                c.cur = "twice -d, declared form " + std::to_string(names) + " style " + std::to_string(style) + " args " + mon::show(a); c.eval(); c.count("ambiguous-shorts"); c.nontrivial(c.cur);
                Msg m; string type;
                try { po::variables_map vm; po::store(po::command_line_parser(a).options(d).style(style).run(), vm); }
                catch (const po::ambiguous_option&) { m = message(); type = "ambiguous"; } catch (const std::exception& e) { m = message(); }
                if (type.empty()) { c.fail("ambiguity-not-reported", m.type + " " + m.text); continue; }
                if (!m.problem.empty()) { c.fail("not-stable", m.text + " but " + m.problem); continue; }
                string want = string("'") + (string(tok) == "-fd" ? "-d" : tok[0] == '/' ? (lng ? "-d" : "/d") : "-d") + "'";
                if (string(tok) == "-fd" && !lng) want = "'-";           // known finding F22b: the first letter of the group
                string alt = string("'/d'");
                if (m.text.find(want) == string::npos && !(tok[0] == '/' && m.text.find(alt) != string::npos)) c.fail("ambiguity-names-another", m.text + " does not name " + want);
                if (m.text.find("need") != string::npos || m.text.find("list") != string::npos || m.text.find("-n") != string::npos || m.text.find("-l") != string::npos || m.text.find("%") != string::npos) c.fail("ambiguity-names-another", m.text);
            }
    }});
    f.push_back({"candidates of made errors", [](Ctx& c) {
        // every candidate is named, however many there are, however often each is given
        const vector<string> pool = {"alpha", "beta", "-c", "gamma", "--delta", "%option%", "a b", "x'y"};
        for (unsigned code = 0; code < 4096; ++code) {
            vector<string> alt; for (unsigned q = code, k = 0; k < 4; ++k, q /= 8) { if (k && q % 8 == 0 && code % 3) break; alt.push_back(pool[q % 8]); }
            for (int style : {0, (int)st::allow_long, (int)st::allow_long_disguise, (int)st::allow_dash_for_short, (int)st::allow_slash_for_short}) {
                po::ambiguous_option e(alt); e.add_context("na", "--na", style);
                string w = e.what(); c.cur = "candidates " + mon::show(alt) + " style " + std::to_string(style); c.eval(); c.count("made-candidates");
                string who = "'" + e.get_option_name() + "'";
                if (w.find(who) == string::npos || w.compare(0, 7, "option ")) { c.fail("made-candidates", w + " does not name " + who); break; }
                if (w.find("%canonical_option%") != string::npos) c.fail("made-candidates", w);
                if (style != st::allow_dash_for_short && style != st::allow_slash_for_short) for (auto& x : alt) if (w.find(x + "'") == string::npos) { c.fail("made-candidates", w + " does not list " + x); break; }
                if (e.what() != w) c.fail("made-candidates", "changes");
            }
        }
        c.nontrivial("candidates");
    }});
    f.push_back({"errors without any context", [](Ctx& c) {
        // a message says nothing about an option it does not know
        auto look = [&](const char* what, const po::error_with_option_name& e) {
            c.cur = string("no context, ") + what; c.eval(); c.count("no-context"); c.nontrivial(c.cur);
            string w = e.what();
            if (w.empty() || w.find('%') != string::npos || w.find("''") != string::npos || w.find("  ") != string::npos) c.fail("no-context-message", w);
            if (w != string(e.what())) c.fail("no-context-message", "changes");
        };
        look("multiple_values", po::multiple_values()); look("multiple_occurrences", po::multiple_occurrences()); look("required_option", po::required_option("x"));
        look("unknown_option", po::unknown_option()); look("ambiguous_option", po::ambiguous_option(vector<string>(2, "x")));
        for (auto k : {po::validation_error::multiple_values_not_allowed, po::validation_error::at_least_one_value_required, po::validation_error::invalid_bool_value, po::validation_error::invalid_option_value, po::validation_error::invalid_option}) look("validation_error", po::validation_error(k));
        for (auto k : {po::invalid_syntax::long_not_allowed, po::invalid_syntax::long_adjacent_not_allowed, po::invalid_syntax::short_adjacent_not_allowed, po::invalid_syntax::empty_adjacent_parameter, po::invalid_syntax::missing_parameter, po::invalid_syntax::extra_parameter}) look("invalid_syntax", po::invalid_command_line_syntax(k));
    }});
    f.push_back({"prefixes that are none", [](Ctx& c) {
        // a message that can not be composed is no reason to end the program
        for (int p = 0; p < 300; ++p) {
            struct E : po::error_with_option_name { E() : po::error_with_option_name("<%prefix%%canonical_option%>", "name", "--name") {} };
            c.cur = "prefix " + std::to_string(p); c.eval(); c.count("odd-prefixes"); c.nontrivial(c.cur);
            E e; e.set_prefix(p); string w = e.what(); E copy(e); string w2 = copy.what();
            po::ambiguous_option a(vector<string>(2, "x")); a.set_prefix(p * 7); string w3 = a.what();
            po::validation_error v(po::validation_error::invalid_option_value, "n", "t", p); string w4 = v.what(), w5 = v.what();
            if (w != w2 || w4 != w5) c.fail("odd-prefix-not-stable", w + " / " + w2);
            if (w.empty() || w3.empty() || w4.empty()) c.fail("odd-prefix-no-message", "empty message");
        }
    }});
    f.push_back({"overlapping patterns", [](Ctx& c) {
        // configuration files refuse patterns that match the same names; the message names two such
        vector<string> stems = {"", "a", "b", "ab", "b!", "bc", "a!b", "abc", "z", "b!c", "!"};
        for (unsigned m = 1; m < (1u << stems.size()); ++m) {
            vector<string> in; for (size_t i = 0; i < stems.size(); ++i) if (m >> i & 1) in.push_back(stems[i]);
            if (in.size() < 2 || in.size() > 4) continue;
            po::options_description d; for (auto& s : in) d.add_options()((s + "*").c_str(), po::value<string>(), "");
            bool overlap = false; for (auto& a : in) for (auto& b : in) if (&a != &b && b.compare(0, a.size(), a) == 0) overlap = true;
            c.cur = "configuration patterns " + mon::show(in) + " each with *"; c.eval(); c.count("overlapping-patterns"); c.nontrivial(c.cur);
            std::istringstream is(""); string msg; bool thrown = false;
            try { po::parse_config_file(is, d); } catch (const po::error& e) { thrown = true; msg = e.what(); }
            if (thrown != overlap) { c.fail("overlap-" + string(thrown ? "reported" : "accepted"), mon::show(msg)); continue; }
            if (!thrown) continue;
            bool named = false;
            for (auto& a : in) for (auto& b : in) if (&a != &b && b.compare(0, a.size(), a) == 0 && msg.find("'" + a + "*'") != string::npos && msg.find("'" + b + "*'") != string::npos) named = true;
            if (!named) c.fail("overlap-names", "the patterns named do not overlap: " + msg);
        }
    }});
    f.push_back({"F22b letters of groups", [](Ctx& c) {
        // in styles without long options the option is named by the first letter of its token
        const int dash = st::allow_short | st::allow_dash_for_short | st::short_allow_adjacent | st::short_allow_next | st::allow_sticky;
        po::options_description d; d.add_options()("alpha,a", "")("beta,b", po::value<int>())("input", po::value<int>());
        po::positional_options_description pos; pos.add("input", -1);
        auto run = [&](vector<string> a) { try { po::variables_map vm; po::store(po::command_line_parser(a).options(d).positional(pos).style(dash).run(), vm); return string("accepted"); } catch (const std::exception& e) { return string(e.what()); } };
        c.eval(); c.cur = "args [-abX] style dash";
        if (run({"-abX"}).find("'-b'") == string::npos) c.fail("short-only-style-letter", run({"-abX"}));
        c.cur = "args [-ab] style dash";
        if (run({"-ab"}).find("'-b'") == string::npos) c.fail("short-only-style-letter", run({"-ab"}));
        c.cur = "args [file] positional input style dash";
        if (run({"file"}).find("input'") == string::npos) c.fail("short-only-style-letter", run({"file"}));
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
