// C21: help output. A structural reader of the printed text recovers every option and description.
#include "cli.hpp"
#include <sstream>
#include <memory>
using namespace cli; using mon::Ctx;

struct Item { string first, desc; unsigned len; };                   // expected first column; description; line length in force
struct Line { bool caption = false, blank = false; string text; Item it; };
static string pad(size_t n) { return string(n, ' '); }

static int big = 0;      // 1: wide lines, names and texts; 2: very many options; 3: groups in groups in groups
static string gen_word(Rng& r) {
    static const vector<string> w = {"the", "a", "file", "to", "read.", "(default)", "option", "is", "x", "value,", "configuration", "--flag", "50%", "%value%", "na\xc3\xafve", "\xe6\x97\xa5\xe6\x9c\xac\xe8\xaa\x9e", "/usr/share/dictionary", "internationalization"};
    if (r.chance(70)) return r.pick(w);
    string s; unsigned n = 1 + r.below(big == 1 && r.chance(10) ? 700 : r.chance(20) ? 90 : 14); for (unsigned i = 0; i < n; ++i) s += (char)('a' + (i + n) % 26); return s;
}
static string gen_par(Rng& r) {
    string p; if (r.chance(12)) p += pad(1 + r.below(6));
    unsigned n = r.below(100) < 10 ? 0 : 1 + r.below(big == 1 && r.chance(10) ? 400 : r.chance(25) ? 40 : 12);
    for (unsigned i = 0; i < n; ++i) { if (i) p += pad(r.chance(90) ? 1 : 1 + r.below(5)); p += gen_word(r); }
    if (r.chance(8)) p += pad(1 + r.below(3));
    if (r.chance(18)) p.insert(r.below((unsigned)p.size() + 1), "\t");
    return p;
}
static string gen_desc(Rng& r) {
    if (r.chance(10)) return "";
    string d = gen_par(r); while (r.chance(25)) d += "\n" + gen_par(r);
    return d;
}
static vector<string> split_lines(const string& s) { vector<string> v; size_t p = 0; for (;;) { size_t q = s.find('\n', p); if (q == string::npos) { v.push_back(s.substr(p)); return v; } v.push_back(s.substr(p, q - p)); p = q + 1; } }

struct Reader {
    Ctx& c; const vector<string>& l; size_t i = 0; unsigned col; bool ok = true;
    void bad(const char* key, const string& m) { if (ok) c.fail(key, m + " at line " + std::to_string(i) + (i < l.size() ? ": " + mon::show(l[i]) : string(" (end)")) + "\n" + join()); ok = false; }
    string join() const { string r; for (auto& x : l) r += x + "\n"; return r; }
    // one description, its first line (from the column on) being 'cur'
    void description(const string& desc, string cur, unsigned len) {
        const unsigned avail0 = len - 1 - col;
        vector<string> pars = split_lines(desc);
        for (size_t p = 0; p < pars.size() && ok; ++p) {
            string par = pars[p]; size_t tab = par.find('\t'), hang = 0;
            if (tab != string::npos) { par.erase(tab, 1); if (tab < avail0) hang = tab; c.count(hang ? "hanging-indents" : "tabs-ignored"); }
            if (p) { if (++i >= l.size()) { bad("description-cut", "paragraph " + std::to_string(p) + " missing"); return; } if (l[i].size() < col || l[i].compare(0, col, pad(col)) != 0) { bad("paragraph-column", "paragraph does not start in column " + std::to_string(col)); return; } cur = l[i].substr(col); c.count("paragraphs"); }
            size_t pos = 0; bool first = true;
            for (;;) {
                // where may we be after this line?
                if (l[i].size() > len - 1 && !cur.empty()) bad("line-too-long", std::to_string(l[i].size()) + " > " + std::to_string(len - 1));
                const unsigned avail = avail0 - (first ? 0u : (unsigned)hang);
                size_t at = pos; bool dropped = false;
                if (par.compare(at, cur.size(), cur) != 0 || (at + cur.size() > par.size())) { if (!first && at < par.size() && par[at] == ' ') { ++at; dropped = true; } }
                if (at + cur.size() > par.size() || par.compare(at, cur.size(), cur) != 0) { bad("text-altered", "expected text " + mon::show(par.substr(pos))); return; }
                // when both readings fit, the line's own text decides
                if (!first && !dropped && !cur.empty() && cur[0] == ' ' && cur.size() > 1 && cur[1] != ' ') bad("leading-space", "continuation starts with a single space");
                pos = at + cur.size();
                if (cur.empty() && pos < par.size()) { bad("empty-line", "an empty line inside a paragraph"); return; }
                if (pos == par.size()) break;
                // a break inside a word is only allowed when the word could not be kept together
                if (par[pos] != ' ' && par[pos - 1] != ' ') {
                    size_t b = par.rfind(' ', pos), e = par.find(' ', pos); b = b == string::npos ? 0 : b + 1; if (e == string::npos) e = par.size();
                    if (e - b <= avail / 2) { bad("word-chopped", "word " + mon::show(par.substr(b, e - b)) + " of " + std::to_string(e - b) + " characters in " + std::to_string(avail)); return; }
                    c.count("words-chopped");
                }
                first = false; c.count("continuation-lines");
                if (++i >= l.size()) { bad("description-cut", "missing " + mon::show(par.substr(pos))); return; }
                if (l[i].size() < col + hang || l[i].compare(0, col + hang, pad(col + hang)) != 0) { bad("continuation-column", "continuation does not start in column " + std::to_string(col + hang)); return; }
                cur = l[i].substr(col + hang);
            }
        }
    }
    void read(const vector<Line>& want) {
        for (auto& w : want) {
            if (!ok) return;
            if (i >= l.size()) { bad("output-cut", w.text + w.it.first); return; }
            if (w.blank) { if (!l[i].empty()) bad("group-separator", "blank line expected"); }
            else if (w.caption) { if (l[i] != w.text) bad("caption", "caption " + mon::show(w.text) + " expected"); }
            else {
                const Item& t = w.it;
                if (t.desc.empty()) { if (l[i] != t.first) bad("option-line", "expected " + mon::show(t.first)); }
                else if (t.first.size() >= col) {
                    c.count("first-column-too-long");
                    if (l[i] != t.first) { bad("long-option-line", "expected " + mon::show(t.first)); return; }
                    if (++i >= l.size() || l[i].compare(0, col, pad(col)) != 0 || l[i].size() < col) { bad("description-column", "description does not start in column " + std::to_string(col)); return; }
                    description(t.desc, l[i].substr(col), t.len);
                } else {
                    string f = t.first + pad(col - t.first.size());
                    if (l[i].compare(0, col, f) != 0 || l[i].size() < col) { bad("option-line", "expected " + mon::show(f)); return; }
                    description(t.desc, l[i].substr(col), t.len);
                }
                c.count("options-read");
            }
            ++i;
        }
        if (ok && !(i == l.size() - 1 && l[i].empty())) bad("extra-output", "output goes on");
    }
};

struct Tree { string caption; unsigned len, min; vector<Item> items; vector<Tree> groups; std::shared_ptr<po::options_description> d; };
static po::value_semantic* gen_semantic(Rng& r, string& text) {
    string vn = r.chance(40) ? r.pick(vector<string>{"FILE", "n", "a b", "N=...", "path/to", "x"}) : "arg"; if (big == 1 && r.chance(20)) vn = string(100 + r.below(300), 'N');
    bool named = vn != "arg";
    switch (r.below(8)) {
    case 0: text = ""; return new po::untyped_value(true);
    case 1: text = ""; return po::bool_switch();
    case 2: text = "arg"; return new po::untyped_value();
    case 3: { auto v = po::value<int>(); text = vn; if (named) v->value_name(vn); int d = r.range(-50, 1000); if (r.chance(60)) { v->default_value(d); text += " (=" + std::to_string(d) + ")"; } return v; }
    case 4: { auto v = po::value<string>(); if (named) v->value_name(vn); string d = "def text", i = "impl"; v->implicit_value(i); text = "[=" + vn + "(=" + i + ")]"; if (r.chance(50)) { v->default_value(d); text += " (=" + d + ")"; } return v; }
    case 5: { auto v = po::value<vector<int> >()->multitoken(); if (named) v->value_name(vn); text = vn; if (r.chance(50)) { v->default_value(vector<int>(2, 3), "3,3"); text += " (=3,3)"; } return v; }
    case 6: { auto v = po::value<double>(); if (named) v->value_name(vn); text = vn; if (r.chance(30)) { v->default_value(0.5, ""); } return v; }
    default: { auto v = po::value<vector<string> >()->composing(); if (named) v->value_name(vn); text = vn; v->implicit_value(vector<string>(), r.chance(50) ? "none" : ""); if (v->name() == "") text = ""; else if (v->name().find("none") != string::npos) text = "[=" + vn + "(=none)]"; return v; }
    }
}
static Tree gen_tree(Rng& r, unsigned len, unsigned minlen, unsigned depth, int& id) {
    Tree t; t.len = len; t.min = minlen; if (r.chance(70)) t.caption = r.pick(vector<string>{"Allowed options", "Generic", "A caption: with colon", "c", "very long caption that is longer than the line length of some of the generated option sets is"});
    t.d.reset(t.caption.empty() ? new po::options_description(len, minlen) : new po::options_description(t.caption, len, minlen));
    unsigned n = r.below(5) + (depth == 0 && r.chance(70) ? 1 : 0); unsigned ng = depth < 3 ? r.below(3) : 0;
    if (big == 2 && depth == 0) { n = 40 + r.below(300); if (r.chance(30)) ng = r.below(70); } if (big == 2 && depth) { n = 1; ng = 0; } if (big == 3) { n = r.below(3); ng = depth < 40 ? 1 : 0; }
    auto add_item = [&] {
        ++id; string nm = "opt" + std::to_string(id); if (r.chance(35)) nm += string(big == 1 && r.chance(60) ? 150 + r.below(300) : r.below(r.chance(15) ? 70 : 18), 'n');
        string decl = nm, fmt = "--" + nm; char sh = (char)('!' + id % 90);
        bool ok_sh = sh != ',' && sh != '*' && sh != '-';
        if (ok_sh && r.chance(15)) { decl = string(",") + sh; fmt = string("-") + sh; }
        else { if (r.chance(20)) decl += ",alias" + std::to_string(id); if (ok_sh && r.chance(40)) { decl += string(",") + sh; fmt = string("-") + sh + " [ --" + nm + " ]"; } }
        string text; po::value_semantic* s = gen_semantic(r, text);
        Item it; it.desc = gen_desc(r); it.first = "  " + fmt + " " + text; it.len = len;
        t.d->add_options()(decl.c_str(), s, it.desc.c_str());
        t.items.push_back(it);
    };
    // options and groups added in any order: groups are printed after the options
    while (n || ng) {
        if (ng && (!n || r.chance(30))) { --ng; Tree g = gen_tree(r, len + (r.chance(10) ? r.below(30) : 0), minlen, depth + 1, id); t.d->add(*g.d); t.groups.push_back(g); }
        else { --n; add_item(); }
    }
    return t;
}
static void expect(const Tree& t, vector<Line>& out) {
    if (!t.caption.empty()) { Line l; l.caption = true; l.text = t.caption + ":"; out.push_back(l); }
    for (auto& i : t.items) { Line l; l.it = i; out.push_back(l); }
    for (auto& g : t.groups) { Line l; l.blank = true; out.push_back(l); expect(g, out); }
}
static bool many_tabs(const Tree& t) {
    for (auto& i : t.items) for (auto& p : split_lines(i.desc)) if (std::count(p.begin(), p.end(), '\t') > 1) return true;
    for (auto& g : t.groups) if (many_tabs(g)) return true;
    return false;
}
static void show_tree(const Tree& t, string& s) { s += "{" + t.caption + " " + std::to_string(t.len) + "/" + std::to_string(t.min); for (auto& i : t.items) s += " " + mon::show(i.first) + mon::show(i.desc); for (auto& g : t.groups) { s += " "; show_tree(g, s); } s += "}"; }
static void random_case(Ctx& c) {
    Rng& r = c.r;
    unsigned len = r.chance(30) ? 80 : r.chance(5) ? 3 + r.below(8) : 8 + r.below(r.chance(20) ? 200 : 90), minlen = r.chance(30) ? len / 2 : r.below(len - 1);
    big = r.chance(95) ? 0 : 1 + (int)r.below(r.chance(60) ? 1 : 3); if (big == 1) { len = 200 + r.below(1100); minlen = r.chance(50) ? len / 3 : r.below(len - 1); }
    if (minlen + 1 >= len) minlen = len - 2;
    int id = 0; Tree t = gen_tree(r, len, minlen, 0, id);
    c.cur.clear(); show_tree(t, c.cur);
    unsigned explicit_width = len > 3 && r.chance(20) ? 1 + r.below(len - 3) : 0;
    string a; unsigned col = t.d->get_option_column_width();
    if (col > len - std::max(minlen, 2u)) c.fail("column-width", "column " + std::to_string(col) + " leaves less than " + std::to_string(minlen) + " of " + std::to_string(len));
    // the column holds the widest option of the set and of its groups, unless descriptions then had too little room
    size_t widest = 23; unsigned deep = 0;
    { std::function<void(const Tree&, unsigned)> f = [&](const Tree& x, unsigned k) { deep = std::max(deep, k); for (auto& i : x.items) widest = std::max(widest, i.first.size()); for (auto& g : x.groups) f(g, k + 1); }; f(t, 0); }
    size_t room = len - std::max(minlen, 2u);
    if (col < std::min(widest + 1, room)) c.fail("column-too-narrow", "column " + std::to_string(col) + ", the widest option has " + std::to_string(widest) + " characters, room for " + std::to_string(room));
    if (col > std::min(widest + 1 + deep, room)) c.fail("column-too-wide", "column " + std::to_string(col) + ", the widest option has " + std::to_string(widest) + " characters, room for " + std::to_string(room));
    c.count(widest + 1 > room ? "column-limited-by-room" : widest > 23 ? "column-by-widest-option" : "column-least");
    try {
        std::ostringstream os; if (explicit_width) t.d->print(os, explicit_width); else os << *t.d; a = os.str();
        std::ostringstream o2; t.d->print(o2, explicit_width); if (o2.str() != a) c.fail("not-repeatable", "printing again gives another text");
    } catch (const po::error& e) {
        c.eval();
        if (!many_tabs(t)) c.fail("print-throws", e.what()); else c.count("tab-errors");
        return;
    }
    c.eval();
    if (many_tabs(t)) { c.fail("two-tabs-accepted", a); return; }
    if (explicit_width) { col = explicit_width; c.count("explicit-width"); }
    vector<Line> want; expect(t, want);
    vector<string> lines = split_lines(a);
    Reader rd{c, lines, 0, col}; rd.read(want);
    // printing left everything as it was
    std::function<void(const Tree&)> all = [&](const Tree& x) { vector<const Item*> it; std::function<void(const Tree&)> f = [&](const Tree& y) { for (auto& i : y.items) it.push_back(&i); for (auto& g : y.groups) f(g); }; f(x); if (x.d->options().size() != it.size()) c.fail("options-changed", std::to_string(x.d->options().size())); };
    all(t);
    if (!t.groups.empty()) c.count("with-groups");
    if (id >= 2 && rd.ok) { c.nontrivial(c.cur); if (c.want_sample() && a.size() < 500) c.sample(a); }
}
static vector<mon::Fixed> fixed() {
    vector<mon::Fixed> f;
    f.push_back({"every line length", [](Ctx& c) {
        // one description at every line length and every minimum description length
        const string text = "The first words of a description, which has short and consequentially-very-long words and  double  spaces in it.\n  * item\twith a tab to hang on, and more words behind it\n\nlast";
        for (unsigned len = 3; len <= 100; ++len) for (unsigned m = 0; m + 1 < len; m += (len < 30 ? 1 : 3)) {
            po::options_description d(len, m); d.add_options()("help,h", text.c_str())("with-a-long-name,w", po::value<int>()->default_value(5), text.c_str())("n", "");
            std::ostringstream os; c.cur = "line length " + std::to_string(len) + " min " + std::to_string(m); os << d;
            vector<string> lines = split_lines(os.str()); vector<Line> w(3);
            w[0].it = Item{"  -h [ --help ] ", text, len}; w[1].it = Item{"  -w [ --with-a-long-name ] arg (=5)", text, len}; w[2].it = Item{"  --n ", "", len};
            Reader rd{c, lines, 0, d.get_option_column_width()}; rd.read(w); c.eval(); c.count("enumerated-widths"); c.nontrivial(c.cur);
        }
    }});
    f.push_back({"every description length", [](Ctx& c) {
        // texts of every length around the line's end, with a space at every position
        for (unsigned len : {30u, 31u, 80u}) for (unsigned n = 1; n <= 70; ++n) for (unsigned sp = 0; sp < n; ++sp) {
            string text(n, 'w'); text[sp] = ' '; if (n > 20) text[n / 2] = ' ';
            po::options_description d(len, 10); d.add_options()("help", text.c_str())("next", "d");
            std::ostringstream os; c.cur = "text " + mon::show(text) + " line length " + std::to_string(len); os << d;
            vector<string> lines = split_lines(os.str()); vector<Line> w(2);
            w[0].it = Item{"  --help ", text, len}; w[1].it = Item{"  --next ", "d", len};
            Reader rd{c, lines, 0, d.get_option_column_width()}; rd.read(w); c.eval(); c.count("enumerated-texts"); c.nontrivial(c.cur);
        }
    }});
    f.push_back({"tabs", [](Ctx& c) {
        for (const char* s : {"a\tb\tc", "\t\t", "x\ny\tz\tw", "one\ntwo\n\t\t"}) {
            po::options_description d; d.add_options()("o", s); c.cur = mon::show(string(s)); c.eval(); c.count("tab-errors");
            try { std::ostringstream os; os << d; c.fail("two-tabs-accepted", os.str()); } catch (const po::error&) {}
        }
    }});
    return f;
}
MON_MAIN(fixed(), random_case)
