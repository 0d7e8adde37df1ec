// Small worlds, enumerated completely: every short token, and every short line of a few tokens, in
// sixteen styles. Used by several command-line checks, each with its own oracle.
#pragma once
#include "spell.hpp"
#include <functional>
namespace world {
using namespace cli;
inline const vector<int>& styles() {
    static const vector<int> v = {
        st::unix_style, st::unix_style | st::case_insensitive, st::unix_style | st::allow_slash_for_short, st::unix_style | st::allow_long_disguise,
        st::unix_style | st::allow_long_disguise | st::allow_slash_for_short, st::unix_style & ~st::allow_guessing, st::unix_style & ~st::allow_sticky,
        st::allow_long | st::long_allow_adjacent, st::allow_long | st::long_allow_next, st::allow_long | st::long_allow_next | st::long_allow_adjacent | st::allow_guessing,
        st::allow_short | st::allow_dash_for_short | st::short_allow_adjacent | st::short_allow_next | st::allow_sticky, st::allow_short | st::allow_slash_for_short | st::short_allow_adjacent | st::short_allow_next,
        st::allow_short | st::allow_dash_for_short | st::allow_slash_for_short | st::short_allow_adjacent, st::allow_long_disguise | st::long_allow_adjacent | st::long_allow_next,
        st::allow_long_disguise | st::long_allow_adjacent | st::allow_guessing | st::long_case_insensitive, st::allow_long_disguise | st::allow_short | st::allow_slash_for_short | st::long_allow_next | st::short_allow_next};
    return v;
}
inline Opt make(vector<string> l, char s, Arity a) { Opt o; o.longs = l; o.sh = s; o.ar = a; return o; }

// f(table, description, arguments, allow unregistered); false stops
typedef std::function<bool(const Table&, const po::options_description&, const vector<string>&, bool)> Fn;
inline void each_token(const Fn& f, unsigned longest = 4) {
    const vector<Table> tables = {{make({"ab"}, 'a', FLAG), make({"ba", "aab"}, 'b', ONE)}, {make({"a"}, 'b', IMPL), make({"b"}, 'a', FLAG), make({"ab"}, 0, MULTI)}, {make({}, 'a', FLAG), make({}, '=', FLAG), make({}, 'b', ONE)}};
    const string al = "-/=ab";
    for (auto& t : tables) {
        po::options_description d; build(t, d);
        for (unsigned len = 0; len <= longest; ++len) { unsigned n = 1; for (unsigned i = 0; i < len; ++i) n *= (unsigned)al.size();
            for (unsigned code = 0; code < n; ++code) {
                string tok; for (unsigned i = 0, q = code; i < len; ++i, q /= (unsigned)al.size()) tok += al[q % al.size()];
                for (const char* next : {"", "x", "-a", "--"}) for (int unreg = 0; unreg < (len < 4 ? 2 : 1); ++unreg) {
                    vector<string> a(1, tok); if (*next) a.push_back(next);
                    if (!f(t, d, a, unreg != 0)) return;
                }
            } }
    }
}
inline void each_line(const Fn& f, unsigned longest = 3) {
    const Table t = {make({"ab"}, 'a', FLAG), make({"cd"}, 'c', ONE), make({"ef"}, 'e', MULTI), make({"ce"}, 'i', IMPL)};
    const vector<string> al = {"-a", "-c", "-cv", "-ac", "--ab", "--cd", "--ef", "--ce", "--cd=", "--cd=v", "--c", "--", "x", "-e", "/c", "-i", "--u", "-u", "--u=1"};
    po::options_description d; build(t, d);
    for (unsigned len = 1; len <= longest; ++len) { unsigned n = 1; for (unsigned i = 0; i < len; ++i) n *= (unsigned)al.size();
        for (unsigned code = 0; code < n; ++code) {
            vector<string> a; for (unsigned i = 0, q = code; i < len; ++i, q /= (unsigned)al.size()) a.push_back(al[q % al.size()]);
            if (!f(t, d, a, code % 2 != 0)) return;
        } }
}
// options with users' own semantics, which need or permit several values
inline void each_user_line(const Fn& f, unsigned longest = 4) {
    const Table t = {make({"ab"}, 'a', FLAG), make({"two"}, 't', custom(2, 2)), make({"opt"}, 'o', custom(0, 2)), make({"any"}, 'n', custom(2, 15))};
    const vector<string> al = {"-a", "-t", "--two=v", "-tv", "--opt", "-ov", "-n", "-av", "x", "--", "--u", "/t"};
    po::options_description d; build(t, d);
    for (unsigned len = 1; len <= longest; ++len) { unsigned n = 1; for (unsigned i = 0; i < len; ++i) n *= (unsigned)al.size();
        for (unsigned code = 0; code < n; ++code) {
            vector<string> a; for (unsigned i = 0, q = code; i < len; ++i, q /= (unsigned)al.size()) a.push_back(al[q % al.size()]);
            if (!f(t, d, a, code % 2 != 0)) return;
        } }
}
}
