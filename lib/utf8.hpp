// UTF-8 helpers written here, independent of the library's converters.
#pragma once
#include <string>
namespace u8 {
inline void enc(unsigned u, std::string& o) {
    if (u < 0x80) o += (char)u;
    else if (u < 0x800) { o += (char)(0xc0 | u >> 6); o += (char)(0x80 | (u & 63)); }
    else if (u < 0x10000) { o += (char)(0xe0 | u >> 12); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); }
    else { o += (char)(0xf0 | u >> 18); o += (char)(0x80 | (u >> 12 & 63)); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); }
}
inline std::string enc(const std::wstring& w) { std::string o; for (wchar_t ch : w) enc((unsigned)ch, o); return o; }
inline bool dec(const std::string& s, std::wstring& w) {
    w.clear();
    for (size_t i = 0; i < s.size();) {
        unsigned ch = (unsigned char)s[i], n = ch < 0x80 ? 0 : ch < 0xc2 ? 99 : ch < 0xe0 ? 1 : ch < 0xf0 ? 2 : ch < 0xf5 ? 3 : 99;
        if (n == 99) return false;
        unsigned v = n ? ch & (0x3fu >> n) : ch;
        for (unsigned k = 1; k <= n; ++k) { if (i + k >= s.size() || ((unsigned char)s[i + k] & 0xc0) != 0x80) return false; v = v << 6 | ((unsigned char)s[i + k] & 63); }
        std::string e; enc(v, e); if (e.size() != n + 1 || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return false;
        w += (wchar_t)v; i += n + 1;
    }
    return true;
}
inline std::wstring dec(const std::string& s) { std::wstring w; dec(s, w); return w; }
// makes any bytes valid text
inline std::string clean(const std::string& s) { std::wstring w; if (dec(s, w)) return s; std::string o; for (unsigned char ch : s) { if (ch < 0x80) o += (char)ch; else enc(0x400u + ch, o); } return o; }
}
