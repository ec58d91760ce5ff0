// Plain PGM by definition, independent of the code under test.
#pragma once
#include <string>
#include <vector>
namespace pgm
{
typedef unsigned long long u64;
struct Parsed { bool ok = false; u64 w = 0, h = 0, mx = 0; std::vector<u64> data; };
inline bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
inline bool number(const std::string& t, u64& v)
{
    unsigned __int128 n = 0;
    if (t.empty()) return false;
    for (char c : t)
    {
        if (c < '0' || c > '9') return false;
        n = n * 10 + (unsigned)(c - '0');
        if (n >> 64) return false;
    }
    v = (u64)n;
    return true;
}
inline Parsed parse(const std::string& bytes)
{
    Parsed r;
    std::string text;
    bool comment = false;
    for (char c : bytes)
    {
        if (c == '\n') comment = false;
        else if (c == '#') comment = true;
        if (!comment) text += c;
    }
    std::vector<std::string> t;
    std::string cur;
    for (char c : text + " ")
    {
        if (!space(c)) cur += c;
        else if (!cur.empty()) { t.push_back(cur); cur.clear(); }
    }
    if (t.size() < 4 || t[0] != "P2") return r;
    if (!number(t[1], r.w) || !number(t[2], r.h) || !number(t[3], r.mx)) return r;
    if (r.w == 0 || r.h == 0 || r.mx > 65536) return r;
    if ((unsigned __int128)r.w * r.h != t.size() - 4) return r;
    for (size_t i = 4; i < t.size(); ++i)
    {
        u64 v;
        if (!number(t[i], v)) return r;
        r.data.push_back(v);
    }
    r.ok = true;
    return r;
}
}
