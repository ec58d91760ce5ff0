// C14: the PGM reader on every text of several completely enumerated spaces, against the grammar in pgm.hpp.
#include "glue.hpp"
#include "pgm.hpp"
#include <pgm_io.hpp>
#include <sstream>
#include <streambuf>
using sp::image::PGM_IO;

// hands out the bytes in pieces; fails (throws, as a file buffer does on a read error) at a given byte
struct Pieces : std::streambuf
{
    std::string s; size_t pos = 0, piece, bad;
    Pieces(const std::string& t, size_t p, size_t b) : s(t), piece(p), bad(b) {}
    int_type underflow() override
    {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (pos >= bad) throw std::runtime_error("read error");
        if (pos >= s.size()) return traits_type::eof();
        size_t n = std::min({piece, s.size() - pos, bad - pos});
        setg(&s[pos], &s[pos], &s[pos] + n);
        pos += n;
        return traits_type::to_int_type(*gptr());
    }
};
static std::string quoted(const std::string& s) { return mc::json_str(s.size() > 300 ? s.substr(0, 300) + "..." : s); }

static void check(const std::string& text, size_t piece = 0, size_t bad = ~0ul, int prior = 1, int stream = 0)
{
    pgm::Parsed want = pgm::parse(text);
    if (bad <= text.size()) want.ok = false;
    if (stream) want.ok = false;
    std::shared_ptr<Image> old;
    if (prior) old = std::make_shared<Image>(Image{2, 1, 7, {5, 6}});
    PGM_IO io{old};
    std::istringstream plain(piece ? "" : text);
    Pieces buf(text, piece ? piece : 1, bad);
    std::istream other(&buf);
    std::istream& in = piece ? other : (std::istream&)plain;
    if (stream == 1) in.setstate(std::ios::failbit);
    if (stream == 2) in.setstate(std::ios::badbit);
    if (stream == 3) in.setstate(std::ios::eofbit);
    mc::state(text.size() + 1);
    mc::step(text.size());
    mc::trace();
    try { in >> io; }
    catch (const std::exception& e) { mc::fail(fmt("exception (%s) from reading ", e.what()) + quoted(text)); }
    auto im = io.get_image();
    if (want.ok)
    {
        MC_CHECK(!in.fail(), "refused: %s", quoted(text).c_str());
        MC_CHECK(im != nullptr && im != old, "no image from %s", quoted(text).c_str());
        MC_CHECK(im->width == want.w && im->height == want.h && im->max_value == want.mx, "%lux%lu max %lu read from %s", im->width, im->height, im->max_value, quoted(text).c_str());
        MC_CHECK(std::vector<pgm::u64>(im->data.begin(), im->data.end()) == want.data, "wrong intensities from %s", quoted(text).c_str());
        mc::count("accepted");
        mc::sample([&] { return "accepted " + quoted(text); });
    }
    else
    {
        MC_CHECK(in.fail(), "accepted: %s%s", quoted(text).c_str(), bad <= text.size() ? " although reading it failed" : "");
        MC_CHECK(im == old, "refused, but the image was replaced: %s", quoted(text).c_str());
        mc::count("refused");
    }
    if (old) MC_CHECK(old->width == 2 && old->height == 1 && old->max_value == 7 && old->data.size() == 2 && old->data[0] == 5 && old->data[1] == 6, "the image held before was changed by %s", quoted(text).c_str());
}

typedef std::vector<std::string> Tokens;
static const Tokens BASES = {
    "P2 1 1 1 0", "P2\n2 1\n3\n1 2\n", "P2 1 2 65536 7\n65536", "#a\nP2#b\n2#c\n1 9#d\n3 4", "P2 2 2 5\n1 2\n3 4\n#end", " P2 01 1 0 18446744073709551615 ",
};
// all byte sequences over an alphabet, by length
static void strings(const std::string& name, const std::string& prefix, const std::string& alphabet, int length, const std::string& suffix = "")
{
    mc::space(name + fmt("_%d", length), {mc::ipow(alphabet.size(), length)}, [=](const Digits& g) {
        std::string s;
        u64 v = g[0];
        for (int i = 0; i < length; ++i) { s += alphabet[v % alphabet.size()]; v /= alphabet.size(); }
        check(prefix + s + suffix);
    });
}
static void header(const Tokens& T, const Tokens& V, int data)
{
    mc::space(fmt("header_t%zu_v%zu_%d", T.size(), V.size(), data), {T.size(), T.size(), T.size(), mc::ipow(V.size(), data)}, [=](const Digits& g) {
        std::string s = "P2 " + T[g[0]] + " " + T[g[1]] + "\n" + T[g[2]] + "\n";
        u64 v = g[3];
        for (int i = 0; i < data; ++i) { s += V[v % V.size()] + (i + 1 < data ? " " : ""); v /= V.size(); }
        check(s, 0, ~0ul, (int)(g[3] % 2));
    });
}
// sequences of pieces (tokens, separators, comments glued or not)
static void pieces(const std::string& name, const std::string& prefix, const Tokens& T, int depth)
{
    mc::space(name + fmt("_t%zu_%d", T.size(), depth), {mc::ipow(T.size(), depth)}, [=](const Digits& g) {
        std::string s = prefix;
        u64 v = g[0];
        for (int i = 0; i < depth; ++i) { s += T[v % T.size()]; v /= T.size(); }
        check(s);
    });
}
// sizes: every w x h with every number of intensities around the right one
static void sizes(u64 n)
{
    mc::space(fmt("sizes%llu", n), {n + 1, n + 1, 7, 3}, [=](const Digits& g) {
        i64 count = (i64)(g[0] * g[1]) + (i64)g[2] - 3;
        if (count < 0) return;
        std::string s = fmt("P2\n%llu %llu\n65536\n", g[0], g[1]);
        for (i64 i = 0; i < count; ++i) s += fmt(g[3] == 0 ? "%lld " : g[3] == 1 ? "%lld\n" : "%lld#\n", (i * 37 + 11) % 65537);
        if (g[3] == 2 && g[2] % 2) s.resize(s.size() - 2);
        check(s);
    });
}

void mc::register_spaces()
{
    const std::string A = "P2 1#\n0\t-";
    for (int n = 0; n <= (mc::thorough() ? 7 : 6); ++n) strings("bytes", "", A, n);
    for (int n = 0; n <= (mc::thorough() ? 6 : 5); ++n) strings("after_magic", "P2", " 12#\n0x+", n, " 1 1 0");
    for (int n = 0; n <= (mc::thorough() ? 7 : 6); ++n) strings("after_header", "P2 2 1 7 ", "12 #\nx-", n);
    for (int n = 0; n <= (mc::thorough() ? 7 : 6); ++n) strings("after_data", "P2 1 1 7 3", "4 #\nx\r\v", n);
    for (int n = 0; n <= (mc::thorough() ? 5 : 4); ++n) strings("after_comment", "P2 1 1 7 #c", "4 #\nP\r", n, "\n5");
    for (int n = 0; n <= (mc::thorough() ? 5 : 3); ++n) strings("number", "P2 1 1 7 ", "09.eExX+-_ ,", n);
    // all 256 bytes
    mc::space("single_byte", {256}, [](const Digits& g) { check(std::string(1, (char)g[0])); });
    mc::space("two_bytes", {256, 256}, [](const Digits& g) { check(std::string(1, (char)g[0]) + (char)g[1] + " 1 1 1 1"); });
    size_t longest = 0;
    for (auto& b : BASES) longest = std::max(longest, b.size());
    mc::space("replace", {BASES.size(), longest, 256}, [](const Digits& g) {
        std::string s = BASES[g[0]];
        if (g[1] >= s.size()) return;
        s[g[1]] = (char)g[2];
        check(s);
    });
    mc::space("insert", {BASES.size(), longest + 1, 256}, [](const Digits& g) {
        std::string s = BASES[g[0]];
        if (g[1] > s.size()) return;
        s.insert(g[1], 1, (char)g[2]);
        check(s);
    });
    mc::space("delete", {BASES.size(), longest, longest + 1}, [](const Digits& g) {
        std::string s = BASES[g[0]];
        if (g[1] >= s.size() || g[1] + g[2] > s.size()) return;
        s.erase(g[1], g[2]);
        check(s);
    });
    const std::string E = " \n#-2P9x";
    mc::space("two_edits", {BASES.size(), longest + 1, longest + 1, E.size(), E.size(), 2, 2}, [=](const Digits& g) {
        std::string s = BASES[g[0]];
        if (g[1] >= s.size() || g[2] >= s.size() || g[1] >= g[2]) return;
        // the later position first, so that the earlier one keeps its meaning
        if (g[5]) s.insert(g[2], 1, E[g[3]]); else s[g[2]] = E[g[3]];
        if (g[6]) s.insert(g[1], 1, E[g[4]]); else s[g[1]] = E[g[4]];
        check(s);
    });
    // numbers at the limits
    Tokens T = {"1", "2", "0", "3", "65535", "65536", "65537", "4294967296", "4294967297", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617",
        "36893488147419103233", "99999999999999999999999", "00001", "-1", "+1", "1.0", "1e0", "0x1", "x", "P2", ""};
    Tokens V = {"1", "0", "65537", "18446744073709551615", "18446744073709551616", "-1", "2x", ""};
    header(T, {"1", "2x"}, 0);
    header(T, V, 1);
    header({"1", "2", "0", "4294967296", "9223372036854775808", "65536", "18446744073709551615", ""}, {"1", "70000", "18446744073709551616", "-1", ""}, 2);
    header({"1", "2", "4"}, {"1", "70000", "x", ""}, 4);
    header({"1", "2", "3"}, {"1", "0"}, 6);
    pieces("pieces", "P2", {" ", "\n", "#c\n", "# 1 1\n", "1", "2"}, mc::thorough() ? 9 : 7);
    pieces("body", "P2 2 2 9\n", {" ", "#\n", "1 ", "2", "#1 2\r\n"}, mc::thorough() ? 9 : 7);
    pieces("whole", "", {"P2", " ", "#P2\n", "\r\n", "1", "#"}, mc::thorough() ? 9 : 7);
    sizes(mc::thorough() ? 20 : 9);
    // the way bytes arrive doesn't matter; reading errors at every byte
    mc::space("arrival", {BASES.size(), 8, 2}, [](const Digits& g) { check(BASES[g[0]], g[1] + 1, ~0ul, (int)g[2]); });
    mc::space("read_error", {BASES.size(), longest + 2, 4, 2}, [](const Digits& g) {
        if (g[1] > BASES[g[0]].size()) return;
        check(BASES[g[0]], g[2] + 1, g[1], (int)g[3]);
    });
    mc::space("streams", {BASES.size(), 3, 2}, [](const Digits& g) { check(BASES[g[0]], 0, ~0ul, (int)g[2], (int)g[1] + 1); });
    // long ones: tokens, comments and images longer than any buffer
    mc::space("long", {16, 9}, [](const Digits& g) {
        static const size_t n[9] = {1, 127, 128, 255, 256, 1023, 4096, 8191, 70000};
        size_t k = n[g[1]];
        std::string z(k, '0'), c(k, 'c'), s(k, ' ');
        switch (g[0])
        {
            case 0: check("P2 " + z + "1 1 1 0"); break;
            case 1: check("P2 1 1 1 " + z + "1" + z); break;
            case 2: check("P2#" + c + "\n1 1 1 0"); break;
            case 3: check("P2 1 1 1 0 #" + c); break;
            case 4: check(s + "P2 1" + s + " 1 1 0" + s); break;
            case 5: check("P2 1 1 1 0" + s + "x"); break;
            case 6: check("P2 1 1 1 0\n" + std::string(k, '#')); break;
            case 7: check(c); break;
            case 10: check("P2# " + c + "\n1 1 1 0"); break;
            case 11: { std::string t = "P2 #"; for (size_t i = 0; i < k; ++i) t += i % 7 ? "1" : " "; check(t + "\n1 1 1 0"); break; }
            case 12: check("# " + s + "x\nP2 1 1 1 0# " + c + "\n#" + s + "2"); break;
            case 13: { std::string t = "P2 "; for (size_t i = 0; i < k; ++i) t += "#\n"; check(t + "1 1 1 0"); check(t + "1 1 1 2"); break; }
            case 14: { std::string t = "P2 1 1 1 0"; for (size_t i = 0; i < k; ++i) t += "# \n"; check(t); check(t + "0"); break; }
            case 15: check("P2 1 1#" + s + c + s + "\r\n 1#" + c + s + "\n0"); break;
            case 8: { std::string t = fmt("P2 %zu 1 65536", k); for (size_t i = 0; i < k; ++i) t += fmt("\n%zu", i); check(t); break; }
            default: { std::string t = fmt("P2 1 %zu 65536", k + 1); for (size_t i = 0; i < k; ++i) t += fmt(" %zu", i); check(t); }
        }
    });
    // reading several images through one reader: the last success stays
    mc::space("repeated", {6, 6, 6}, [](const Digits& g) {
        static const std::string T[6] = {"P2 1 1 1 0", "P2 2 1 3 1 2", "P2 1 1 1", "P3 1 1 1 0", "P2 1 1 1 0 0", ""};
        PGM_IO io;
        MC_CHECK(io.get_image() == nullptr, "a new reader holds an image");
        pgm::Parsed have;
        std::shared_ptr<Image> last;
        for (u64 i : g)
        {
            std::istringstream in(T[i]);
            in >> io;
            mc::step();
            pgm::Parsed n = pgm::parse(T[i]);
            MC_CHECK(in.fail() == !n.ok, "reading %s after others: %s", quoted(T[i]).c_str(), n.ok ? "refused" : "accepted");
            if (n.ok) have = n;
            else MC_CHECK(io.get_image() == last, "image replaced by failing to read %s", quoted(T[i]).c_str());
            last = io.get_image();
            MC_CHECK((last != nullptr) == have.ok, "image held after reading %s", quoted(T[i]).c_str());
            if (last) MC_CHECK(last->width == have.w && last->height == have.h && last->max_value == have.mx && std::vector<pgm::u64>(last->data.begin(), last->data.end()) == have.data, "wrong image held after %s", quoted(T[i]).c_str());
        }
        mc::state();
        mc::trace();
    });
}
MC_MAIN
