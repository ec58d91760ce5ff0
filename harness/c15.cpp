// C15: writing and reading back; line length; nothing for absent or invalid images.
#include "glue.hpp"
#include "pgm.hpp"
#include <pgm_io.hpp>
#include <sstream>
using sp::image::PGM_IO;

static std::string show(UL w, UL h, UL mx, const std::vector<UL>& d)
{
    std::string r = fmt("%lux%lu max %lu:", w, h, mx);
    for (size_t i = 0; i < d.size() && i < 60; ++i) r += fmt(" %lu", d[i]);
    return r;
}
static void check(UL w, UL h, UL mx, const std::vector<UL>& data)
{
    bool valid = w && h && mx;
    for (UL v : data) if (v > mx) valid = false;
    auto im = std::make_shared<Image>(Image{w, h, mx, sp::types::ULONG_ARRAY(data.begin(), data.end())});
    PGM_IO io{im};
    std::ostringstream out;
    out << io;
    mc::state();
    mc::step(2);
    mc::trace();
    std::string t = out.str();
    MC_CHECK(out.good(), "the stream isn't usable after %s", show(w, h, mx, data).c_str());
    MC_CHECK(im->width == w && im->height == h && im->max_value == mx && std::vector<UL>(im->data.begin(), im->data.end()) == data && io.get_image() == im, "writing changed the image %s", show(w, h, mx, data).c_str());
    if (!valid)
    {
        MC_CHECK(t.empty(), "%s is written for an invalid image %s", mc::json_str(t).c_str(), show(w, h, mx, data).c_str());
        mc::count("invalid");
        return;
    }
    size_t line = 0;
    for (char c : t)
    {
        line = c == '\n' ? 0 : line + 1;
        MC_CHECK(line <= 70, "line longer than 70 characters for %s", show(w, h, mx, data).c_str());
    }
    pgm::Parsed p = pgm::parse(t);
    MC_CHECK(p.ok && p.w == w && p.h == h && p.mx == mx && std::vector<UL>(p.data.begin(), p.data.end()) == data, "%s is written as %s", show(w, h, mx, data).c_str(), mc::json_str(t.substr(0, 600)).c_str());
    PGM_IO back;
    std::istringstream in(t);
    in >> back;
    MC_CHECK(!in.fail() && back.get_image(), "cannot be read back: %s", mc::json_str(t.substr(0, 600)).c_str());
    auto b = back.get_image();
    MC_CHECK(b->width == w && b->height == h && b->max_value == mx && std::vector<UL>(b->data.begin(), b->data.end()) == data, "%s is read back differently", show(w, h, mx, data).c_str());
    // the reader's image can be written again, from the same reader and twice
    std::ostringstream again;
    again << back;
    MC_CHECK(again.str() == t, "writing again differs: %s", mc::json_str(again.str().substr(0, 600)).c_str());
    mc::count("round_trips");
    mc::sample([&] { return show(w, h, mx, data) + " <-> " + mc::json_str(t.substr(0, 200)); });
}
static void all(UL w, UL h, const std::vector<unsigned long>& al, const std::vector<UL>& mx)
{
    mc::space(fmt("all%lux%lu_v%zu", w, h, al.size()), {mx.size(), mc::ipow(al.size(), w * h)}, [=](const Digits& g) {
        std::vector<unsigned long> d(w * h);
        fill_image(d, g[1], al);
        check(w, h, mx[g[0]], d);
    });
}
void mc::register_spaces()
{
    const std::vector<unsigned long> small = {0, 1, 2, 10}, wide = {0, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535, 65536, 65537};
    all(1, 1, wide, {0, 1, 9, 10, 65535, 65536});
    all(2, 1, wide, {10, 65536});
    all(1, 2, wide, {10, 65536});
    all(3, 1, wide, {999, 65536});
    all(2, 2, small, {1, 2, 10});
    all(3, 2, {0, 10, 11}, {10, 65536});
    all(2, 3, {0, 1, 2}, {1, 2});
    // widths around every line break, all heights and widths of numbers; mixed lengths
    const UL W = mc::thorough() ? 400 : 80, H = mc::thorough() ? 12 : 4;
    mc::space("widths", {W, H, 6, 3}, [](const Digits& g) {
        UL w = g[0] + 1, h = g[1] + 1;
        static const UL v[6] = {1, 10, 100, 1000, 10000, 65536};
        std::vector<UL> d(w * h);
        for (UL i = 0; i < w * h; ++i) d[i] = g[3] == 0 ? v[g[2]] : g[3] == 1 ? (i % 2 ? v[g[2]] : 0) : mc::mix(i * 6 + g[2]) % (v[g[2]] + 1);
        check(w, h, v[g[2]], d);
    });
    // every position holds the long number
    mc::space("positions", {41, 3, 123}, [](const Digits& g) {
        UL w = g[0] + 1, h = g[1] + 1;
        if (g[2] >= w * h) return;
        std::vector<UL> d(w * h, 7);
        d[g[2]] = 65536;
        check(w, h, 65536, d);
        d[g[2]] = 65537;      // invalid wherever it is
        check(w, h, 65536, d);
    });
    mc::space("empty", {3, 3, 3}, [](const Digits& g) { if (g[0] && g[1] && g[2]) return; check(g[0], g[1], g[2], std::vector<UL>(g[0] * g[1], 0)); });
    mc::space("absent", {2}, [](const Digits& g) {
        PGM_IO a, b{nullptr};
        std::ostringstream out;
        out << "x" << (g[0] ? a : b) << "y";
        mc::state();
        mc::step();
        mc::trace();
        MC_CHECK(out.good() && out.str() == "xy", "an absent image is written as %s", mc::json_str(out.str()).c_str());
        a.set_image(std::make_shared<Image>(Image{1, 1, 1, {1}}));
        a.set_image(nullptr);
        std::ostringstream again;
        again << a;
        MC_CHECK(again.good() && again.str().empty(), "a removed image is written");
    });
}
MC_MAIN
