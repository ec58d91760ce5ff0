// C16: image_valid for all small images and for one bad intensity at every position of larger ones.
#include "glue.hpp"
#include "probes.hpp"
using sp::image::image_valid;

static void check(UL w, UL h, UL mx, const std::vector<UL>& data)
{
    bool want = w && h && mx;
    for (UL v : data) if (v > mx) want = false;
    Image im{w, h, mx, sp::types::ULONG_ARRAY(data.begin(), data.end())};
    bool got = image_valid(&im);
    mc::state();
    mc::step();
    mc::trace();
    std::string s;
    if (got != want || mc::stats().samples.size() < 2) for (size_t i = 0; i < data.size() && i < 40; ++i) s += fmt(" %lu", data[i]);
    MC_CHECK(got == want, "%lux%lu max %lu is reported as %s:%s", w, h, mx, got ? "valid" : "invalid", s.c_str());
    MC_CHECK(im.width == w && im.height == h && im.max_value == mx && std::vector<UL>(im.data.begin(), im.data.end()) == data, "the check changed the image");
    mc::count(got ? "valid" : "invalid");
    mc::sample([&] { return fmt("%lux%lu max %lu:%s -> %d", w, h, mx, s.c_str(), got); });
}
static const std::vector<UL> V = {0, 1, 2, 3, 65535, 65536, 65537, 1ul << 32, (1ul << 32) + 1, 1ul << 63, ~0ul};

void mc::register_spaces()
{
    probes::in_place({probes::VALID});
    mc::space("zero", {4, 4, V.size(), 2}, [](const Digits& g) {
        check(g[0], g[1], V[g[2]], std::vector<UL>(g[0] * g[1], g[3]));
    });
    mc::space("sizes", {9, 9, V.size(), V.size()}, [](const Digits& g) {
        for (u64 pos = 0; pos < g[0] * g[1]; ++pos) { std::vector<UL> d(g[0] * g[1], 0); d[pos] = V[g[3]]; check(g[0], g[1], V[g[2]], d); }
    });
    for (int n = 1; n <= (mc::thorough() ? 8 : 6); ++n)
        for (int w = 1; w <= n; ++w)
            if (n % w == 0)
                mc::space(fmt("all%dx%d", w, n / w), {4, mc::ipow(5, n)}, [=](const Digits& g) {
                    std::vector<unsigned long> d(n);
                    fill_image(d, g[1], {0, 1, 2, 3, ~0ul});
                    check(w, n / w, g[0], d);
                });
    mc::space("pairs", {V.size(), V.size(), V.size(), 3}, [](const Digits& g) {
        static const UL wh[3][2] = {{2, 1}, {1, 2}, {3, 2}};
        std::vector<UL> d(wh[g[3]][0] * wh[g[3]][1], 0);
        d[0] = V[g[1]]; d[d.size() - 1] = V[g[2]];
        check(wh[g[3]][0], wh[g[3]][1], V[g[0]], d);
    });
    // every position of long images, around the sizes where narrow counters end
    mc::space("long", {8, 300}, [](const Digits& g) {
        static const UL wh[8][2] = {{300, 1}, {1, 300}, {257, 1}, {16, 17}, {17, 16}, {100, 3}, {3, 100}, {2, 128}};
        UL w = wh[g[0]][0], h = wh[g[0]][1];
        if (g[1] >= w * h) return;
        std::vector<UL> d(w * h, 5);
        check(w, h, 5, d);
        d[g[1]] = 6;
        check(w, h, 5, d);
    });
    mc::space("huge", {5, 66}, [](const Digits& g) {
        static const UL wh[5][2] = {{65536, 1}, {1, 65537}, {257, 256}, {256, 257}, {65537, 2}};
        UL w = wh[g[0]][0], h = wh[g[0]][1], n = w * h;
        std::vector<UL> d(n, 5);
        // positions: both ends, multiples of 4096, around 32768 and 65536
        u64 pos = g[1] < 8 ? g[1] : g[1] < 16 ? n - 1 - (g[1] - 8) : g[1] < 24 ? 32764 + (g[1] - 16) : g[1] < 33 ? 65532 + (g[1] - 24) : (g[1] - 33) * 4096;
        if (pos >= n) return;
        d[pos] = 6;
        check(w, h, 5, d);
    });
    if (mc::thorough())
        mc::space("million", {4, 1024}, [](const Digits& g) {
            static const UL wh[4][2] = {{1024, 1024}, {4096, 300}, {3, 400000}, {1u << 20, 2}};
            std::vector<UL> d(wh[g[0]][0] * wh[g[0]][1], 5);
            d[d.size() / 1024 * g[1] + g[1]] = 6;
            check(wh[g[0]][0], wh[g[0]][1], 5, d);
        });
}
MC_MAIN
