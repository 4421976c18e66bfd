#include "gen.hpp"
#include <cstring>
#include <cerrno>
#include <algorithm>

namespace sim {

struct Corp { unsigned w, h; const char* px; const char* word; const char* font; };
static const Corp corpus[] = {
#include "corpus.inc"
};
static const unsigned ncorpus = sizeof corpus / sizeof *corpus;

Img gen_img(unsigned maxw, unsigned maxh) {
    Img i;
    i.w = 1 + small(maxw, "w"); i.h = 1 + small(maxh, "h");
    i.px.assign(size_t(i.w) * i.h, '-');
    switch (choose(6, "fill")) {
        case 5: { unsigned a = 2 + choose(3, "tooth"), r = choose(i.h, "spine"); for (unsigned y = 0; y < i.h; ++y) for (unsigned x = 0; x < i.w; ++x) if (y == r || x % a == 0) i.px[size_t(y) * i.w + x] = 'x'; } break;
        case 0: i.px.assign(i.px.size(), 'x'); break;
        case 1: break;
        case 2: for (auto& c : i.px) c = choose(2, "px") ? 'x' : '-'; break;
        case 3: { unsigned a = 1 + choose(7, "a"), b = choose(7, "b"); for (size_t k = 0; k < i.px.size(); ++k) i.px[k] = (k * a + b) % 3 ? '-' : 'x'; } break;
        case 4: { unsigned r = choose(i.h, "row"), c = choose(i.w, "col"); for (unsigned y = 0; y < i.h; ++y) for (unsigned x = 0; x < i.w; ++x) if (y == r || x == c) i.px[y * i.w + x] = 'x'; } break;
    }
    return i;
}
// cheap pseudo-random contents: one choice decides them all
Img gen_big(bool shape) {
    static const unsigned ws[] = {33, 100, 64, 128, 65, 16, 255, 24, 512, 31}, hs[] = {32, 12, 64, 33, 100, 40, 129, 17};
    Img i; i.w = ws[choose(10, "bigw")]; i.h = hs[choose(8, "bigh")];
    if (choose(4, "area") == 0) {       // as many pixels as a buffer holds, or one more or less
        unsigned a = (1u << (8 + choose(shape ? 5 : 7, "power"))) + choose(3, "and") - 1;
        std::vector<unsigned> d;
        for (unsigned k = 1; k <= a; ++k) if (a % k == 0 && (!shape || (k <= 600 && a / k <= 600))) d.push_back(k);
        if (!d.empty()) { i.w = d[choose(uint32_t(d.size()), "w")]; i.h = a / i.w; }
    }
    size_t n = size_t(i.w) * i.h;
    i.px.assign(n, '-');
    uint32_t s = choose(1u << 16, "texture");
    switch (choose(6, "bigfill")) {
        case 0: for (auto& c : i.px) c = lcg(s) % 7 ? '-' : 'x'; break;
        case 1: for (auto& c : i.px) c = lcg(s) % 7 ? 'x' : '-'; break;
        case 2: { unsigned a = 2 + s % 3; for (size_t k = 0; k < n; ++k) if (k / i.w == i.h / 2 || k % i.w % a == 0) i.px[k] = 'x'; } break;   // comb
        case 3: { unsigned a = 2 + s % 3; for (size_t k = 0; k < n; ++k) if (k % i.w == i.w / 2 || k / i.w % a == 0) i.px[k] = 'x'; } break;   // ladder
        case 4: { unsigned a = 3 + s % 9; for (size_t k = 0; k < n; ++k) if ((k / i.w + k % i.w) % a == 0 || k / i.w % (a + 2) == 0) i.px[k] = 'x'; } break;
        default: for (unsigned k = 0; k < 40; ++k) { unsigned x = lcg(s) % i.w, y = lcg(s) % i.h, w = 1 + lcg(s) % 9, h = 1 + lcg(s) % 9; for (unsigned b = y; b < i.h && b < y + h; ++b) for (unsigned a = x; a < i.w && a < x + w; ++a) i.px[size_t(b) * i.w + a] = 'x'; }
    }
    if (shape) {
        for (unsigned y = 0; y < i.h; ++y) i.px[size_t(y) * i.w] = 'x';
        for (unsigned x = 0; x < i.w; ++x) i.px[size_t(i.h / 2) * i.w + x] = 'x';
        if (choose(2, "right")) i.px[size_t(i.w) - 1] = 'x';
    }
    return i;
}
// the same picture with a row or column doubled, or a few pixels changed: similar, not equal
Img near_picture(Img i) {
    switch (choose(3, "how")) {
        case 0: { unsigned y = choose(i.h, "row"); i.px.insert(size_t(y) * i.w, i.px.substr(size_t(y) * i.w, i.w)); ++i.h; } break;
        case 1: { unsigned x = choose(i.w, "col"); std::string p; for (unsigned y = 0; y < i.h; ++y) { auto r = i.px.substr(size_t(y) * i.w, i.w); r.insert(x, 1, r[x]); p += r; } i.px = p; ++i.w; } break;
        default: for (unsigned k = 1 + small(4, "flips"); k; --k) { auto& c = i.px[choose(uint32_t(i.px.size()), "px")]; c = c == 'x' ? '-' : 'x'; }
    }
    return i;
}
std::string gen_long(unsigned max) {
    uint32_t s = choose(1u << 16, "letters");
    static const unsigned ls[] = {31, 32, 255, 256, 257, 15, 16, 64, 300, 1023, 1024, 1025, 5000};
    size_t n = std::min(max, ls[choose(13, "long")]);
    std::string r; while (r.size() < n) r += char('a' + lcg(s) % 4);
    return r;
}
Img corpus_img() {
    auto& c = corpus[choose(ncorpus, "corpus")];
    return Img{c.w, c.h, c.px};
}
Img gen_shape(unsigned maxw, unsigned maxh) {
    if (chance(1, 2, "corpus?")) { Img i = corpus_img(); if (i.w <= maxw && i.h <= maxh) return i; }
    Img i = gen_img(chance(1, 10, "wide?") ? 60 : maxw, maxh);
    // ink on every border and no empty column, so that segmentation gives the shape back
    for (unsigned y = 0; y < i.h; ++y) { i.px[y * i.w] = 'x'; if (choose(2, "r")) i.px[y * i.w + i.w - 1] = 'x'; }
    for (unsigned x = 0; x < i.w; ++x) i.px[(i.h / 2) * i.w + x] = 'x';
    return i;
}
// ---- sizes past 8 and 16 bit counters -------------------------------------------------
unsigned gen_count() {
    static const unsigned n[] = {255, 256, 257, 511, 1024, 1025, 4097, 16385, 32768, 65535, 65536, 65537, 70000};
    return n[choose(13, "count")];
}
void huge_run() {
    A->tick_limit = 4000000000ull; A->seam_limit = 100000000; A->wall_extra = 120000;
    if (g_read.short_mode == 2) g_read.short_mode = 0;   // a million single bytes say nothing new
}
std::string utf8(uint32_t c) {
    std::string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    return s;
}
Img gen_huge_img() {
    static const unsigned d[][2] = {{70000, 1}, {1, 70000}, {65536, 1}, {65537, 1}, {1, 65537}, {65535, 2}, {32768, 2}, {257, 257}, {256, 256}, {300, 300}, {65536, 2}, {9000, 9}, {1100, 1000}, {1024, 1025}};
    auto& k = d[choose(14, "dims")];
    Img i; i.w = k[0]; i.h = k[1];
    i.px.resize(size_t(i.w) * i.h);
    uint32_t s = choose(1u << 16, "texture"), den = 2 + choose(3, "ink") * 50;
    for (auto& c : i.px) c = lcg(s) % den ? '-' : 'x';
    return i;
}
std::vector<G> gen_huge_glyphs() {
    std::vector<G> r;
    uint32_t s = choose(1u << 16, "texture");
    auto tiny = [&] { Img i; i.w = 1 + lcg(s) % 2; i.h = 1; i.px.assign(i.w, lcg(s) % 2 ? 'x' : '-'); return i; };
    unsigned what = choose(6, "huge"), n;
    switch (what) {
        case 0: case 1:   // many records; distinct words and fonts, or few
            n = gen_count();
            for (unsigned k = 0; k < n; ++k) r.push_back(G{tiny(), {{(what ? "w" + std::to_string(lcg(s) % 50) : "w" + std::to_string(k)), (what ? "f" + std::to_string(lcg(s) % 50) : "f" + std::to_string(n - k)), k}}});
            break;
        case 2: {          // many names of one record
            G g; g.img = tiny(); n = gen_count();
            for (unsigned k = 0; k < n; ++k) g.views.push_back({"w" + std::to_string(lcg(s) % 3 ? k : lcg(s) % 100), "f" + std::to_string(lcg(s) % 300), k});
            r.push_back(G{tiny(), {{"a", "f", 1}}}); r.push_back(std::move(g)); r.push_back(G{tiny(), {{"b", "g", 2}}});
        } break;
        case 3: r.push_back(G{tiny(), {{"a", "f", 1}}}); r.push_back(G{gen_huge_img(), {{"b", "g", 2}}}); r.push_back(G{tiny(), {{"c", "f", 3}}}); break;
        default: {         // a long text
            std::string t; n = gen_count(); while (t.size() < n) t += char('a' + lcg(s) % 26);
            r.push_back(G{tiny(), {{"a", "f", 1}}});
            if (what == 4) r.push_back(G{tiny(), {{t, "g", 2}, {"b", "g", 2}}}); else r.push_back(G{tiny(), {{"b", t, 2}, {"c", "g", 4294967295u}}});
            r.push_back(G{tiny(), {{"c", "f", 3}}});
        }
    }
    return r;
}
std::vector<std::string> gen_huge_words() {
    std::vector<std::string> r;
    uint32_t s = choose(1u << 16, "letters"), n = gen_count();
    switch (choose(4, "huge")) {
        case 0: for (unsigned k = 0; k < n; ++k) r.push_back(utf8(0x10000 + k)); break;                               // children of the root
        case 1: for (unsigned k = 0; k < n; ++k) r.push_back("a" + utf8(0x10000 + k)); r.push_back("b"); break;        // children of another node
        case 2: for (unsigned k = 0; k < n; ++k) { std::string w; for (unsigned c = 1 + lcg(s) % 6; c; --c) w += char('a' + lcg(s) % 26); r.push_back(w); } break;
        default: for (unsigned k = 0; k < n; ++k) r.push_back(utf8(0x3b1 + k / 20) + utf8(0x10000 + lcg(s) % 4000)); break;
    }
    return r;
}
std::vector<WLine> gen_huge_wlines() {
    std::vector<WLine> r;
    uint32_t s = choose(1u << 16, "attributes"), n = gen_count();
    for (unsigned k = 0; k < n; ++k) r.push_back({"w" + std::to_string(lcg(s) % 90000), lcg(s) % 8, lcg(s) % 8, lcg(s) % 8, lcg(s) % 8});
    return r;
}
static const char* const word_pool[] = {
    "a", "b", "c", "e", "g", "i", "l", "m", "n", "o", "r", "s", "t", "u", "A", "B", "O", "0", "1", "I", ".", ",", "-", "?", "'", "(",
    "\xc3\xa9", "\xc3\xa8", "\xc3\xa7", "\xc3\xb4", "\xc5\x93", "\xe2\x80\x93", "\xe2\x82\xac", "\xd0\xb6", "\xf0\x9f\x98\x80",
    "ff", "ffi", "rn", "vv", "ab", "abc", "abcd", "abcde", "aa", "aab", "abcdefgh", "abcdefghi", "abcdefghijklmnop", "tt", "ttt",
    "#", "#a", "/", "\\", "\"", "12", "-1", "+", "0x1f", "1e5", "nan", "%", "%s", "*", "\x01", "\x7f", "\xc2\xa0", "\xe1\xb8\x80", "\xf4\x8f\xbf\xbf", "_", "=", "x-", "true", "eof",
};
std::string gen_word() {
    unsigned n = sizeof word_pool / sizeof *word_pool;
    unsigned k = choose(n + 6, "word");
    if (k < n) return word_pool[k];
    std::string s;
    unsigned len = 1 + small(12, "len");
    for (unsigned i = 0; i < len; ++i) s += char('a' + choose(3, "c"));
    return s;
}
std::string gen_font() {
    static const char* const f[] = {"f", "g", "DejaVuSans-8", "DejaVuSans-Bold-8", "DejaVuSans", "FreeSans-9", "a", "ab", "tt", "9", "-1", "#f", "\xc3\xa9", "f:12"};
    return f[choose(14, "font")];
}
std::vector<G> gen_glyphs(unsigned maxn, bool use_corpus) {
    std::vector<G> r;
    unsigned n = small(maxn + 1, "glyphs");
    for (unsigned i = 0; i < n; ++i) {
        G g;
        if (use_corpus && choose(4, "kind")) {
            auto& c = corpus[choose(ncorpus, "corpus")];
            g.img = Img{c.w, c.h, c.px};
            g.views.push_back({c.word, c.font, ~0u});
        } else {
            g.img = use_corpus ? gen_shape(14, 16) : gen_img(12, 12);
            g.views.push_back({gen_word(), gen_font(), 0});
        }
        unsigned m = small(5, "views");
        for (unsigned k = 0; k < m; ++k) g.views.push_back({gen_word(), gen_font(), 0});
        for (auto& v : g.views) { static const unsigned li[] = {0, 1, 7, 12, 4294967295u, 100000, 65535}; v.line = li[choose(7, "line")]; }
        r.push_back(std::move(g));
    }
    if (chance(1, 16, "large")) switch (choose(5, "what")) {
        case 0: { G g; g.img = gen_big(use_corpus); g.views.push_back({gen_word(), gen_font(), 0}); r.insert(r.begin() + choose(uint32_t(r.size() + 1), "at"), g); } break;
        case 1: { // many records
            unsigned k = 20 + choose(r.size() > 20 ? 10 : 180, "many"); uint32_t s = choose(1u << 16, "texture");
            for (unsigned i = 0; i < k; ++i) {
                G g;
                if (use_corpus) { auto& c = corpus[lcg(s) % ncorpus]; g.img = Img{c.w, c.h, c.px}; g.views.push_back({c.word, c.font, i}); }
                else { g.img.w = 1 + lcg(s) % 9; g.img.h = 1 + lcg(s) % 9; g.img.px.assign(size_t(g.img.w) * g.img.h, '-'); for (auto& c : g.img.px) if (lcg(s) % 2) c = 'x'; }
                for (unsigned v = lcg(s) % 3 + !use_corpus; v; --v) g.views.push_back({"w" + std::to_string(lcg(s) % 300), "f" + std::to_string(lcg(s) % 30), lcg(s)});
                r.push_back(std::move(g));
            } } break;
        case 2: if (!r.empty()) r[choose(uint32_t(r.size()), "at")].views[0].word = gen_long(5000); break;
        case 3: if (!r.empty()) { // many names
            auto& vs = r[choose(uint32_t(r.size()), "at")].views; unsigned k = 10 + choose(300, "many"); uint32_t s = choose(1u << 16, "names");
            for (unsigned i = 0; i < k; ++i) vs.push_back({std::string(1, char('a' + lcg(s) % 26)) + std::to_string(lcg(s) % 400), "f" + std::to_string(lcg(s) % 300), lcg(s)}); } break;
        default: if (!r.empty()) r[choose(uint32_t(r.size()), "at")].views[0].font = gen_long(5000); break;
    }
    return r;
}
std::vector<std::string> utf8_chars(std::string const& s) {
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        r.push_back(s.substr(i, n));
        i += n;
    }
    return r;
}
std::vector<std::string> gen_words(unsigned maxn) {
    static const char* const ch[] = {"a", "b", "c", "e", "s", "z", "'", "-", "\xc3\xa9", "\xc3\xa0", "\xc5\x93", "\xe2\x80\x99", "\xd0\xb6", "\xf0\x9f\x98\x80", "#", "7", "\x01", "\x7f", "\xc2\xa0", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf"};
    std::vector<std::string> r;
    unsigned n = small(maxn + 1, "words");
    for (unsigned i = 0; i < n; ++i) {
        std::string s;
        unsigned how = choose(6, "how");
        if (how == 0 && !r.empty()) { s = r[choose(unsigned(r.size()), "base")]; }            // duplicate
        else if (how == 1 && !r.empty()) { s = r[choose(unsigned(r.size()), "base")]; s += ch[choose(25, "c")]; }  // extension
        else if (how == 2 && !r.empty()) { auto c = utf8_chars(r[choose(unsigned(r.size()), "base")]); if (!c.empty()) c.pop_back(); for (auto& x : c) s += x; } // prefix
        else { unsigned len = small(9, "len"); for (unsigned k = 0; k < len; ++k) s += ch[choose(25, "c")]; } // may be empty: a blank line
        r.push_back(s);
    }
    if (chance(1, 16, "large")) switch (choose(2, "what")) {
        case 0: r.insert(r.begin() + choose(uint32_t(r.size() + 1), "at"), gen_long(1025)); break;
        default: { unsigned k = 50 + choose(600, "many"); uint32_t s = choose(1u << 16, "letters");
            for (unsigned i = 0; i < k; ++i) { std::string w; for (unsigned c = 1 + lcg(s) % 7; c; --c) w += ch[lcg(s) % 14]; r.push_back(w); } }
    }
    return r;
}
std::vector<WLine> gen_wlines(unsigned maxn, std::vector<std::string> const& extra) {
    std::vector<WLine> r;
    unsigned n = small(maxn + 1, "wlines");
    for (unsigned i = 0; i < n; ++i) {
        WLine w;
        w.word = !extra.empty() && choose(2, "src") ? extra[choose(unsigned(extra.size()), "w")] : gen_word();
        w.a = choose(8, "a"); w.c = choose(8, "c"); w.m = choose(8, "m"); w.b = choose(8, "b");
        r.push_back(w);
    }
    if (!extra.empty() && choose(3, "letters") == 0) {      // attributes that mean something, for every name
        static const unsigned vs[] = {2, 2, 2, 1, 4, 3, 6};
        for (size_t i = 0; i < extra.size() && i < 40; ++i) { unsigned b = vs[choose(7, "baseline")]; r.push_back({extra[i], 0, 0, b == 2 && choose(3, "same") ? 2 : vs[choose(7, "meanline")], b}); }
    }
    if (chance(1, 16, "large")) { unsigned k = 100 + choose(600, "many"); uint32_t s = choose(1u << 16, "attributes"); for (unsigned i = 0; i < k; ++i) r.push_back({"w" + std::to_string(lcg(s) % 500), lcg(s) % 8, lcg(s) % 8, lcg(s) % 8, lcg(s) % 8}); }
    return r;
}
std::string enc_glyphs(std::vector<G> const& gs, std::vector<size_t>* bounds) {
    std::string s;
    if (bounds) bounds->push_back(0);
    for (auto& g : gs) {
        s += std::to_string(g.img.w) + " " + std::to_string(g.img.h) + " " + g.img.px + "\n" + std::to_string(g.views.size()) + "\n";
        for (auto& v : g.views) s += v.word + " " + v.font + " " + std::to_string(v.line) + "\n";
        if (bounds) bounds->push_back(s.size());
    }
    return s;
}
// a library one record of which says something impossible about itself
std::string enc_glyphs_lying(std::vector<G> gs) {
    if (gs.empty()) return "0 0 \n0\n";
    fault(F_CORRUPT);
    size_t at = choose(uint32_t(gs.size()), "lies");
    std::string s, w, h, px, n;
    for (size_t i = 0; i < gs.size(); ++i) {
        auto& g = gs[i];
        w = std::to_string(g.img.w); h = std::to_string(g.img.h); px = g.img.px; n = std::to_string(g.views.size());
        if (i == at) switch (choose(14, "lie")) {
            case 0: w = h = "0"; px.clear(); break;
            case 1: w = "0"; px.clear(); break;
            case 2: h = "0"; px.clear(); break;
            case 3: w = "0"; break;
            case 4: w = std::to_string(g.img.w + 1 + choose(3, "more")); break;
            case 5: h = std::to_string(g.img.h + 1 + choose(3, "more")); break;
            case 6: w = h = "65536"; if (choose(2, "none")) px.clear(); break;
            case 7: w = "641"; h = "6700417"; px.resize(1); break;               // one pixel modulo 2^32
            case 8: w = std::to_string(g.img.w + 4294967296ull); break;
            case 9: w = "-" + w; break;
            case 10: px.pop_back(); break;
            case 11: n = std::to_string(g.views.size() + 1 + choose(3, "more")); break;
            case 12: n = choose(2, "huge") ? "4294967295" : "18446744073709551615"; break;
            case 13: n = choose(2, "negative") ? "-1" : "0"; break;
        }
        s += w + " " + h + " " + px + "\n" + n + "\n";
        for (auto& v : g.views) s += v.word + " " + v.font + " " + std::to_string(v.line) + "\n";
    }
    return s;
}
std::string enc_wlines(std::vector<WLine> const& ws, std::vector<size_t>* bounds) {
    std::string s;
    if (bounds) bounds->push_back(0);
    for (auto& w : ws) {
        s += w.word + " " + std::to_string(w.a) + " " + std::to_string(w.c) + " " + std::to_string(w.m) + " " + std::to_string(w.b) + "\n";
        if (bounds) bounds->push_back(s.size());
    }
    return s;
}

// ---- images -----------------------------------------------------------------------
static std::string head(unsigned type, Img const& im) {
    std::string s = "P"; s += char('0' + type); s += '\n';
    unsigned nc = small(3, "comments");
    for (unsigned k = 0; k < nc; ++k) { static const char* const c[] = {"# a comment\n", "#\n", "# 2 2\n", "#P4\n"}; s += c[choose(4, "comment")]; }
    s += std::to_string(im.w) + " " + std::to_string(im.h) + "\n";
    if (type == 3 || type == 6) { static const char* const mv[] = {"1\n", "255\n", "15\n"}; s += type == 3 ? "1\n" : mv[choose(2, "max")]; }
    return s;
}
std::string enc_image(Img const& im, unsigned type) {
    std::string s = head(type, im);
    if (type == 4) {
        for (unsigned y = 0; y < im.h; ++y)
            for (unsigned x = 0; x < im.w; x += 8) {
                unsigned b = 0;
                for (unsigned k = 0; k < 8; ++k) { unsigned bit = x + k < im.w ? im.px[size_t(y) * im.w + x + k] == '-' : choose(2, "pad"); b = b << 1 | bit; }
                s += char(b);
            }
    } else {
        unsigned style = choose(4, "ascii");
        for (size_t k = 0; k < im.px.size(); ++k) {
            s += im.px[k] == '-' ? '0' : '1';
            if (style == 1) s += ' ';
            else if (style == 2) s += (k + 1) % im.w ? ' ' : '\n';
            else if (style == 3 && (k + 1) % im.w == 0) s += '\n';
        }
        if (choose(2, "nl")) s += '\n';
    }
    return s;
}
static unsigned lum_of(unsigned r, unsigned g, unsigned b) { return ((511 * r + 511) >> 10) + ((396 * g + 511) >> 10) + ((117 * b + 511) >> 10); }
std::string enc_p6(Img const& im, unsigned lum, bool exact) {
    std::string s = head(6, im);
    unsigned style = exact ? 0 : choose(im.px.size() > 4000 ? 1 : 3, "rgb");
    for (char c : im.px) {
        unsigned r, g, b;
        if (style == 0) { r = g = b = c == '-' ? 0 : 255; }
        else if (style == 1) {   // near the threshold
            unsigned v = c == '-' ? (lum ? lum - 1 : 0) : lum;
            r = std::min(255u, v + choose(3, "d")); g = std::min(255u, v); b = std::min(255u, v);
        }
        else { r = choose(256, "r"); g = choose(256, "g"); b = choose(256, "b"); }
        s += char(r); s += char(g); s += char(b);
    }
    return s;
}
int dec_image(std::string const& b, unsigned lum, Img& out) {
    size_t p = 0;
    if (b.size() < 3 || b[0] != 'P' || b[2] != '\n') return 0;
    char t = b[1];
    if (t != '1' && t != '3' && t != '4' && t != '6') return 0;
    p = 3;
    while (p < b.size() && b[p] == '#') { while (p < b.size() && b[p] != '\n') ++p; if (p < b.size()) ++p; }
    auto num = [&](uint64_t& v, char end) {
        v = 0; size_t q = p;
        while (p < b.size() && b[p] >= '0' && b[p] <= '9') { v = v * 10 + uint64_t(b[p] - '0'); if (v > 0xffffffffull) return false; ++p; }
        if (p == q || p >= b.size() || b[p] != end) return false;
        ++p;
        return true;
    };
    uint64_t w, h, m;
    if (!num(w, ' ') || !num(h, '\n')) return 0;
    if ((t == '3' || t == '6') && !num(m, '\n')) return 0;
    if (w * h == 0 || w * h > 0xffffffffull) return 0;
    size_t n = size_t(w * h), left = b.size() - p;
    out.w = unsigned(w); out.h = unsigned(h);
    std::string px;
    auto u = [&](size_t i) { return (unsigned char)b[i]; };
    if (t == '6') {
        if (left != n * 3) return 0;
        for (; p < b.size(); p += 3) { unsigned char c = (unsigned char)lum_of(u(p), u(p + 1), u(p + 2)); px += c < lum ? '-' : 'x'; }
    } else if (t == '4') {
        uint64_t row = (w + 7) / 8;
        if (left != row * h) return 0;
        for (uint64_t y = 0; y < h; ++y) for (uint64_t x = 0; x < w; ++x) px += (u(p + y * row + x / 8) >> (7 - x % 8)) & 1 ? '-' : 'x';
    } else {
        for (; p < b.size(); ++p) {
            if (b[p] == ' ' || b[p] == '\n') continue;
            if (b[p] != '0' && b[p] != '1') return 0;
            px += b[p] == '0' ? '-' : 'x';
            if (px.size() > n) return 0;
        }
        if (px.size() != n) return 0;
    }
    out.px = px;
    return 1;
}
Img compose_line(std::vector<Img> const& sh) {
    Img r;
    unsigned top = choose(3, "top"), bottom = choose(3, "bottom");
    unsigned h = 1;
    for (auto& s : sh) h = std::max(h, s.h);
    r.h = h + top + bottom;
    std::vector<std::string> rows(r.h);
    auto gap = [&](unsigned n) { for (auto& x : rows) x.append(n, '-'); };
    gap(choose(4, "left"));
    for (auto& s : sh) {
        unsigned off = top + (choose(2, "base") ? h - s.h : choose(h - s.h + 1, "off"));
        for (unsigned y = 0; y < r.h; ++y) {
            if (y >= off && y < off + s.h) rows[y].append(s.px, size_t(y - off) * s.w, s.w);
            else rows[y].append(s.w, '-');
        }
        gap(1 + choose(8, "gap"));
    }
    if (rows[0].empty()) gap(1);
    r.w = unsigned(rows[0].size());
    for (auto& x : rows) r.px += x;
    return r;
}

// many small pictures, all different from those seen
void add_crowd(std::vector<Img>& to, unsigned n, std::set<std::string>& seen) {
    uint32_t s = choose(1u << 16, "texture");
    for (unsigned tries = 0; n && tries < 20000; ++tries) {
        Img i; i.w = 2 + lcg(s) % 6; i.h = 2 + lcg(s) % 7;
        i.px.assign(size_t(i.w) * i.h, '-');
        for (auto& c : i.px) if (lcg(s) % 2) c = 'x';
        for (unsigned x = 0; x < i.w; ++x) i.px[(i.h / 2) * i.w + x] = 'x';      // no empty column
        i.px[0] = i.px[size_t(i.h - 1) * i.w] = 'x';
        if (!seen.insert(show(i) + i.px).second) continue;
        to.push_back(std::move(i)); --n;
    }
}
// ---- faults ------------------------------------------------------------------------
const char* const fk_names[FK_N] = {"none", "open fails", "size query fails", "reads fail from an offset on", "one read fails", "file shrinks", "file grows", "close fails", "allocation fails", "interrupted reads"};
PlanAlloc g_plan_alloc;
void draw_delivery() {
    g_read = ReadCfg{};
    g_read.short_mode = choose(4, "delivery");
}
void clear_plan(SimFile& f) {
    f.open_errno = f.fstat_errno = f.close_errno = 0; f.err_at = -1; f.err_times = 0; f.resize = f.resized = false; f.resize_after = 0;
    g_read.eintr_budget = 0; g_plan_alloc = PlanAlloc{};
}
FK draw_fault(SimFile& f, unsigned mask) {
    clear_plan(f);
    FK k;
    do k = FK(choose(FK_N, "fault")); while (k != FK_NONE && !(mask >> k & 1));
    unsigned len = unsigned(f.content.size());
    switch (k) {
        case FK_OPEN: { static const int e[] = {ENOENT, EACCES, EMFILE, EIO, EINTR}; f.open_errno = e[choose(5, "errno")]; } break;
        case FK_FSTAT: { static const int e[] = {EIO, EOVERFLOW, ENOMEM}; f.fstat_errno = e[choose(3, "errno")]; } break;
        case FK_READ: case FK_READ_ONCE: {
            static const int e[] = {EIO, EISDIR, ENOMEM, EAGAIN};
            f.err_at = choose(len + 1, "err_at"); f.err_no = e[choose(4, "errno")]; f.err_times = k == FK_READ ? 0 : 1; } break;
        case FK_SHRINK: f.resize = true; f.resize_after = small(4, "after"); f.content2 = f.content.substr(0, len ? choose(len, "len") : 0); break;
        case FK_GROW: { f.resize = true; f.resize_after = small(4, "after"); f.content2 = f.content + (len ? f.content.substr(len - 1 - choose(len, "from")) : std::string("1")); } break;
        case FK_CLOSE: f.close_errno = choose(2, "errno") ? EIO : EINTR; break;
        case FK_ALLOC: g_plan_alloc.n = long(small(200, "alloc")); g_plan_alloc.persist = chance(1, 4, "persist"); break;
        case FK_EINTR: g_read.eintr_budget = 1 + choose(40, "eintr"); g_read.eintr_den = 1 + choose(4, "den"); break;
        default: break;
    }
    if (k != FK_NONE) note("plan for %s: %s", f.path.c_str(), fk_names[k]);
    return k;
}
bool errors_delivered(SimFile const& f) { return f.st().errs || f.st().open_fails; }
size_t draw_cut(std::string const& t) {
    uint32_t n = uint32_t(t.size());
    size_t cut = choose(n + 1, "cut");
    switch (choose(5, "cutkind")) {
        case 1: { size_t nl = t.find('\n', cut); if (nl != std::string::npos) cut = nl + choose(2, "nl"); } break;
        case 2: { size_t sp = t.find(' ', cut); if (sp != std::string::npos) cut = sp + choose(2, "sp"); } break;
        case 3: cut = n - std::min<size_t>(n, small(16, "end")); break;
        case 4: cut = std::min<size_t>(n, small(16, "start")); break;
    }
    return cut;
}
std::string corrupt(std::string s, unsigned edits) {
    for (unsigned e = 0; e < edits; ++e) {
        size_t n = s.size();
        if (!n) { s += char(choose(256, "byte")); continue; }
        size_t at = choose(uint32_t(n), "at");
        unsigned kind = choose(9, "damage");
        fault(F_CORRUPT);
        switch (kind) {
            case 0: s[at] = char(s[at] ^ (1 << choose(8, "bit"))); break;
            case 1: { size_t l = std::min<size_t>(n - at, 1 + small(64, "len")); std::fill(s.begin() + long(at), s.begin() + long(at + l), '\0'); } break;
            case 2: { size_t l = std::min<size_t>(n - at, 1 + small(64, "len")); s.insert(at, s.substr(at, l)); } break;   // duplicated block
            case 3: { size_t l = std::min<size_t>(n - at, 1 + small(64, "len")); s.erase(at, l); } break;                   // lost block
            case 4: s[at] = char(choose(256, "byte")); break;
            case 5: { // a number becomes another one
                size_t a = at; while (a < n && !(s[a] >= '0' && s[a] <= '9')) ++a;
                size_t b = a; while (b < n && s[b] >= '0' && s[b] <= '9') ++b;
                static const char* const nums[] = {"0", "1", "2", "3", "7", "255", "256", "65535", "65536", "4294967295", "4294967288", "2147483648", "4294967296", "18446744073709551615", "18446744073709551616", "-1", "1000000", "300", "641", "6700417", "101", "1000"};
                if (a < b) s.replace(a, b - a, nums[choose(22, "num")]);
            } break;
            case 6: s.resize(at); fault(F_TORN); break;
            case 7: { size_t l = std::min<size_t>(n - at, 1 + small(64, "len")); size_t from = choose(uint32_t(n), "from"); l = std::min(l, n - from); s.replace(at, l, s.substr(from, l)); } break; // foreign block
            case 8: { // swap two lines
                size_t a = s.find('\n', at); if (a == std::string::npos) break;
                size_t b = s.find('\n', a + 1); if (b == std::string::npos) break;
                size_t st = s.rfind('\n', a ? a - 1 : 0); st = st == std::string::npos ? 0 : st + 1;
                if (st > a) break;
                std::string l1 = s.substr(st, a + 1 - st), l2 = s.substr(a + 1, b - a);
                s.replace(st, b + 1 - st, l2 + l1);
            } break;
        }
    }
    return s;
}
std::string show(Img const& i) { return std::to_string(i.w) + "x" + std::to_string(i.h) + ":" + quote(i.px, 80); }
std::string show(std::vector<G> const& gs) { return std::to_string(gs.size()) + " glyphs " + quote(enc_glyphs(gs), 300); }
}
