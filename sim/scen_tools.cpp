// C08, C09, C13 (tools), C14: the command-line programs and the learning script.
#include "scen.hpp"
#include <sstream>
#include <map>
#include <set>
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" typedef int (*main_t)(int, char**);
struct Tool { const char* name; main_t fn; };
extern const Tool g_tools[];
extern const unsigned g_ntools;

namespace sim {
using namespace ad;

enum Kind { K_IMG, K_GLYPHS, K_TABLE, K_DICT, K_WLINES, K_WORDS, K_TEXT };
struct Input { std::string path; Kind kind; std::vector<size_t> bounds; unsigned lum = 128; };
struct Job {
    unsigned tool;
    std::vector<std::string> args;
    std::vector<Input> in;
    std::vector<std::string> words;      // make_trie
    std::vector<G> gs;                   // expected / given glyphs
    std::vector<Img> segs;
    std::string expect;                  // exact output, if known
    bool exact = false;
    Img line;
};
struct Run { Exit e; std::string out; };

static Run run_tool(Job const& j, std::function<void()> env = [] {}) {
    memset(A->files, 0, sizeof A->files);
    out_reset();
    Run r;
    r.e = fork_exit([&]() -> int {
        std::vector<char*> av;
        { Harness h; av.push_back(const_cast<char*>(g_tools[j.tool].name)); for (auto& a : j.args) av.push_back(const_cast<char*>(a.c_str())); av.push_back(nullptr); }
        env();
        paint_stack(128 << 10);
        errno = 0;
        tl_lib = 1; A->in_lib = 1;
        return g_tools[j.tool].fn(int(av.size()) - 1, av.data());
    });
    A->in_lib = 0;
    r.out = out_bytes();
    ev("tool", j.tool, uint64_t(r.e.code)); evs("out", r.out);
    note("%s: %s, %zu bytes of output", g_tools[j.tool].name, r.e.str().c_str(), r.out.size());
    if (r.e.memerr) violation("memory-error", "%s: memory error (%s)\n%s", g_tools[j.tool].name, r.e.str().c_str(), asan_head().c_str());
    return r;
}
static void put(Job& j, std::string path, Kind k, std::string content, std::vector<size_t> bounds = {}, unsigned lum = 128) {
    add_file(path, std::move(content));
    j.args.push_back(path);
    for (auto& i : j.in) if (i.path == path) return;
    j.in.push_back({path, k, std::move(bounds), lum});
}
static std::string gen_picture(Img& im, unsigned lum) {    // im becomes what the bytes encode
    static const unsigned t[] = {4, 6, 1, 3};
    unsigned k = choose(4, "type");
    std::string s = k == 1 ? enc_p6(im, lum, choose(2, "exact")) : enc_image(im, t[k]);
    if (k == 1 && !dec_image(s, lum, im)) harness_error("encoder");
    return s;
}
static std::vector<Img> gen_shapes(unsigned maxn, std::vector<G> const* from = nullptr) {
    std::vector<Img> s;
    unsigned n = small(maxn + 1, "shapes");
    for (unsigned i = 0; i < n; ++i) s.push_back(from && !from->empty() && choose(4, "known") ? (*from)[choose(uint32_t(from->size()), "which")].img : gen_shape(12, 14));
    if (chance(1, 24, "large")) switch (choose(2, "what")) {
        case 0: s.push_back(gen_big(true)); break;
        default: for (unsigned k = 20 + choose(30, "many"); k; --k) s.push_back(choose(3, "dot") ? Img{1 + choose(3, "w"), 1, std::string(3, 'x')} : from && !from->empty() ? (*from)[choose(uint32_t(from->size()), "which")].img : corpus_img());
            for (auto& i : s) i.px.resize(size_t(i.w) * i.h);
    }
    return s;
}
// what normalisation means: one record per picture, with the union of the names
static std::map<std::string, std::set<std::string>> pictures(std::vector<G> const& gs) {
    std::map<std::string, std::set<std::string>> m;
    for (auto& g : gs) {
        auto& s = m[std::to_string(g.img.w) + "x" + std::to_string(g.img.h) + ":" + g.img.px];
        for (auto& v : g.views) s.insert(v.word + " " + v.font + " " + std::to_string(v.line));
    }
    return m;
}
static std::vector<G> parse_lib(std::string const& text, const char* what) {
    std::istringstream is(text);
    std::vector<G> gs; std::string err;
    if (!read_glyphs(is, gs, err)) violation("bad-output", "%s is not a complete glyph library: %s", what, quote(text, 300).c_str());
    return gs;
}
static void check_normal(std::vector<G> const& src, std::string const& text, const char* what) {
    auto gs = parse_lib(text, what);
    auto want = pictures(src), got = pictures(gs);
    if (gs.size() != got.size()) violation("not-normalised", "%s holds the same picture twice", what);
    if (want != got) violation("wrong-glyphs", "%s is not made of all the glyphs it comes from: %zu pictures, expected %zu", what, got.size(), want.size());
}
// the normal form of extracted glyphs (one name each): pictures by width, height and pixels, each once, its names in order, each once
static std::string normal_form(std::vector<G> const& src) {
    typedef std::pair<std::pair<unsigned, unsigned>, std::string> P;
    typedef std::pair<std::pair<std::string, std::string>, unsigned> N;
    std::map<P, std::set<N>> m;
    for (auto& g : src) for (auto& v : g.views) m[P{{g.img.w, g.img.h}, g.img.px}].insert(N{{v.word, v.font}, v.line});
    std::vector<G> r;
    for (auto& p : m) { G g; g.img = Img{p.first.first.first, p.first.first.second, p.first.second}; for (auto& n : p.second) g.views.push_back({n.first.first, n.first.second, n.second}); r.push_back(g); }
    return enc_glyphs(r);
}
static Img near_copy(Img i) {      // another picture of the same kind
    switch (choose(4, "variant")) {
        case 0: { unsigned y = choose(i.h, "row"); i.px.insert(size_t(y) * i.w, i.px.substr(size_t(y) * i.w, i.w)); ++i.h; } break;
        case 1: { unsigned x = choose(i.w, "col"); std::string p; for (unsigned y = 0; y < i.h; ++y) { auto q = i.px.substr(size_t(y) * i.w, i.w); q.insert(x, 1, q[x]); p += q; } i.px = p; ++i.w; } break;
        case 2: { auto& c = i.px[choose(uint32_t(i.px.size()), "px")]; c = c == 'x' ? '-' : 'x'; } break;
        default: std::swap(i.px[choose(uint32_t(i.px.size()), "px")], i.px[choose(uint32_t(i.px.size()), "px")]);     // as much ink
    }
    return i;
}
static Img scaled(Img const& i, unsigned n) {       // the same shape, of which the features say the same
    Img r{i.w * n, i.h * n, {}};
    for (unsigned y = 0; y < r.h; ++y) for (unsigned x = 0; x < r.w; ++x) r.px += i.px[size_t(y / n) * i.w + x / n];
    return r;
}
std::vector<G> model_glyphs(unsigned maxn, unsigned crowd) {
    std::vector<G> r;
    std::set<std::string> seen;
    for (auto& g : gen_glyphs(maxn, true)) if (seen.insert(show(g.img) + g.img.px).second) r.push_back(g);
    auto variant = [&](G const& g) {      // another picture of the same word: the recogniser compares the pictures of a word with each other
        G v = g; v.img = near_copy(g.img);
        if (seen.insert(show(v.img) + v.img.px).second) r.push_back(v);
    };
    if (chance(1, 8, "wide")) {   // a picture of which one blank zone is a tiny part
        G g; unsigned w = 100 + choose(40, "w"), h = 3 + choose(5, "h"), col = 1 + choose(3, "col");
        g.img = Img{w, h, std::string(size_t(w) * h, '-')};
        for (unsigned x = 0; x < w; ++x) g.img.px[(h / 2) * w + x] = 'x';
        for (unsigned y = 0; y < h; ++y) g.img.px[y * w + w - 1 - col] = 'x';
        g.views.push_back({"-+", "f", 0});
        r.push_back(g);
        variant(g);
    }
    if (!r.empty() && choose(3, "family") == 0) {
        unsigned n = 1 + choose(3, "members");
        for (unsigned k = 0; k < n; ++k) { G g = r[choose(uint32_t(r.size()), "of")]; variant(g); }
    }
    if (!r.empty() && choose(3, "ambiguous") == 0) {     // pictures with several names, and nearly the same pictures under other names
        static const char* const ls[] = {"a", "b", "c", "e", "l", "I", "1", "n", "o", "O", "0", "s", "S", "t", "u", ",", "'"};
        static const char* const fs[] = {"f", "f2", "f3"};
        std::vector<G> old = r;
        if (choose(2, "bars")) {      // bars of one proportion: several records fit a picture equally well, or nearly
            unsigned w = 1 + choose(3, "w"), h = 1 + choose(14, "h");
            for (unsigned k = 1; k < 5; ++k) if (choose(2, "bar")) {
                unsigned b = w * k, a = h * k + (choose(3, "longer") ? 0 : 1);
                G g; g.img = Img{b, a, std::string(size_t(b) * a, 'x')}; g.views.push_back({ls[choose(17, "as")], fs[choose(3, "in")], 0});
                if (seen.insert(show(g.img) + g.img.px).second) { r.push_back(g); if (r.size() > 1 && choose(2, "first")) std::swap(r.front(), r.back()); }
            }
        }
        for (auto& g : r) {
            if (choose(2, "several")) for (unsigned k = 1 + choose(3, "more"); k; --k) g.views.push_back({ls[choose(17, "as")], fs[choose(3, "in")], 0});
            else if (choose(2, "single")) g.views.assign(1, {ls[choose(17, "as")], fs[choose(3, "in")], 0});
        }
        for (auto& g : old) if (choose(2, "twin?")) { G v = g; v.views.assign(1, {ls[choose(17, "as")], fs[choose(3, "in")], 0});
            if (choose(2, "scaled") && v.img.w * v.img.h < 300) { v.img = scaled(v.img, 2 + choose(2, "times")); if (seen.insert(show(v.img) + v.img.px).second) r.push_back(v); }
            else variant(v); }
    }
    if (crowd && chance(1, crowd, "crowd")) {   // more glyphs than small counters and caches hold
        static const unsigned ns[] = {20, 33, 60, 65, 129, 250, 257, 300};
        std::vector<Img> im; add_crowd(im, ns[choose(8, "glyphs")], seen);
        uint32_t s = choose(1u << 16, "names"), names = 1 + choose(300, "different");
        for (auto& i : im) {
            G g; g.img = std::move(i);
            for (unsigned k = 1 + lcg(s) % 8 / 7; k; --k) g.views.push_back({"w" + std::to_string(lcg(s) % names), "f" + std::to_string(lcg(s) % 9), lcg(s) % 9});
            r.push_back(std::move(g));
        }
    }
    if (r.empty()) { G g; g.img = corpus_img(); g.views.push_back({"a", "f", 0}); r.push_back(g); }
    return r;
}
static Job make_job(unsigned tool, bool light = false, bool huge = false) {
    if (huge) huge_run();
    Job j;
    j.tool = tool;
    unsigned lum = 128;
    switch (tool) {
        case 0: {
            unsigned n = 1 + small(3, "files");
            for (unsigned i = 0; i < n; ++i) {
                auto w = huge && !i ? gen_huge_words() : gen_words(choose(3, "many") ? 5 : 60);
                std::string s; for (auto& x : w) s += x + "\n";
                if (!s.empty() && choose(4, "nonl") == 0) s.pop_back();
                j.words.insert(j.words.end(), w.begin(), w.end());
                put(j, "/sim/words" + std::to_string(i), K_WORDS, s);
            }
        } break;
        case 1: case 2: {
            unsigned n = 1 + small(tool == 1 ? 3 : 2, "files");
            if (choose(2, "-l")) { static const unsigned ls[] = {100, 1, 129, 255}; lum = ls[choose(4, "lum")]; j.args = {"-l", std::to_string(lum)}; }
            j.exact = true;
            bool bulky = chance(1, 6, "bulky");     // what one picture gives is more than is kept before it is written out, and others follow
            if (bulky) n = 2 + choose(2, "files");
            for (unsigned i = 0; i < n; ++i) {
                auto shapes = gen_shapes(light ? 3 : 5);
                if (bulky && (!i || !choose(3, "bulk"))) {
                    uint32_t s = choose(1u << 16, "texture"); unsigned w = 40 + choose(60, "w"), h = 30 + choose(100, "h");
                    Img im{w, h, std::string(size_t(w) * h, 'x')};
                    for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) if (y && x + 1 < w && lcg(s) % 2) im.px[y * w + x] = '-';
                    shapes.push_back(im);
                }
                else if (bulky && choose(2, "nothing")) shapes.clear();
                if (huge && !i) {
                    static const unsigned ns[] = {257, 1025, 12000};
                    unsigned k = ns[choose(3, "many")], s = choose(1u << 16, "texture");
                    while (k--) { s = s * 1664525u + 1013904223u; unsigned w = 1 + (s >> 20) % 3; shapes.push_back(Img{w, 1, std::string(w, 'x')}); }
                }
                Img line = compose_line(shapes);
                std::string pic = gen_picture(line, lum);
                auto seg = segment(line);
                put(j, "/sim/img" + std::to_string(i), K_IMG, pic, {}, lum);
                std::string txt, font = gen_font();
                std::vector<G> rec;
                for (auto& s : seg) {
                    G g; g.img = s; g.views.push_back({gen_word(), font, ~0u});
                    txt += g.views[0].word + (choose(3, "sep") ? "\n" : "  ");
                    rec.push_back(g);
                    if (tool == 2) { std::ostringstream os; write_image(os, s); j.expect += os.str() + "\n"; }
                }
                if (tool == 1) { put(j, "/sim/txt" + std::to_string(i), K_TEXT, txt); j.args.push_back(font); j.expect += enc_glyphs(rec); }
            }
        } break;
        case 3: {
            unsigned n = 1 + small(2, "files");
            for (unsigned i = 0; i < n; ++i) {
                auto gs = huge && !i ? gen_huge_glyphs() : gen_glyphs(light ? 4 : 8, choose(2, "corpus?"));
                if (!huge) for (auto& g : gs) if (!j.gs.empty() && choose(3, "dup") == 0) g.img = j.gs[choose(uint32_t(j.gs.size()), "which")].img;
                std::vector<size_t> b; std::string t = enc_glyphs(gs, &b);
                j.gs.insert(j.gs.end(), gs.begin(), gs.end());
                put(j, "/sim/glyphs" + std::to_string(i), K_GLYPHS, t, b);
            }
        } break;
        case 4: {
            j.gs = gen_glyphs(light ? 3 : 5, true);
            std::vector<size_t> b; std::string t = enc_glyphs(j.gs, &b);
            put(j, "/sim/glyphs", K_GLYPHS, t, b);
            j.exact = true; j.expect = table_text(j.gs);
        } break;
        default: {
            bool ties = chance(1, 4, "fonts");     // two fonts, named about equally often
            j.gs = model_glyphs(ties ? 8 : light ? 4 : 8, 60);
            if (ties) {
                std::string f1 = gen_font(), f2 = gen_font();
                unsigned k = 0;
                for (auto& g : j.gs) {
                    g.views.clear();
                    std::string w(1, char('a' + k % 26)), w2(1, char('A' + k % 26)); ++k;
                    switch (choose(3, "fonts of")) {
                        case 0: g.views.push_back({w, f1, k}); break;
                        case 1: g.views.push_back({w, f2, k}); break;
                        default: g.views.push_back({w, f1, k}); g.views.push_back({w2, f2, k});
                    }
                }
            }
            std::vector<size_t> b, wb; std::string t = enc_glyphs(j.gs, &b);
            put(j, "/sim/glyphs", K_GLYPHS, t, b);
            put(j, "/sim/table", K_TABLE, table_text(j.gs));
            std::vector<Img> sh;
            if (ties) { for (auto& g : j.gs) if (sh.size() < 7) sh.push_back(g.img); unsigned r = choose(uint32_t(sh.size()), "first"); std::rotate(sh.begin(), sh.begin() + r, sh.end()); }
            else {
                sh = gen_shapes(light ? 3 : 5, &j.gs);
                for (auto& s : sh) if (choose(3, "near") == 0) s = near_picture(std::move(s));
                if (chance(1, 30, "long line")) {    // more characters than small caches hold, some of which come back
                    static const unsigned ns[] = {9, 17, 33, 65, 129, 257, 270};
                    std::set<std::string> seen; std::vector<Img> pool = sh; for (auto& g : j.gs) if (pool.size() < 40) pool.push_back(g.img);
                    unsigned n = ns[choose(7, "characters")]; uint32_t s = choose(1u << 16, "order");
                    for (auto& i : pool) seen.insert(show(i) + i.px);
                    add_crowd(pool, n, seen);
                    for (unsigned k = 0; k < pool.size() && sh.size() < n; ++k) { sh.push_back(pool[pool.size() - 1 - k]); if (lcg(s) % 4 == 0) sh.push_back(sh[lcg(s) % sh.size()]); }
                    for (unsigned k = 0; k < 6; ++k) sh.push_back(sh[lcg(s) % sh.size()]);
                }
            }
            j.line = compose_line(sh);
            std::string pic = gen_picture(j.line, 128);
            j.segs = segment(j.line);
            put(j, "/sim/img", K_IMG, pic);
            unsigned opt = choose(3, "options");
            std::vector<std::string> names;
            for (auto& g : j.gs) for (auto& v : g.views) names.push_back(v.word);
            if (tool == 5 && opt >= 1) { auto wl = gen_wlines(8, names); std::string s = enc_wlines(wl, &wb); put(j, "/sim/wl", K_WLINES, s, wb); }
            if (opt >= 2) {
                std::vector<std::string> w = gen_words(6);
                for (unsigned k = 0; k < 4; ++k) { std::string s; unsigned l = 1 + choose(5, "len"); for (unsigned i = 0; i < l; ++i) s += names[choose(uint32_t(names.size()), "name")]; w.push_back(s); }
                put(j, "/sim/dict", K_DICT, dict_text(w));
            }
        }
    }
    std::string s; for (auto& a : j.args) s += " " + a;
    note("%s%s", g_tools[tool].name, s.c_str());
    return j;
}
static void check_clean(Job const& j, Run const& r) {
    const char* n = g_tools[j.tool].name;
    if (!r.e.ok()) violation("refused", "%s fails on well-formed input (%s)", n, r.e.str().c_str());
    for (auto& i : j.in) {
        SimFile& f = *find_file(i.path);
        if (!f.st().opens) violation("input-not-read", "%s ended successfully without opening %s", n, i.path.c_str());
        if (f.st().bytes < f.content.size() && !f.st().eof) violation("input-not-read", "%s ended successfully after reading %llu of the %zu bytes of %s", n, (unsigned long long)f.st().bytes, f.content.size(), i.path.c_str());
    }
    if (j.exact && r.out != j.expect) violation("wrong-output", "%s wrote %s, expected %s", n, quote(r.out, 400).c_str(), quote(j.expect, 400).c_str());
    if (j.tool == 0) {
        std::istringstream is(r.out); std::string err;
        Dict* d = dict_new({});
        if (!dict_read(is, *d, err)) violation("bad-output", "the dictionary written cannot be read: %s", err.c_str());
        check_dict(*d, word_set(j.words), j.words, "the dictionary written");
        if (dict_count(*d) != word_set(j.words).size()) violation("wrong-words", "the dictionary written holds %zu words, the input files %zu", dict_count(*d), word_set(j.words).size());
        dict_free(d);
    }
    if (j.tool == 3) check_normal(j.gs, r.out, "the library written");
    if (j.tool >= 6) {   // the earlier recognisers
        auto has = [&](std::string const& s) { return r.out.find(s) != std::string::npos; };
        auto num = "datas.size(): " + std::to_string(j.gs.size()) + "\n", numg = "glyphs.size(): " + std::to_string(j.gs.size()) + "\n";
        if (!has(num) || !has(numg) || !has("\n ## result1: ") || !has("\n ## result2: ") || !has("\n ## result3: "))
            violation("wrong-output", "the report of %s does not match its %zu glyphs: %s", n, j.gs.size(), quote(r.out, 600).c_str());
    }
    if (j.tool == 5) {
        auto has = [&](std::string const& s) { return r.out.find(s) != std::string::npos; };
        if (!has(" ## result: ") || !has("\ncount: " + std::to_string(j.segs.size()) + "\n") || !has("glyphs.size(): " + std::to_string(j.gs.size()) + "\n") || !has("datas.size(): " + std::to_string(j.gs.size()) + "\n"))
            violation("wrong-output", "the recogniser's report does not match its %zu glyphs and %zu characters: %s", j.gs.size(), j.segs.size(), quote(r.out, 600).c_str());
    }
}
// 1: a run on this beginning of the file has to fail
static bool cut_must_fail(Input const& i, std::string const& text, size_t cut) {
    auto torn = [&] { for (size_t k = 0; k < i.bounds.size(); ++k) if (i.bounds[k] == cut || (k && i.bounds[k] == cut + 1)) return false; return true; };
    Img im;
    switch (i.kind) {
        case K_IMG: return !dec_image(text.substr(0, cut), i.lum, im);
        case K_GLYPHS: case K_WLINES: return torn();
        case K_TABLE: return text.find_first_not_of(" \n", cut) != std::string::npos;
        case K_DICT: return cut && cut + 1 < text.size();
        default: return false;
    }
}
static void draw_out(size_t size) {
    g_out = OutCfg{};
    switch (choose(6, "outfault")) {
        case 0: g_out.capacity = long(choose(uint32_t(size + 1), "cap")); g_out.err = ENOSPC; break;
        case 1: g_out.capacity = long(choose(uint32_t(size + 1), "cap")); g_out.err = EIO; break;
        case 2: g_out.capacity = long(choose(uint32_t(size + 1), "cap")); g_out.err = choose(2, "errno") ? EIO : ENOSPC; g_out.transient = true; break;
        case 3: g_out.shorts = true; break;
        case 4: g_out.eintr_budget = 1 + choose(4, "eintr"); break;
        case 5: g_out.closed = true; break;
    }
    note("plan for standard output: capacity %ld, transient %d, short %d, interruptions %u, closed %d", g_out.capacity, g_out.transient, g_out.shorts, g_out.eintr_budget, g_out.closed);
}

// ---- C08 --------------------------------------------------------------------------------
void c08() {
    static const unsigned weights[] = {0, 0, 1, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7};
    unsigned which = weights[choose(13, "tool")];
    Job j = make_job(which, true, which <= 3 && chance(1, 250, "huge"));
    const char* n = g_tools[j.tool].name;
    g_read = ReadCfg{};
    Run clean = run_tool(j);
    check_clean(j, clean);
    nontrivial();
    unsigned tries = 1 + choose(4, "tries");
    for (unsigned t = 0; t < tries; ++t) {
        Input& in = j.in[choose(uint32_t(j.in.size()), "input")];
        SimFile& f = *find_file(in.path);
        std::string content = f.content;
        draw_delivery();
        g_out = OutCfg{};
        unsigned what = choose(9, "what");
        bool must_fail = false;
        FK fk = FK_NONE;
        if (what <= 2) draw_out(clean.out.size());
        if (what >= 2 && what <= 5) fk = draw_fault(f, ~(1u << FK_SHRINK | 1u << FK_GROW));
        if (fk == FK_ALLOC) { g_plan_alloc.n = long(small(j.tool >= 5 ? 2500 : 600, "alloc")); }
        if (what == 6) {
            size_t cut = draw_cut(content);
            if (!cut_must_fail(in, content, cut)) { note("nothing lost"); continue; }
            f.content.resize(cut); fault(F_TORN); must_fail = true;
            note("%s is torn after %zu of %zu bytes", in.path.c_str(), cut, content.size());
        }
        if (what == 7) { f.open_errno = ENOENT; must_fail = true; note("%s is missing", in.path.c_str()); }
        if (what == 8) {      // inputs that do not belong together
            if (in.kind == K_TEXT) {
                bool more = choose(2, "more") || content.find_first_not_of(" \n") == std::string::npos;
                if (more) f.content += " surplus";
                else { f.content.resize(content.find_last_not_of(" \n") + 1); f.content.resize(f.content.find_last_of(" \n") + 1); }
                must_fail = true; fault(F_CORRUPT); note("%s has %s", in.path.c_str(), more ? "a word too many" : "a word too few");
            }
            else if (in.kind == K_GLYPHS && j.tool >= 5) {
                bool more = choose(2, "more");
                if (more) f.content += content.substr(0, in.bounds[1]); else f.content.resize(in.bounds[in.bounds.size() - 2]);
                must_fail = true; fault(F_CORRUPT); note("%s has %s", in.path.c_str(), more ? "a glyph too many" : "a glyph too few");
            }
        }
        Run r = run_tool(j, [&] { g_alloc.countdown = g_plan_alloc.n; g_alloc.persist = g_plan_alloc.persist; });
        if (r.e.ok()) {
            for (auto& i : j.in) {
                SimFile& g = *find_file(i.path);
                if (g.st().open_fails) violation("open-failure-ignored", "%s ended successfully although %s could not be opened", n, i.path.c_str());
                if (g.st().errs) violation("read-error-ignored", "%s ended successfully although reading %s failed", n, i.path.c_str());
            }
            if (must_fail) violation("damage-ignored", "%s ended successfully although %s is torn, missing or does not match", n, in.path.c_str());
            if (r.out != clean.out) violation("output-lost", "%s ended successfully, but %zu bytes reached its output instead of %zu: %s", n, r.out.size(), clean.out.size(), quote(r.out.substr(0, 200), 200).c_str());
        }
        else if (what == 0 && g_out.shorts) violation("failed-without-cause", "%s failed although its output was only accepted in pieces", n);
        f.content = content;
        clear_plan(f);
        g_out = OutCfg{};
    }
}

// ---- C13, tool half -----------------------------------------------------------------------
void c13_tool() {
    Job j = make_job(choose(8, "tool"), true);
    size_t bytes = 0;
    unsigned eintr = 0;
    g_alloc.max = 64u << 20;
    draw_delivery();
    for (auto& i : j.in) {
        SimFile& f = *find_file(i.path);
        if (choose(2, "damage")) f.content = corrupt(f.content, 1 + small(4, "edits"));
        bytes += f.content.size();
    }
    Input& in = j.in[choose(uint32_t(j.in.size()), "input")];
    SimFile& f = *find_file(in.path);
    FK fk = draw_fault(f);
    if (fk == FK_READ_ONCE) f.err_times = 1 + choose(50, "times");
    if (chance(1, 2, "storm")) { g_read.eintr_budget = 1 + choose(300, "eintr"); g_read.eintr_den = 1 + choose(3, "den"); }
    eintr = g_read.eintr_budget;
    bytes += f.content2.size();
    if (chance(1, 3, "outfault")) draw_out(2000);
    // far above what any tool needs for inputs of this size, far below a retry that does not end
    uint64_t area = 0;
    for (auto& i : j.in) { SimFile& g = *find_file(i.path); area += g.content.size() * (i.kind == K_IMG ? 8 : 1); }
    A->tick_limit = 20000000ull + 40000ull * area;
    A->seam_limit = 20000 + 40ull * bytes + 10ull * eintr;
    Run r = run_tool(j, [&] { g_alloc.countdown = g_plan_alloc.n; g_alloc.persist = g_plan_alloc.persist; });
    note("%llu basic blocks, %llu calls for %zu bytes", (unsigned long long)A->ticks, (unsigned long long)A->seam_ops, bytes);
    nontrivial();
}

// ---- C16, tool half -----------------------------------------------------------------------
void c16_tool() {
    Job j = make_job(choose(8, "tool"), true);
    unsigned how = choose(3, "how");
    if (how == 2 && j.tool >= 5) switch (fault(F_CORRUPT), choose(5, "which")) {
        case 4: find_file("/sim/glyphs")->content = enc_glyphs_lying(j.gs); break;
        case 0: case 1: {      // intact files that do not belong together
            std::vector<G> gs = j.gs;
            switch (choose(3, "rows")) { case 0: gs.pop_back(); break; case 1: gs.push_back(gs[0]); break; default: for (unsigned k = 1 + choose(200, "more"); k; --k) gs.push_back(gs[k % j.gs.size()]); }
            find_file("/sim/table")->content = table_text(gs); note("the table has %zu rows for %zu glyphs", gs.size(), j.gs.size());
        } break;
        case 2: {              // glyphs without a name
            std::vector<G> gs = j.gs;
            for (unsigned k = 1 + choose(3, "nameless"); k; --k) gs[choose(uint32_t(gs.size()), "which")].views.clear();
            find_file("/sim/glyphs")->content = enc_glyphs(gs); note("a glyph has no name");
        } break;
        default: {             // features that no picture has
            static const char* const vals[] = {"101", "110", "120", "1000", "65535", "4294967295", "2147483648", "-1", "100", "99"};
            std::string& t = find_file("/sim/table")->content; std::string r;
            unsigned lines = unsigned(std::count(t.begin(), t.end(), '\n')), line = 1 + choose(lines, "line"), every = choose(3, "every"), k = 0, n = 0;
            const char* v = vals[choose(10, "value")];
            for (size_t a = 0; a < t.size();) {      // one line per feature, after the number of rows
                size_t e = t.find_first_of(" \n", a); if (e == std::string::npos) e = t.size();
                if (e > a && k == line && n++ % (every + 1) == every) r += v; else r.append(t, a, e - a);
                if (e < t.size()) { r += t[e]; if (t[e] == '\n') ++k; }
                a = e + 1;
            }
            t = r; note("table values replaced by %s", v);
        }
    }
    else for (auto& i : j.in) {
        SimFile& f = *find_file(i.path);
        if (choose(2, "damage")) { f.content = corrupt(f.content, 1 + small(4, "edits")); note("%s is damaged: %s", i.path.c_str(), quote(f.content, 100).c_str()); }
    }
    run_tool(j);
    nontrivial();
}

// ---- C14 --------------------------------------------------------------------------------
void c14() {
    Job j = make_job(choose(4, "tool") ? 5 : 6 + choose(2, "which"), choose(3, "light") != 0);
    bool wl = j.args.size() > 3, di = j.args.size() > 4;
    Run first;
    unsigned n = 2 + choose(2, "envs");
    for (unsigned k = 0; k < n; ++k) {
        g_read = ReadCfg{}; g_out = OutCfg{}; g_clock = ClockCfg{};
        unsigned fill = 0, shift = 0, shuffle = 0, world = 0, reuse = 0;
        if (k) {
            draw_delivery();
            g_clock.mode = choose(4, "clock");
            g_out.shorts = choose(2, "shorts");
            fill = choose(256, "fill"); fault(F_HEAPFILL);
            shift = choose(4, "shift") ? 1 + choose(4000, "n") : 0; if (shift) fault(F_HEAPMOVE);
            shuffle = choose(3, "shuffle") ? 1 + choose(1u << 20, "order") : 0; if (shuffle) fault(F_HEAPMOVE);
            world = choose(1u << 16, "world");
            reuse = choose(2, "reuse"); if (reuse) fault(F_HEAPMOVE);
            note("environment %u: clock %u, delivery %u, short writes %d, memory filled with %#x, heap moved %u, order of blocks %u", k, g_clock.mode, g_read.short_mode, g_out.shorts, fill, shift, shuffle);
        }
        Job jk = j;
        if (k && choose(2, "names")) {      // the same files under other names
            static const char* const dir[] = {"/sim/", "/sim/another/directory/with/a/long/name/", "/sim/z", "/sim/ "};
            std::string d = dir[choose(4, "dir")]; unsigned salt = choose(1000, "salt");
            std::map<std::string, std::string> to;
            for (auto& a : jk.args) if (find_file(a)) {
                auto& t = to[a];
                if (t.empty()) { t = d + std::to_string(salt) + char('z' - to.size()); salt = salt * 7 % 1009; std::string c = find_file(a)->content; add_file(t, c); }
                a = t;
            }
            note("environment %u: the files are called %s and so on", k, jk.args[0].c_str());
        }
        Run r = run_tool(jk, [&] { g_fill = (unsigned char)fill; if (shift) shift_heap(shift); g_shuffle = shuffle; g_world = world; g_reuse = reuse; });
        if (!k) { first = r; check_clean(j, r); continue; }
        nontrivial();
        if (r.e.signaled != first.e.signaled || r.e.code != first.e.code) violation("status-differs", "the recogniser ended with %s, in another environment with %s, on the same input files", first.e.str().c_str(), r.e.str().c_str());
        if (r.out != first.out) {
            size_t d = 0; while (d < r.out.size() && d < first.out.size() && r.out[d] == first.out[d]) ++d;
            size_t s = d > 40 ? d - 40 : 0;
            violation("output-differs", "the recogniser's output depends on more than its input files: at byte %zu %s versus %s", d, quote(first.out.substr(s, 160), 200).c_str(), quote(r.out.substr(s, 160), 200).c_str());
        }
    }
    if (j.tool != 5) return;
    // the library, asked directly, gives the same text (the tool lets equal pictures of a line share
    // one candidate list, so only lines without repeated pictures are compared)
    std::set<std::string> kinds;
    for (auto& s : j.segs) kinds.insert(std::to_string(s.w) + ":" + s.px);
    if (kinds.size() != j.segs.size()) return;
    g_read = ReadCfg{}; g_out = OutCfg{};
    std::string lib = in_fork([&] {
        Model* m = nullptr; std::string err, res;
        if (!model_load("/sim/glyphs", "/sim/table", di ? "/sim/dict" : nullptr, wl ? "/sim/wl" : nullptr, m, err)) harness_error("model: %s", err.c_str());
        Work* w = work_new(*m, err);
        if (!w || !recognise_line(*m, *w, j.line, res, err)) harness_error("recognise: %s", err.c_str());
        return res;
    });
    std::string res = lib.substr(0, lib.rfind('|')); res = res.substr(0, res.rfind('|'));
    size_t p = first.out.rfind(" ## result: ");
    std::string tail = first.out.substr(p + 12);
    if (tail.compare(0, res.size() + 1, res + "\n")) violation("text-differs", "the tool recognises %s, the library %s, from the same files", quote(tail, 200).c_str(), quote(res).c_str());
}

// ---- C10, tool half -----------------------------------------------------------------------
// the recogniser itself, on a line in which pictures come back and resemble each other: what it reports
// for each picture is what a new recogniser finds for that picture alone
// the earlier recognisers: each character of a line gets the names that it gets on a line of its own
static void c10_early() {
    Job j = make_job(6 + choose(2, "which"), true);
    unsigned fill = choose(256, "fill"); fault(F_HEAPFILL);
    auto run = [&](size_t chars, std::vector<std::string>* res) {
        Run r = run_tool(j, [&] { g_fill = (unsigned char)fill; });
        check_clean(j, r);
        for (unsigned k = 0; k < 2; ++k) {
            std::string head = "\n ## result" + std::to_string(k + 1) + ": ", tail = "\n ## result" + std::to_string(k + 2) + ": ";
            size_t e = r.out.rfind(tail), b = r.out.rfind(k ? head : head.substr(1), e);
            if (b == std::string::npos) violation("wrong-output", "the report of %s is not complete: %s", g_tools[j.tool].name, quote(r.out, 300).c_str());
            b += head.size() - !k;
            std::istringstream is(r.out.substr(b, e - b)); std::string w;
            while (is >> w) res[k].push_back(w);
            if (res[k].size() != chars) violation("wrong-output", "%s names %zu characters of a line of %zu: %s", g_tools[j.tool].name, res[k].size(), chars, quote(r.out.substr(b, e - b), 300).c_str());
        }
        // the third result: without a dictionary, the first candidate of each character; the signs that separate
        // words (and characters without a candidate, shown as one) are left out at the beginning of a line
        size_t b = r.out.rfind("\n ## result3: ") + 14;
        std::string t;
        for (size_t a = b; a < r.out.size(); ++a) if (!strchr(" \n'\",.!?", r.out[a])) t += r.out[a];
        return t;
    };
    bool plain = j.in.size() < 4;      // no dictionary
    std::vector<std::string> all[2];
    std::string third = run(j.segs.size(), all);
    std::map<std::string, std::string> alone;
    std::map<std::string, size_t> seen;
    for (size_t i = 0; i < j.segs.size(); ++i) {
        auto& s = j.segs[i];
        auto at = seen.emplace(std::to_string(s.w) + ":" + s.px, i);
        if (!at.second) {     // a picture that came back
            for (unsigned k = 0; k < 2; ++k) if (all[k][i] != all[k][at.first->second]) violation("history-dependent", "%s names the same picture %s and then %s", g_tools[j.tool].name, quote(all[k][at.first->second]).c_str(), quote(all[k][i]).c_str());
            continue;
        }
        if (seen.size() > 8) continue;
        Img line = compose_line({s});
        auto seg = segment(line);
        if (seg.size() != 1 || seg[0].w != s.w || seg[0].px != s.px) continue;
        find_file("/sim/img")->content = enc_image(line, 1);
        std::vector<std::string> one[2];
        alone[std::to_string(s.w) + ":" + s.px] = run(1, one);
        for (unsigned k = 0; k < 2; ++k) if (one[k][0] != all[k][i])
            violation("history-dependent", "%s names picture %zu of a line %s, alone %s", g_tools[j.tool].name, i, quote(all[k][i]).c_str(), quote(one[k][0]).c_str());
        nontrivial();
    }
    if (!plain || alone.size() != seen.size()) return;
    std::string want;
    for (auto& s : j.segs) want += alone[std::to_string(s.w) + ":" + s.px];
    if (third != want) violation("history-dependent", "%s reads a line of %zu pictures as %s, one by one they give %s", g_tools[j.tool].name, j.segs.size(), quote(third).c_str(), quote(want).c_str());
}
void c10_tool() {
    if (choose(3, "recogniser") == 0) { c10_early(); return; }
    Job j = make_job(5, choose(3, "light") != 0);
    unsigned fill = choose(256, "fill"); fault(F_HEAPFILL);
    Run r = run_tool(j, [&] { g_fill = (unsigned char)fill; });
    check_clean(j, r);
    std::string want;
    std::set<std::string> seen;
    for (auto& s : j.segs) {
        if (!seen.insert(std::to_string(s.w) + ":" + s.px).second) continue;
        std::string words = in_fork([&] {
            Model* m = nullptr; std::string err, res;
            if (!model_load("/sim/glyphs", "/sim/table", nullptr, nullptr, m, err)) harness_error("model: %s", err.c_str());
            Work* w = work_new(*m, err);
            if (!w || !recognise(*m, *w, s, res, err)) harness_error("recognise: %s", err.c_str());
            return res;
        });
        std::ostringstream os; write_image(os, s); want += os.str();
        for (size_t a = 0; a < words.size();) { size_t e = words.find(' ', a); std::string x = words.substr(a, e - a); want += x.substr(0, x.rfind('/')) + " "; a = e + 1; }
        want += "\n";
    }
    size_t b = r.out.find(" ## go\n"), e = r.out.rfind(" ## result: ");
    if (b == std::string::npos || e == std::string::npos || e < b + 7) violation("wrong-output", "the recogniser's report is not complete: %s", quote(r.out, 300).c_str());
    std::string got = r.out.substr(b + 7, e - b - 7);
    if (got != want) {
        size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) ++d;
        size_t s = d > 200 ? d - 200 : 0;
        violation("history-dependent", "on a line of %zu pictures (%zu different ones) the recogniser reports %s, alone they give %s (byte %zu)", j.segs.size(), seen.size(), quote(got.substr(s, 300), 300).c_str(), quote(want.substr(s, 300), 300).c_str(), d);
    }
    nontrivial();
}

// ---- C09 --------------------------------------------------------------------------------
static void mkdirs(std::string const& p) { for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0777); }
static void spit(std::string const& p, std::string const& s, unsigned mode = 0644) {
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, mode);
    if (fd < 0) harness_error("%s: %s", p.c_str(), strerror(errno));
    if (::write(fd, s.data(), s.size()) != ssize_t(s.size())) harness_error("%s: %s", p.c_str(), strerror(errno));
    ::close(fd);
}
static bool slurp(std::string const& p, std::string& s) {
    int fd = ::open(p.c_str(), O_RDONLY);
    if (fd < 0) return false;
    s.clear(); char b[65536]; ssize_t n;
    while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, size_t(n));
    ::close(fd);
    return true;
}
static std::string self_copy() {   // tools run as an unprivileged user from a world-readable place
    const char* d = getenv("PPSIM_SCRATCH");
    std::string dir = d && *d ? d : "/tmp/ppsim-scratch";
    mkdirs(dir); chmod(dir.c_str(), 0755);
    std::string exe = dir + "/ppsim";
    struct stat a, b;
    if (stat("/proc/self/exe", &a)) harness_error("self");
    if (stat(exe.c_str(), &b) || a.st_size != b.st_size || a.st_mtime > b.st_mtime) {
        std::string s, t = exe + "." + std::to_string(getpid());
        if (!slurp("/proc/self/exe", s)) harness_error("self");
        spit(t, s, 0755); chmod(t.c_str(), 0755);
        if (rename(t.c_str(), exe.c_str())) harness_error("self: %s", strerror(errno));
    }
    return dir;
}
static const char* const artefacts[] = {
    "glyphs/normalized-glyphs-latin.txt", "glyphs/normalized-glyphs-cyrillic.txt", "glyphs/normalized-glyphs-latin-cyrillic.txt",
    "datas/latin.txt", "datas/cyrillic.txt", "datas/latin-cyrillic.txt"};
static const char* const inter[] = {"glyphs/glyphs-latin.txt", "glyphs/glyphs-cyrillic.txt"};
struct Learn { bool signaled; int code; std::map<std::string, std::string> files; std::string log, rmlog; bool ok() const { return !signaled && code == 0; } };
static std::string g_root;
static void chown_all(std::string const& d, std::vector<std::string> const& all) { for (auto& x : all) (void)!chown((d + x).c_str(), 65534, 65534); }

// every process of the run sleeps: sum of their context switches, or -1
static void tree_of(pid_t p, std::vector<pid_t>& out) {
    out.push_back(p);
    std::string s, d = "/proc/" + std::to_string(p) + "/task/" + std::to_string(p) + "/children";
    if (!slurp(d, s)) return;
    for (char* c = s.data(); *c;) { char* e; long v = strtol(c, &e, 10); if (e == c) break; tree_of(pid_t(v), out); c = e; }
}
static long asleep(pid_t p, unsigned& n) {
    std::vector<pid_t> all; tree_of(p, all);
    n = unsigned(all.size());
    long sum = 0;
    for (auto q : all) {
        std::string s;
        if (!slurp("/proc/" + std::to_string(q) + "/status", s)) return -1;
        auto st = s.find("\nState:\t"), cs = s.find("\nvoluntary_ctxt_switches:\t");
        if (st == std::string::npos) return -1;
        char c = s[st + 8];
        if (c == 'Z' && q != p) continue;
        if (c != 'S') return -1;
        if (cs != std::string::npos) sum += q + atol(s.c_str() + cs + 26);
    }
    return sum;
}
// The steps of a run wait for their turn; when nothing else in the run can go on, one of them is chosen.
static bool drive(pid_t pid, StepTable* st) {
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    int pfd = int(syscall(SYS_pidfd_open, pid, 0));
    bool ended = false;
    long last = -1;
    for (;;) {
        pollfd pf{pfd, POLLIN, 0};
        struct timespec w{0, last < 0 ? 200000 : 20000};
        if (ppoll(&pf, 1, &w, nullptr) > 0) { ended = true; break; }
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (t1.tv_sec - t0.tv_sec > 90) break;
        int c = __atomic_load_n(&st->count, __ATOMIC_SEQ_CST);
        bool any = false;
        for (int i = 0; i < c && i < StepTable::N && !any; ++i) any = __atomic_load_n(&st->slot[i].state, __ATOMIC_SEQ_CST) == 1;
        if (!any) { last = -1; continue; }
        unsigned n;
        long s = asleep(pid, n);
        if (s < 0 || s != last) { last = s; continue; }
        last = -1;
        std::vector<int> ready;
        for (int i = 0; i < c && i < StepTable::N; ++i) if (st->slot[i].state == 1) {
            if (kill(st->slot[i].pid, 0)) st->slot[i].state = 3; else ready.push_back(i);
        }
        if (ready.empty()) continue;
        std::sort(ready.begin(), ready.end(), [&](int a, int b) { int r = strcmp(st->slot[a].who, st->slot[b].who); return r ? r < 0 : st->slot[a].pid < st->slot[b].pid; });
        int k = ready[ready.size() > 1 ? choose(uint32_t(ready.size()), "next step") : 0];
        if (ready.size() > 1) { ++A->agg_preempts; note("of %zu waiting steps: %s", ready.size(), st->slot[k].who); }
        __atomic_store_n(&st->slot[k].state, 2, __ATOMIC_SEQ_CST);
        syscall(SYS_futex, &st->slot[k].state, 1, 1, nullptr, nullptr, 0);
    }
    ::close(pfd);
    return ended;
}
static Learn run_learning(std::string const& plan) {
    uint32_t world = choose(1u << 16, "memory"); fault(F_HEAPFILL); if (world >> 8) fault(F_HEAPMOVE);
    std::string sched = g_root + "/sched";
    spit(sched, std::string(sizeof(StepTable), 0)); chmod(sched.c_str(), 0666);
    int sfd = ::open(sched.c_str(), O_RDWR);
    auto* st_ = static_cast<StepTable*>(mmap(nullptr, sizeof(StepTable), PROT_READ | PROT_WRITE, MAP_SHARED, sfd, 0));
    ::close(sfd);
    if (st_ == MAP_FAILED) harness_error("mmap");
    std::string log = g_root + "/log", rmlog = g_root + "/rmlog";
    spit(log, ""); chmod(log.c_str(), 0666);
    spit(rmlog, ""); chmod(rmlog.c_str(), 0666);
    pid_t pid = fork();
    if (pid < 0) harness_error("fork");
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        if (chdir(g_root.c_str())) _exit(97);
        if (geteuid() == 0 && (setgid(65534) || setuid(65534))) _exit(98);
        int n = ::open("/dev/null", O_RDWR);
        dup2(n, 0); dup2(n, 1); dup2(n, 2);
        syscall(SYS_close_range, 3u, ~0u, 0u);
        std::string p = "PATH=" + g_root + "/bin:/usr/bin:/bin", q = "PPSIM_PLAN=" + log + plan, rr = "PPSIM_ROOT=" + g_root, ww = "PPSIM_WORLD=" + std::to_string(world);
        const char* env[] = {p.c_str(), q.c_str(), rr.c_str(), "LC_ALL=C", "PPSIM_NOASLR=1", ww.c_str(), "ASAN_OPTIONS=detect_leaks=0:exitcode=77:abort_on_error=0", "HOME=/nonexistent", nullptr};
        const char* av[] = {"bash", "./learning", "bin/write_glyphs", "bin/normalize_glyphs", "bin/write_datas", nullptr};
        execve("/bin/bash", const_cast<char**>(av), const_cast<char**>(env));
        _exit(99);
    }
    setpgid(pid, pid);
    int st;
    bool ended = drive(pid, st_);
    kill(-pid, SIGKILL);
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    munmap(st_, sizeof(StepTable));
    if (!ended) violation("hang", "the learning run did not end");
    Learn l;
    l.signaled = WIFSIGNALED(st); l.code = l.signaled ? WTERMSIG(st) : WEXITSTATUS(st);
    if (!l.signaled && l.code >= 97 && l.code <= 99) harness_error("cannot start the script (%d)", l.code);
    for (auto a : artefacts) { std::string s; if (slurp(g_root + "/resources/" + a, s)) l.files[a] = s; }
    for (auto a : inter) { std::string s; if (slurp(g_root + "/resources/" + a, s)) l.files[a] = s; }
    slurp(log, l.log); slurp(rmlog, l.rmlog);
    ev("learning", l.signaled, uint64_t(l.code));
    for (auto& f : l.files) evs(f.first.c_str(), f.second);
    note("learning run: %s %d, %zu files; tools: %s", l.signaled ? "signal" : "status", l.code, l.files.size(), quote(l.log, 400).c_str());
    return l;
}
static int wipe(std::string const& d) {   // below the scratch directory only
    pid_t pid = fork();
    if (!pid) { if (d.size() < 6 || d.find("/run-") == std::string::npos) _exit(1); execl("/bin/rm", "rm", "-rf", "--", d.c_str(), nullptr); _exit(1); }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return st;
}
void c09() {
    const char* repo = getenv("PPSIM_REPO");
    std::string script;
    if (!slurp(std::string(repo && *repo ? repo : "/repo") + "/learning", script)) harness_error("no learning script");
    std::string dir = self_copy();
    g_root = dir + "/run-" + std::to_string(getppid());   // one per worker, wiped by its next run
    wipe(g_root);
    std::vector<std::string> made = {""};
    for (auto d : {"/bin", "/resources", "/resources/glyphs", "/resources/datas", "/resources/fonts"}) { mkdirs(g_root + d); made.push_back(d); }
    spit(g_root + "/learning", script, 0755);
    for (auto t : {"write_glyphs", "normalize_glyphs", "write_datas"}) if (link((dir + "/ppsim").c_str(), (g_root + "/bin/" + t).c_str())) harness_error("link: %s", strerror(errno));   // the script resolves symbolic links
    spit(g_root + "/bin/rm",
        "#!/bin/bash\nfor a in \"$@\"; do\n  case \"$a\" in --|-*) continue;; esac\n  p=\"$(/usr/bin/readlink -f -- \"$a\")\"\n"
        "  case \"$p\" in \"$PPSIM_ROOT\"/resources/*) echo \"R $p\" >> \"$PPSIM_ROOT/rmlog\"; /usr/bin/unlink \"$p\" || exit 1;;\n"
        "    *) echo \"E $p\" >> \"$PPSIM_ROOT/rmlog\"; exit 1;;\n  esac\ndone\n", 0755);
    chmod((g_root + "/bin/rm").c_str(), 0755); chmod((g_root + "/learning").c_str(), 0755);
    // the fonts
    std::map<std::string, std::vector<G>> src;
    unsigned ninv = 6;
    for (std::string lang : {"latin", "cyrillic"}) {
        auto& all = src[lang];
        std::string base = g_root + "/resources/fonts/" + lang;
        for (auto d : {"/generated", "/mano"}) mkdirs(base + d);
        unsigned nl = 1 + choose(3, "letters"), textures = 0;
        if (chance(1, 16, "many")) { nl = 21 + choose(100, "letters"); textures = choose(1u << 16, "texture"); }
        std::vector<std::string> letters; std::string lt;
        for (unsigned i = 0; i < nl; ++i) { letters.push_back(nl > 20 ? "w" + std::to_string(i) : gen_word()); lt += letters.back() + "\n"; }
        spit(base + "/letters", lt);
        auto add = [&](std::string const& path, std::string const& font, std::vector<std::string>* words) {
            Img line; std::vector<Img> seg; std::string pic;
            for (unsigned tries = 0;; ++tries) {
                std::vector<Img> sh;
                unsigned want = words ? unsigned(words->size()) : 1 + choose(3, "shapes");
                for (unsigned i = 0; i < want; ++i) {
                    if (want > 20) { uint32_t t = textures * 2654435761u + i * 40503u; Img m{3 + (t >> 9) % 5, 3, ""}; m.px.assign(m.w * 3, 'x'); for (unsigned x = 1; x < m.w; ++x) { m.px[x] = t >> x & 1 ? 'x' : '-'; m.px[2 * m.w + x] = t >> (x + 8) & 1 ? 'x' : '-'; } sh.push_back(tries < 20 ? m : Img{1, 1, "x"}); }
                    else if (!all.empty() && choose(3, "dup") == 0) { sh.push_back(all[choose(uint32_t(all.size()), "which")].img); if (choose(3, "near") == 0) sh.back() = near_copy(sh.back()); }
                    else sh.push_back(tries < 20 ? gen_shape(8, 9) : Img{1, 1, "x"});
                }
                line = compose_line(sh); pic = gen_picture(line, 100); seg = segment(line);
                if (!words || seg.size() == words->size()) break;
                if (tries > 25) harness_error("cannot compose a font line");
            }
            std::vector<std::string> w; std::string txt;
            for (size_t i = 0; i < seg.size(); ++i) { w.push_back(words ? (*words)[i] : gen_word()); txt += w.back() + " "; }
            spit(path, pic);
            if (!words) spit(path.substr(0, path.size() - 3) + "txt", txt);
            for (size_t i = 0; i < seg.size(); ++i) { G g; g.img = seg[i]; g.views.push_back({w[i], font, ~0u}); all.push_back(g); }
            ++ninv;
        };
        for (auto kind : {"generated", "mano"}) {
            unsigned nf = 1 + small(2, "fonts");
            for (unsigned k = 0; k < nf; ++k) {
                std::string font = std::string(1, char('a' + k)) + gen_font(), d = base + "/" + kind + "/" + font;
                mkdirs(d);
                bool gen = kind[0] == 'g';
                unsigned np = 1 + small(2, "pictures");
                for (unsigned i = 0; i < np; ++i) add(d + "/p" + std::to_string(i) + (gen ? ".pnm" : ".pbm"), font, gen ? &letters : nullptr);
            }
        }
    }
    chown_all(g_root, made);
    // 1. nothing fails
    Learn clean = run_learning("");
    if (!clean.ok()) violation("refused", "the learning run fails on complete fonts (%s %d)", clean.signaled ? "signal" : "status", clean.code);
    std::vector<G> lat = src["latin"], cyr = src["cyrillic"], both = lat;
    both.insert(both.end(), cyr.begin(), cyr.end());
    std::vector<G> const* srcs[] = {&lat, &cyr, &both};
    for (unsigned i = 0; i < 3; ++i) {
        check_normal(*srcs[i], clean.files[artefacts[i]], artefacts[i]);
        if (clean.files[artefacts[i]] != normal_form(*srcs[i])) violation("not-normalised", "%s is not in the normal form (pictures in order, each once, their names in order, each once): %s", artefacts[i], quote(clean.files[artefacts[i]], 400).c_str());
        if (clean.files[artefacts[3 + i]] != table_text(parse_lib(clean.files[artefacts[i]], artefacts[i])))
            violation("table-mismatch", "%s does not have the rows of the glyphs of %s, in their order", artefacts[3 + i], artefacts[i]);
    }
    for (auto a : inter) if (clean.files.count(a)) violation("intermediate-kept", "a successful run leaves %s behind", a);
    nontrivial();
    auto same = [&](Learn const& l) { for (auto a : artefacts) { auto it = l.files.find(a); if (it == l.files.end() || it->second != clean.files[a]) return a; } return (const char*)nullptr; };
    // 2. faults, possibly several runs in a row
    unsigned runs = 1 + choose(2, "faulty");
    for (unsigned k = 0; k < runs; ++k) {
        if (chance(1, 2, "fresh")) for (auto a : artefacts) unlink((g_root + "/resources/" + a).c_str());
        std::string plan;
        unsigned nf = 1 + small(2, "faults");
        for (unsigned i = 0; i < nf; ++i) {
            static const char kinds[] = "kKroaswh";
            char c = kinds[choose(8, "kind")];
            unsigned inv = choose(ninv, "step");
            unsigned n = 0;
            switch (c) { case 'k': case 'K': n = small(14, "op"); break; case 'r': n = small(6, "read"); break; case 'o': n = choose(2, "open"); break;
                case 'a': n = small(400, "alloc"); break; case 's': case 'w': n = choose(4, "size") ? small(400, "bytes") : small(8000, "bytes"); break; case 'h': n = 1 + choose(1000, "seed"); break; }
            plan += " " + std::to_string(inv) + ":" + c + ":" + std::to_string(n);
            static const Fault fs[] = {F_KILL, F_KILL, F_EIO_READ, F_OPEN_FAIL, F_ALLOC, F_ENOSPC, F_EIO_WRITE, F_SHORT_WRITE};
            fault(fs[strchr(kinds, c) - kinds]);
        }
        note("faulty run %u:%s", k, plan.c_str());
        Learn l = run_learning(plan);
        if (l.rmlog.find("E ") != std::string::npos) violation("foreign-delete", "the learning run deletes something else: %s", quote(l.rmlog).c_str());
        const char* diff = same(l);
        if (l.ok() && diff) violation("inconsistent-artefacts", "the learning run reported success, but %s differs from that of a run in which nothing failed (faults%s)", diff, plan.c_str());
        if (l.ok()) for (auto a : inter) if (l.files.count(a)) violation("intermediate-kept", "a successful run leaves %s behind", a);
        if (diff && l.rmlog.find("R ") != std::string::npos) violation("source-lost", "the extractions were deleted although %s is not complete (faults%s)", diff, plan.c_str());
        if (l.ok() && l.log.find("F\n") != std::string::npos && (plan.find(":k:") != std::string::npos || plan.find(":K:") != std::string::npos) && plan.find(' ', 1) == std::string::npos)
            violation("killed-step-ignored", "a step was killed, yet the learning run reported success (faults%s)", plan.c_str());
    }
    // 3. the run is repeated and nothing fails
    Learn again = run_learning("");
    if (!again.ok()) violation("rerun-fails", "the learning run cannot be repeated after a failed one (%s %d)", again.signaled ? "signal" : "status", again.code);
    if (const char* d = same(again)) violation("rerun-differs", "after a failed run, repeating it gives another %s", d);
    for (auto a : inter) if (again.files.count(a)) violation("intermediate-kept", "a successful run leaves %s behind", a);
    wipe(g_root);
}
}
