#include "adapter.hpp"
#include "core.hpp"

#include "ppocr/image/image.hpp"
#include "ppocr/image/image_from_file.hpp"
#include "ppocr/box_char/make_box_character.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/loader2/image_io.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/utils/read_file.hpp"
#include "ppocr/utils/image_compare.hpp"
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/ocr2/word_lines.hpp"
#include "ppocr/ocr2/words_infos.hpp"
#include "ppocr/ocr2/replacement.hpp"
#include "ppocr/ocr2/data_indexes_by_words.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/ocr2/compute_image.hpp"
#include "ppocr/ocr2/image_context.hpp"
#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/filter_by_font.hpp"
#include "ppocr/ocr2/disambiguous_with_dict.hpp"

#include <deque>
#include <array>
#include <sstream>
#include <memory>
#include <cstring>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>

namespace sim { std::vector<std::string> utf8_chars(std::string const& s); }
using namespace ppocr;
using sim::Lib;
using sim::Harness;

namespace ad {

template<class F> static bool guarded(std::string& err, F f) {
    if (sim::tl_harness) sim::harness_error("the code under test is called from harness code");
    try { Lib l; f(); return true; }
    catch (std::exception const& e) { Harness h; err = e.what(); if (err.empty()) err = "exception"; }
    catch (...) { Harness h; err = "unknown exception"; }
    return false;
}

static Img from(Image const& i) { return Img{unsigned(i.width()), unsigned(i.height()), i.data() ? std::string(i.data(), i.area()) : std::string()}; }
static Image to(Img const& i) {
    PtrImageData d(new Pixel[i.px.size() ? i.px.size() : 1]);
    memcpy(d.get(), i.px.data(), i.px.size());
    return Image(Bounds(i.w, i.h), std::move(d));
}

bool load_image(const char* path, unsigned lum, Img& out, std::string& err) {
    Image im;
    if (!guarded(err, [&] { im = image_from_file(path, lum); })) return false;
    out = from(im);
    return true;
}
void write_image(std::ostream& os, Img const& i) { Image im = to(i); Lib l; os << im; }

static void conv(loader2::Glyphs const& gs, std::vector<G>& out) {
    out.clear();
    for (auto& g : gs) {
        G o; o.img = from(g.img);
        for (auto& v : g.views) o.views.push_back({v.word, v.font, v.info_line});
        out.push_back(std::move(o));
    }
}
bool load_glyphs(const char* path, std::vector<G>& out, std::string& err) {
    std::unique_ptr<loader2::Glyphs> gs;
    bool ok = guarded(err, [&] { gs.reset(new loader2::Glyphs(utils::load_from_file<loader2::Glyphs>(path))); });
    if (ok) conv(*gs, out);
    { Lib l; gs.reset(); }
    return ok;
}
bool read_glyphs(std::istream& is, std::vector<G>& out, std::string& err) {
    loader2::Glyphs gs;
    bool ok = guarded(err, [&] { is >> gs; });
    conv(gs, out);
    if (ok && (is.bad() || !is.eof())) { err = "stream"; return false; }
    return ok;
}
bool read_glyph1(std::istream& is, G& out) {
    loader2::Glyph g;
    std::string err;
    bool ok = guarded(err, [&] { is >> g; });
    out.img = from(g.img);
    out.views.clear();
    for (auto& v : g.views) out.views.push_back({v.word, v.font, v.info_line});
    return ok && is;
}
void write_glyphs(std::ostream& os, std::vector<G> const& gs) {
    loader2::Glyphs r;
    for (auto& g : gs) {
        loader2::Glyph o{to(g.img), {}};
        for (auto& v : g.views) o.views.push_back(loader2::View{v.word, v.font, v.line});
        r.push_back(std::move(o));
    }
    Lib l;
    os << r;
}

struct Table { PpOcrDatas d; };
Table* table_new() { return new Table; }
void table_free(Table* t) { Lib l; delete t; }
bool table_add(Table* t, Img const& i, std::string& err) { Image im = to(i); return guarded(err, [&] { t->d.load(im); }); }
bool table_load(const char* path, Table*& out, std::string& err) {
    Table* t = nullptr;
    if (!guarded(err, [&] { t = new Table{utils::load_from_file<PpOcrDatas>(path)}; })) return false;
    out = t;
    return true;
}
bool table_read(std::istream& is, Table& t, std::string& err) {
    bool ok = guarded(err, [&] { is >> t.d; });
    if (ok && is.bad()) { err = "stream"; return false; }
    return ok;
}
void table_write(std::ostream& os, Table const& t) { Lib l; os << t.d; }
std::vector<size_t> table_sizes(Table const& t) {
    std::vector<size_t> r;
    loader2::apply_from_datas(t.d, [&](auto const& data) { r.push_back(data.size()); });
    return r;
}
namespace {
    template<class T> void dump1(std::string& r, T const& x) {
        if constexpr (std::is_arithmetic<T>::value) { char b[40]; snprintf(b, sizeof b, "%.17g ", double(x)); r += b; }
        else if constexpr (std::is_same<T, strategies::alternations::alternations_type>::value) { dump1(r, unsigned(x.start_contains_letter)); dump1(r, x.count); }
        else { std::ostringstream os; os << x; r += os.str() + " "; }
    }
    template<class T> void dump1(std::string& r, std::vector<T> const& v) { r += '['; for (auto& x : v) dump1(r, x); r += "] "; }
    template<class T, std::size_t N> void dump1(std::string& r, std::array<T, N> const& v) { r += '('; for (auto& x : v) dump1(r, x); r += ") "; }
}
std::string table_dump(Table const& t) {
    std::string r;
    loader2::apply_from_datas(t.d, [&](auto const& data) { for (auto& x : data) dump1(r, x); r += '\n'; });
    return r;
}
namespace {
    template<class... S> std::string row_text(details_::DefaultDatas<S...> const& d, size_t i) {
        using loader2::Data;
        Table one{PpOcrDatas(Data<S>(typename Data<S>::container_type(1, d.template get<S>()[i]))...)};
        return table_dump(one);
    }
    template<class... S, class Ctx> void load_row(details_::DefaultDatas<S...>& d, Image const& img, Image const& img90, Ctx& ctx) {
        (..., d.template get<S>().load(img, img90, static_cast<typename S::ctx_type&>(ctx)));
    }
}
std::string table_row(Table const& t, size_t i) { return row_text(t.d, i); }
unsigned table_features() { Table t; return unsigned(table_sizes(t).size()); }

struct Dict { spell::Dictionary d; };
Dict* dict_new(std::vector<std::string> const& words) { Lib l; return new Dict{spell::Dictionary(words)}; }
void dict_free(Dict* d) { Lib l; delete d; }
bool dict_load(const char* path, Dict*& out, std::string& err) {
    Dict* d = nullptr;
    bool ok = guarded(err, [&] {
        std::unique_ptr<Dict> p(new Dict);
        utils::read_file(p->d, path);
        d = p.release();
    });
    if (ok) out = d;
    return ok;
}
bool dict_read(std::istream& is, Dict& d, std::string& err) {
    bool ok = guarded(err, [&] { is >> d.d; });
    if (ok && is.bad()) { err = "stream"; return false; }
    return ok;
}
void dict_write(std::ostream& os, Dict const& d) { Lib l; os << d.d; }
bool dict_empty(Dict const& d) { return d.d.empty(); }
bool dict_accepts(Dict const& d, std::vector<std::string> const& chars, std::string* outp) {
    // one candidate per position: the disambiguator then decides membership
    std::vector<std::vector<std::string>> amb;
    for (auto& c : chars) amb.push_back({c});
    std::string out;
    bool r;
    { Lib l; spell::WordDisambiguouser w; r = w(d.d, amb.begin(), amb.end(), out); }
    if (outp) *outp = out;
    return r;
}
namespace {
    struct Acc : spell::Dictionary::Manipulator {
        using spell::Dictionary::Manipulator::trie;
        using spell::Dictionary::Manipulator::trie_type;
    };
    bool walk(Acc::trie_type::range r, std::vector<uint32_t>& cur, std::vector<std::vector<uint32_t>>& out, size_t& budget) {
        for (auto it = r.begin(); it != r.end(); ++it) {
            if (!budget || cur.size() > 4000) return false;
            --budget;
            cur.push_back(it->get());
            if (it->is_terminal()) out.push_back(cur);
            if (!walk(it->childrens(), cur, out, budget)) return false;
            cur.pop_back();
        }
        return true;
    }
}
bool dict_words(Dict const& d, std::vector<std::vector<uint32_t>>& out, size_t limit) {
    out.clear();
    if (d.d.empty()) return true;
    std::vector<uint32_t> cur;
    Lib l;
    Harness h;
    return walk(Acc().trie(d.d).childrens(), cur, out, limit);
}

struct Index { ocr2::Glyphs g; };
Index* index_new() { return new Index; }
void index_free(Index* i) { Lib l; delete i; }
bool index_load(const char* path, Index*& out, std::string& err) {
    Index* t = nullptr;
    if (!guarded(err, [&] { t = new Index{utils::load_from_file<ocr2::Glyphs>(path)}; })) return false;
    out = t;
    return true;
}
bool index_read(std::istream& is, Index& ix, std::string& err) {
    bool ok = guarded(err, [&] { is >> ix.g; });
    if (ok && (is.bad() || !is.eof())) { err = "stream"; return false; }
    return ok;
}
size_t index_size(Index const& i) { return i.g.size(); }
std::vector<IView> index_entry(Index const& ix, size_t i) {
    std::vector<IView> r;
    Lib l;
    for (auto& v : ix.g[i]) {
        auto& s = ix.g.get_word(v);
        IView o;
        { Harness h; o.word = v.word; o.font = v.font; }
        o.text.assign(s.data(), s.size());
        o.terminated = s.data()[s.size()] == 0;
        Harness h;
        r.push_back(std::move(o));
    }
    return r;
}
bool index_find(Index const& ix, std::string const& s, unsigned& idx) {
    Lib l;
    idx = ix.g.word_index_of(s);
    return idx != ocr2::Glyphs::no_index;
}
std::vector<std::vector<unsigned>> index_by_words(Index const& ix) {
    Lib l;
    ocr2::DataIndexesByWords d(ix.g);
    std::vector<std::vector<unsigned>> r;
    for (size_t i = 0; i < ix.g.size(); ++i) r.push_back(d[i]);
    return r;
}
std::vector<unsigned> index_views_order(Index const& ix) { Lib l; return ocr2::get_views_indexes_ordered(ix.g); }

static void conv(ocr2::WWordsLines const& w, std::vector<WLine>& out) {
    out.clear();
    for (auto& p : w) out.push_back({std::string(p.sv()), p.wlines.ascentline, p.wlines.capline, p.wlines.meanline, p.wlines.baseline});
}
bool wlines_load(const char* path, std::vector<WLine>& out, std::string& err) {
    ocr2::WWordsLines w;
    if (!guarded(err, [&] { w = utils::load_from_file<ocr2::WWordsLines>(path); })) return false;
    conv(w, out);
    { Lib l; ocr2::WWordsLines().swap(w); }
    return true;
}
bool wlines_read(std::istream& is, std::vector<WLine>& out, std::string& err) {
    ocr2::WWordsLines w;
    bool ok = guarded(err, [&] { is >> w; });
    conv(w, out);
    if (ok && (is.bad() || !is.eof())) { err = "stream"; return false; }
    return ok;
}
std::vector<std::pair<unsigned, WLine>> words_infos(Index const& ix, const char* path) {
    std::vector<std::pair<unsigned, WLine>> r;
    std::unique_ptr<ocr2::WordsInfos> wi;
    std::string err;
    if (!guarded(err, [&] { wi.reset(new ocr2::WordsInfos(ix.g, utils::load_from_file<ocr2::WWordsLines>(path))); })) return r;
    for (auto& views : ix.g)
        for (auto& v : views) {
            ocr2::WordInfos const* p;
            { Lib l; p = wi->get(v.word); }
            if (p) r.push_back({v.word, {"", p->lines.ascentline, p->lines.capline, p->lines.meanline, p->lines.baseline}});
        }
    return r;
}
bool repl_read(std::istream& is, std::vector<std::pair<std::string, std::string>>& out, std::string& err) {
    ocr2::Replacements r;
    bool ok = guarded(err, [&] { is >> r; });
    out.clear();
    for (auto& x : r) out.push_back({x.pattern, x.replace});
    if (ok && (is.bad() || !is.eof())) { err = "stream"; return false; }
    return ok;
}
std::string repl_apply(std::string text, std::vector<std::pair<std::string, std::string>> const& rr) {
    ocr2::Replacements r;
    for (auto& x : rr) r.push_back({x.first, x.second});
    Lib l;
    ocr2::replace_words(text, r);
    return text;
}

struct Obj {
    unsigned kind;
    Image im;
    loader2::Glyphs gs;
    PpOcrDatas t;
    spell::Dictionary d;
    ocr2::Glyphs ix;
    ocr2::WWordsLines wl;
    ocr2::Replacements rp;
};
Obj* obj_new(unsigned kind) { Lib l; auto o = new Obj; o->kind = kind; return o; }
void obj_free(Obj* o) { Lib l; delete o; }
bool obj_load(Obj& o, const char* path, unsigned lum, std::string& err) {
    return guarded(err, [&] {
        switch (o.kind) {
            case 0: o.im = image_from_file(path, lum); break;
            case 1: o.gs = utils::load_from_file<loader2::Glyphs>(path); break;
            case 2: o.t = utils::load_from_file<PpOcrDatas>(path); break;
            case 3: { spell::Dictionary d; utils::read_file(d, path); o.d = std::move(d); } break;
            case 4: o.ix = utils::load_from_file<ocr2::Glyphs>(path); break;
            case 5: o.wl = utils::load_from_file<ocr2::WWordsLines>(path); break;
            default: o.rp = utils::load_from_file<ocr2::Replacements>(path); break;
        }
    });
}
bool obj_reread(Obj& o, const char* path, std::string& err) {
    return guarded(err, [&] {
        switch (o.kind) {
            case 2: utils::read_file(o.t, path); break;
            case 3: utils::read_file(o.d, path); break;
            default: utils::read_file(o.ix, path); break;
        }
    });
}
void obj_write(std::ostream& os, Obj const& o) {
    Lib l;
    switch (o.kind) {
        case 0: os << o.im; break;
        case 1: os << o.gs; break;
        case 2: os << o.t; break;
        case 3: os << o.d; break;
        default: break;
    }
}
std::string obj_dump(Obj const& o) {
    std::ostringstream os;
    auto num = [&](size_t n) { os << n << ' '; };
    auto image = [&](Image const& im) { Img i = from(im); num(i.w); num(i.h); os << i.px << '|'; };
    switch (o.kind) {
        case 0: image(o.im); break;
        case 1: for (auto& g : o.gs) { image(g.img); for (auto& v : g.views) { os << v.word << '/' << v.font << '/'; num(v.info_line); } os << '\n'; } break;
        case 2: loader2::apply_from_datas(o.t, [&](auto const& data) { std::string r; for (auto& x : data) dump1(r, x); os << r << '\n'; }); break;
        case 3: { Lib l; os << o.d; } break;
        case 4:
            for (auto& vs : o.ix) {
                for (auto& v : vs) {
                    Lib l;
                    auto& w = o.ix.get_word(v);
                    std::string_view s(w.data(), w.size());
                    unsigned f = o.ix.word_index_of(s);
                    Harness h;
                    num(v.word); num(v.font); os << s << '/'; num(f); num(w.data()[w.size()] == 0);
                }
                os << '\n';
            }
            break;
        case 5: { std::vector<WLine> w; conv(o.wl, w); for (auto& x : w) { os << x.word << '/'; num(x.a); num(x.c); num(x.m); num(x.b); } } break;
        default: for (auto& r : o.rp) os << r.pattern << " => " << r.replace << '\n';
    }
    return os.str();
}

namespace {
    template<class> struct first_type;
    template<template<class...> class Tpl, class T, class... Ts> struct first_type<Tpl<T, Ts...>> { using type = T; };
    using FirstStrategy = first_type<PpOcrDatas>::type;
}
struct Model {
    PpOcrDatas datas;
    ocr2::Glyphs glyphs;
    spell::Dictionary dict;
    ocr2::WordsInfos infos;
    ocr2::DataIndexesByWords by_words;
    std::vector<unsigned> id_views;
    ocr2::DataIndexesOrdered<FirstStrategy> ordered;
    Model(PpOcrDatas&& d, ocr2::Glyphs&& g, spell::Dictionary&& di, ocr2::WWordsLines const& wl)
    : datas(std::move(d)), glyphs(std::move(g)), dict(std::move(di)), infos(glyphs, wl), by_words(glyphs)
    , id_views(ocr2::get_views_indexes_ordered(glyphs)), ordered(datas) {}
};
bool model_load(const char* glyphs, const char* table, const char* dict, const char* wlines, Model*& out, std::string& err) {
    Model* m = nullptr;
    bool ok = guarded(err, [&] {
        spell::Dictionary di;
        if (dict) utils::read_file(di, dict);
        auto d = utils::load_from_file<PpOcrDatas>(table);
        auto g = utils::load_from_file<ocr2::Glyphs>(glyphs);
        if (d.size() != g.size()) throw std::runtime_error("model: glyph and feature counts differ");
        ocr2::WWordsLines wl;
        if (wlines) utils::read_file(wl, wlines);
        m = new Model(std::move(d), std::move(g), std::move(di), wl);
    });
    if (ok) out = m;
    return ok;
}
struct Work {
    ocr2::Probabilities p, tmp;
    ocr2::ImageContext ictx;
    PpOcrDataCtxs ctx;
    Work(unsigned n) : p(n), tmp(n) {}
};
Work* work_new(Model const& m, std::string& err) {
    Work* w = nullptr;
    guarded(err, [&] { w = new Work(unsigned(m.glyphs.size())); });
    return w;
}
void work_free(Work* w) { Lib l; delete w; }

static ocr2::view_ref_list compute(Model const& m, Work& w, Image const& img) {
    return ocr2::compute_image(
        PpOcrSimpleDatas{}, PpOcrComplexDatas{}, PpOcrExclusiveDatas{}, w.p, w.tmp, m.datas, m.ordered, m.by_words,
        m.glyphs, m.id_views, img, w.ictx.img90(), w.ctx, 0.5);
}
bool recognise(Model const& m, Work& w, Img const& i, std::string& out, std::string& err) {
    return guarded(err, [&] {
        Image const& img = w.ictx.img(Bounds(i.w, i.h), [&](Pixel* px) { memcpy(px, i.px.data(), i.px.size()); });
        auto list = compute(m, w, img);
        Harness h;
        out.clear();
        for (ocr2::View const& v : list) {
            auto& s = m.glyphs.get_word(v);
            out += std::string(s.data(), s.size()) + "/" + std::to_string(v.font) + " ";
        }
    });
}
bool features(Work& w, Img const& i, std::string& out, std::string& err) {
    return guarded(err, [&] {
        Image const& img = w.ictx.img(Bounds(i.w, i.h), [&](Pixel* px) { memcpy(px, i.px.data(), i.px.size()); });
        w.ctx.reset();
        PpOcrDatas d;
        load_row(d, img, w.ictx.img90(), w.ctx);
        Harness h;
        out = row_text(d, 0);
    });
}
// pictures of more than 2^31 pixels: what is made for them must be large enough, or refused (their pixels stay untouched)
bool vast_picture(unsigned what, unsigned w, unsigned h, std::string& err) {
    size_t n = size_t(w) * h;
    if (what == 0) {
        ocr2::ImageContext ictx;
        return guarded(err, [&] {
            ictx.img(Bounds(w, h), [&](Pixel* px) { if (__asan_region_is_poisoned(px, n)) { Harness hh; sim::violation("memory-error", "the buffer for a picture of %u x %u pixels is smaller than the picture", w, h); } });
        });
    }
    void* px = reinterpret_cast<void*>(syscall(SYS_mmap, nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0L));
    if (px == MAP_FAILED) { err = "no address space"; return false; }
    Image img(Bounds(w, h), PtrImageData(static_cast<Pixel*>(px)));
    bool r = guarded(err, [&] {
        switch (what) {
            case 1: { strategies::proportionality_zone::ctx_type c; strategies::proportionality_zone::load(img, img, c); } break;
            case 2: { strategies::zone::ctx_type c; strategies::zone::load(img, img, c); } break;
            case 3: { strategies::proportionality::ctx_type c; unsigned v = strategies::proportionality::load(img, img, c); Harness hh; sim::ev("proportionality", v); } break;
            default: img.rotate90();
        }
    });
    img.release().release();
    syscall(SYS_munmap, px, n);
    return r;
}
bool model_has_word(Model const& m, std::vector<std::string> const& chars, std::string& out) {
    std::vector<std::vector<std::string>> amb;
    for (auto& c : chars) amb.push_back({c});
    Lib l;
    spell::WordDisambiguouser w;
    return w(m.dict, amb.begin(), amb.end(), out);
}
bool model_find(Model const& m, std::string const& s, unsigned& idx) { Lib l; idx = m.glyphs.word_index_of(s); return idx != ocr2::Glyphs::no_index; }
size_t model_size(Model const& m) { return m.glyphs.size(); }
void model_free(Model* m) { Lib l; delete m; }
bool recognise_line(Model const& m, Work& w, Img const& line, std::string& out, std::string& err) {
    Image img = to(line);
    return guarded(err, [&] {
        ocr2::ambiguous_t ambiguous;
        std::deque<ocr2::view_ref_list> keep;
        std::vector<unsigned> spaces;
        std::vector<Box> boxes;
        unsigned x = 0, i_space = 0;
        Bounds const bounds = img.bounds();
        while (auto const cbox = make_box_character(img, {x, 0}, bounds)) {
            Image const& word = w.ictx.img(cbox.bounds(), [&](Pixel* px) { section(img, px, cbox.index(), cbox.bounds()); });
            if (x + 4 < cbox.x()) spaces.push_back(i_space);
            ++i_space;
            keep.push_back(compute(m, w, word));
            ambiguous.emplace_back(keep.back());
            boxes.push_back(cbox);
            x = cbox.x() + cbox.width();
        }
        ocr2::filter_by_lines(ambiguous, m.infos, boxes);
        ocr2::filter_by_font(ambiguous);
        std::string result;
        spaces.push_back(unsigned(ambiguous.size()));
        unsigned n = ocr2::disambiguous_with_dict(ambiguous, m.glyphs, m.dict, spaces.cbegin(), result);
        Harness h;
        out = result + "|" + std::to_string(n) + "|" + std::to_string(ambiguous.size());
    });
}
std::vector<Img> segment(Img const& line) {
    std::vector<Img> r;
    Image img = to(line);
    Lib l;
    unsigned x = 0;
    Bounds const bounds = img.bounds();
    while (auto const cbox = make_box_character(img, {x, 0}, bounds)) {
        auto sec = img.section(cbox.index(), cbox.bounds());
        x = cbox.x() + cbox.width();
        Harness h;
        r.push_back(from(sec));
        if (r.size() > 200000) break;
    }
    return r;
}

struct Stage {
    Image line, pic;
    loader2::Glyphs gs;
    ocr2::WWordsLines wl;
    ocr2::Replacements rp;
    std::vector<std::string> words;
    std::string text, glyphs_text, table_text, dict_text, repl_text;
};
static void dump_index(std::string& r, ocr2::Glyphs const& ix) {
    for (auto& vs : ix) {
        for (auto& v : vs) {
            auto& w = ix.get_word(v);
            std::string_view s(w.data(), w.size());
            r.append(s); r += '/' + std::to_string(v.word) + '/' + std::to_string(v.font) + ' ';
        }
        r += '\n';
    }
}
static void dump_dict(std::string& r, spell::Dictionary const& d) {
    for (auto node : Acc().trie(d).all()) r += std::to_string(node.get()) + ' ' + std::to_string(node.relative_pos()) + ' ' + std::to_string(node.size()) + (node.is_terminal() ? "t" : "-") + '\n';
}
static void dump_image(std::string& r, Image const& im) { Img i = from(im); r += std::to_string(i.w) + 'x' + std::to_string(i.h) + ' ' + i.px + '\n'; }
static void dump_glyphs(std::string& r, loader2::Glyphs const& gs) {
    for (auto& g : gs) { dump_image(r, g.img); for (auto& v : g.views) r += v.word + '/' + v.font + '/' + std::to_string(v.info_line) + '\n'; }
}
static void dump_lines(std::string& r, ocr2::WWordsLines const& w) {
    for (auto& p : w) { r.append(p.sv()); r += '/' + std::to_string(p.wlines.ascentline) + '/' + std::to_string(p.wlines.capline) + '/' + std::to_string(p.wlines.meanline) + '/' + std::to_string(p.wlines.baseline) + '\n'; }
}
static void dump_table(std::string& r, PpOcrDatas const& d) { loader2::apply_from_datas(d, [&](auto const& data) { for (auto& x : data) dump1(r, x); r += '\n'; }); }
static void dump_infos(std::string& r, ocr2::Glyphs const& g, ocr2::WordsInfos const& wi) {
    for (auto& views : g) for (auto& v : views) if (auto p = wi.get(v.word)) r += std::to_string(v.word) + '=' + std::to_string(p->lines.ascentline) + '/' + std::to_string(p->lines.capline) + '/' + std::to_string(p->lines.meanline) + '/' + std::to_string(p->lines.baseline) + '\n';
}
static void dump_by_words(std::string& r, ocr2::Glyphs const& g, ocr2::DataIndexesByWords const& d) { for (size_t i = 0; i < g.size(); ++i) { for (auto x : d[i]) r += std::to_string(x) + ' '; r += '\n'; } }
static void dump_ordered(std::string& r, PpOcrDatas const& d, ocr2::DataIndexesOrdered<FirstStrategy> const& o) {
    for (unsigned x : {0u, 10u, 50u, 100u}) { std::vector<unsigned> v; for (auto i : o.get_range(d, x, 12)) v.push_back(i); std::sort(v.begin(), v.end()); for (auto i : v) r += std::to_string(i) + ' '; r += '\n'; }
}
Stage* stage_new(Img const& line, Img const& pic, std::vector<G> const& gs, std::vector<WLine> const& wl, std::vector<std::pair<std::string, std::string>> const& rp, std::vector<std::string> const& words, std::string const& text) {
    auto s = new Stage;
    s->line = to(line); s->pic = to(pic);
    for (auto& g : gs) {
        loader2::Glyph o{to(g.img), {}};
        for (auto& v : g.views) o.views.push_back(loader2::View{v.word, v.font, v.line});
        s->gs.push_back(std::move(o));
    }
    { std::istringstream is([&] { std::ostringstream os; for (auto& w : wl) os << w.word << ' ' << w.a << ' ' << w.c << ' ' << w.m << ' ' << w.b << '\n'; return os.str(); }()); is >> s->wl; }
    for (auto& x : rp) { s->rp.push_back({x.first, x.second}); s->repl_text += x.first + ' ' + x.second + '\n'; }
    s->words = words; s->text = text;
    { std::ostringstream os; os << s->gs; s->glyphs_text = os.str(); }
    { std::ostringstream os; os << spell::Dictionary(words); s->dict_text = os.str(); }
    { PpOcrDatas d; for (auto& g : s->gs) d.load(g.img); std::ostringstream os; os << d; s->table_text = os.str(); }
    return s;
}
void stage_free(Stage* s) { delete s; }
std::string stage_dump(Stage const& s) {
    std::string r;
    dump_image(r, s.line); dump_image(r, s.pic); dump_glyphs(r, s.gs); dump_lines(r, s.wl);
    for (auto& x : s.rp) r += x.pattern + " => " + x.replace + '\n';
    for (auto& w : s.words) r += w + '\n';
    return r + s.text;
}
std::string model_dump(Model const& m) {
    std::string r;
    dump_index(r, m.glyphs); dump_table(r, m.datas); dump_dict(r, m.dict); dump_infos(r, m.glyphs, m.infos);
    dump_by_words(r, m.glyphs, m.by_words); dump_ordered(r, m.datas, m.ordered);
    for (auto x : m.id_views) r += std::to_string(x) + ' ';
    return r;
}
static const char* const works[] = {"extracting characters", "copying pictures", "rotating a picture", "building a dictionary", "storing a dictionary", "storing a glyph library",
    "storing a feature table", "joining words and lines", "ordering glyphs and features", "recognising a picture", "recognising a line", "computing features", "looking words up in the dictionary",
    "finding names", "replacing", "reading a glyph library", "reading a feature table", "reading a dictionary", "reading a glyph index", "copying a dictionary", "comparing glyphs", "reading replacements", "sorting glyphs"};
unsigned stage_works() { return sizeof works / sizeof *works; }
const char* stage_name(unsigned op) { return works[op]; }
bool stage_work(unsigned op, Model const& m, Stage const& s, std::string& out, std::string& err) {
    std::string r;
    Img const line = from(s.line), pic = from(s.pic);
    auto stored = [](std::ostream& os) { if (!os.flush()) throw std::runtime_error("the stream has failed"); };
    auto whole = [](std::istream& is) { if (is.bad() || !is.eof()) throw std::runtime_error("the stream has failed"); };
    bool ok = guarded(err, [&] {
        switch (op) {
            case 0: {
                unsigned x = 0;
                Bounds const bounds = s.line.bounds();
                while (auto const cbox = make_box_character(s.line, {x, 0}, bounds)) {
                    auto sec = s.line.section(cbox.index(), cbox.bounds());
                    x = cbox.x() + cbox.width();
                    Harness h; dump_image(r, sec);
                }
            } break;
            case 1: {
                std::vector<Image> v;
                for (auto& g : s.gs) v.push_back(g.img.clone());
                v.push_back(s.line.clone()); v.push_back(s.pic.clone());
                Harness h; for (auto& i : v) dump_image(r, i);
            } break;
            case 2: { Image a = s.pic.rotate90(), b = a.rotate90(); { Harness h; dump_image(r, a); dump_image(r, b); } a = s.line.rotate90(); Harness h; dump_image(r, a); } break;
            case 3: { spell::Dictionary d(s.words); Harness h; dump_dict(r, d); } break;
            case 4: { std::ostringstream os; os << m.dict; stored(os); std::string t = os.str(); Harness h; r += t; } break;
            case 5: { std::ostringstream os; os << s.gs << s.pic; stored(os); std::string t = os.str(); Harness h; r += t; } break;
            case 6: { std::ostringstream os; os << m.datas; stored(os); std::string t = os.str(); Harness h; r += t; } break;
            case 7: { ocr2::WordsInfos wi(m.glyphs, s.wl); Harness h; dump_infos(r, m.glyphs, wi); } break;
            case 8: {
                ocr2::DataIndexesByWords d(m.glyphs);
                ocr2::DataIndexesOrdered<FirstStrategy> o(m.datas);
                auto v = ocr2::get_views_indexes_ordered(m.glyphs);
                Harness h; dump_by_words(r, m.glyphs, d); dump_ordered(r, m.datas, o); for (auto x : v) r += std::to_string(x) + ' ';
            } break;
            case 9: case 10: case 11: {
                Work w(unsigned(m.glyphs.size()));
                std::string res, e; bool done;
                done = op == 9 ? recognise(m, w, pic, res, e) : op == 10 ? recognise_line(m, w, line, res, e) : features(w, pic, res, e);
                if (!done) throw std::runtime_error("failed");
                Harness h; r += res; res = std::string(); e = std::string();
            } break;
            case 12:
                for (auto& x : s.words) {
                    std::vector<std::vector<std::string>> amb;
                    { Harness h; for (auto& c : sim::utf8_chars(x)) amb.push_back({c, "~"}); }
                    std::string o;
                    bool f; { spell::WordDisambiguouser w; f = w(m.dict, amb.begin(), amb.end(), o); }
                    Harness h; r += f ? '+' : '-'; r += o + '\n'; amb = {};
                }
                break;
            case 13: for (auto& x : s.words) { unsigned i = m.glyphs.word_index_of(x); Harness h; r += std::to_string(i) + ' '; } break;
            case 14: { std::string t = s.text; ocr2::replace_words(t, s.rp); Harness h; r += t; } break;
            case 15: { std::istringstream is(s.glyphs_text); loader2::Glyphs gs; is >> gs; whole(is); Harness h; dump_glyphs(r, gs); } break;
            case 16: { std::istringstream is(s.table_text); PpOcrDatas d; is >> d; if (is.bad()) throw std::runtime_error("the stream has failed"); Harness h; dump_table(r, d); } break;
            case 17: { std::istringstream is(s.dict_text); spell::Dictionary d; is >> d; if (is.bad()) throw std::runtime_error("the stream has failed"); Harness h; dump_dict(r, d); } break;
            case 18: { std::istringstream is(s.glyphs_text); ocr2::Glyphs g; is >> g; whole(is); Harness h; dump_index(r, g); } break;
            case 19: { spell::Dictionary di(m.dict), d2; d2 = di; ocr2::WWordsLines wl(s.wl); ocr2::Replacements rp(s.rp); Harness h; dump_dict(r, d2); dump_dict(r, di); dump_lines(r, wl); for (auto& x : rp) r += x.pattern + x.replace; } break;
            case 20: for (auto& a : s.gs) for (auto& b : s.gs) { bool l = image_compare(a.img, b.img) < 0, e = a == b; Harness h; r += l ? '<' : e ? '=' : '>'; } break;
            case 21: { std::istringstream is(s.repl_text); ocr2::Replacements rp; is >> rp; whole(is); Harness h; for (auto& x : rp) r += x.pattern + " => " + x.replace + '\n'; } break;
            default: {
                loader2::Glyphs gs;
                for (auto& g : s.gs) gs.push_back(loader2::Glyph{g.img.clone(), g.views});
                std::sort(gs.begin(), gs.end(), [](loader2::Glyph const& a, loader2::Glyph const& b) { return image_less()(a.img, b.img); });
                Harness h; dump_glyphs(r, gs);
            }
        }
    });
    out = r;
    return ok;
}
}
