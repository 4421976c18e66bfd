// C10-C13, C15, C16: reuse, threads, atomic additions, termination, failing writers, damaged files.
#include "scen.hpp"
#include <sstream>
#include <memory>
#include <map>
#include <algorithm>
#include <cerrno>

namespace sim {
using namespace ad;

static bool put_model(std::vector<G> const& gs, std::vector<std::string>* words = nullptr) {
    add_file("/sim/glyphs", enc_glyphs(gs));
    add_file("/sim/table", table_text(gs));
    if (words) add_file("/sim/dict", dict_text(*words));
    return words != nullptr;
}
static Img any_picture(std::vector<G> const& gs) {
    if (chance(1, 25, "large")) return gen_big(choose(2, "shape"));
    switch (choose(6, "picture")) {
        case 5: return near_picture(gs[choose(uint32_t(gs.size()), "stretch")].img);
        case 0: case 1: return gs[choose(uint32_t(gs.size()), "known")].img;
        case 2: { // a known picture with a few pixels changed
            Img i = gs[choose(uint32_t(gs.size()), "near")].img;
            unsigned n = 1 + small(4, "flips");
            for (unsigned k = 0; k < n; ++k) { auto& c = i.px[choose(uint32_t(i.px.size()), "px")]; c = c == 'x' ? '-' : 'x'; }
            return i;
        }
        case 3: return gen_shape(16, 18);
        default: return gen_img(choose(6, "large") ? 12 : 60, choose(6, "large") ? 12 : 60);
    }
}
static std::string diff(std::string const& a, std::string const& b) {
    size_t d = 0; while (d < a.size() && d < b.size() && a[d] == b[d]) ++d;
    size_t s = d > 30 ? d - 30 : 0;
    return "at byte " + std::to_string(d) + ": " + quote(a.substr(s, 100)) + " versus " + quote(b.substr(s, 100));
}

// ---- C10 --------------------------------------------------------------------------------
static Work* must_work(Model const& m) {
    std::string err;
    Work* w = work_new(m, err);
    if (!w) harness_error("working state: %s", err.c_str());
    return w;
}
void c10() {
    if (chance(1, 6, "tool")) { c10_tool(); return; }
    if (choose(2, "reuse?")) { g_reuse = 1; fault(F_HEAPMOVE); }
    g_fill = (unsigned char)choose(256, "fill"); fault(F_HEAPFILL);
    // one model, or two in turns: then each reference process loads the one it needs and nothing else
    struct Mod { std::vector<G> gs; std::string dir; bool dict = false, wl = false; Model* m = nullptr; Work* w = nullptr; };
    bool two = chance(1, 3, "two models"), full = choose(2, "full?");
    std::vector<Mod> ms(two ? 2 : 1);
    g_cold = two;
    auto load = [&](Mod& o) {
        std::string err, g = o.dir + "glyphs", t = o.dir + "table", d = o.dir + "dict", l = o.dir + "wl";
        if (!model_load(g.c_str(), t.c_str(), o.dict ? d.c_str() : nullptr, o.wl ? l.c_str() : nullptr, o.m, err)) harness_error("model: %s", err.c_str());
    };
    for (size_t k = 0; k < ms.size(); ++k) {
        auto& o = ms[k];
        o.dir = k ? "/sim/other-" : "/sim/";
        o.gs = two ? model_glyphs(6) : model_glyphs(choose(3, "light") ? 6 : 14, 60);
        if (k && choose(2, "alike")) {          // the same pictures under other names, or a few of them missing
            o.gs = ms[0].gs;
            if (o.gs.size() > 1 && choose(2, "fewer")) o.gs.erase(o.gs.begin() + choose(uint32_t(o.gs.size()), "gone"));
            if (choose(2, "renamed")) for (auto& g : o.gs) for (auto& v : g.views) v.word = gen_word();
        }
        add_file(o.dir + "glyphs", enc_glyphs(o.gs));
        add_file(o.dir + "table", table_text(o.gs));
        if (full) {
            std::vector<std::string> names, words = gen_words(6);
            for (auto& g : o.gs) for (auto& v : g.views) if (names.size() < 40) names.push_back(v.word);
            for (unsigned i = 0; i < 4; ++i) { std::string w2; for (unsigned c = 1 + choose(3, "letters"); c--;) w2 += pick(names, "letter"); words.push_back(w2); }
            if ((o.dict = choose(3, "dict"))) add_file(o.dir + "dict", dict_text(words));
            if ((o.wl = choose(3, "wl"))) add_file(o.dir + "wl", enc_wlines(gen_wlines(8, names)));
        }
    }
    if (!two) load(ms[0]);
    unsigned n = 2 + small(9, "history");
    struct Pic { Img i; bool line; };
    std::vector<Pic> pics;
    for (unsigned i = 0; i < n; ++i) {
        if (!pics.empty() && choose(4, "again") == 0) { pics.push_back(pics[choose(uint32_t(pics.size()), "which")]); continue; }
        auto& gs = ms[choose(uint32_t(ms.size()), "whose")].gs;
        if (choose(4, "line?") == 0) {
            std::vector<Img> sh;
            for (unsigned c = 1 + small(6, "shapes"); c--;) sh.push_back(choose(4, "known") ? gs[choose(uint32_t(gs.size()), "g")].img : gen_shape(10, 12));
            pics.push_back({compose_line(sh), true});
        }
        else pics.push_back({any_picture(gs), false});
    }
    if (chance(1, 30, "long")) {       // a long history of a few pictures
        uint32_t s = choose(1u << 16, "order");
        for (n += 20 + choose(280, "more"); pics.size() < n;) pics.push_back(pics[lcg(s) % std::min<size_t>(pics.size(), 10)]);
    }
    // what each picture gives with a new working state, in a process of its own
    struct Ref { std::string words, row; };
    std::map<std::string, Ref> refs;
    auto key = [](size_t k, Pic const& p) { return std::to_string(k) + (p.line ? "l" : "p") + std::to_string(p.i.w) + ":" + p.i.px; };
    for (auto& p : pics) for (size_t k = 0; k < ms.size(); ++k) if (!refs.count(key(k, p))) {
        std::string r = in_fork([&] {
            std::string words, row, e;
            if (two) load(ms[k]);
            Model const& m = *ms[k].m;
            Work* w = must_work(m);
            if (!(p.line ? recognise_line : recognise)(m, *w, p.i, words, e)) violation("refused", "recognising %s fails: %s", show(p.i).c_str(), e.c_str());
            Work* w2 = must_work(m);
            if (!features(*w2, p.i, row, e)) violation("refused", "the features of %s: %s", show(p.i).c_str(), e.c_str());
            return words + char(0) + row;
        });
        size_t c = r.find(char(0));
        refs[key(k, p)] = {r.substr(0, c), r.substr(c + 1)};
        note("%s%s is recognised as %s by model %zu", p.line ? "the line " : "", show(p.i).c_str(), quote(r.substr(0, c), 120).c_str(), k);
    }
    if (two) for (auto& o : ms) load(o);
    for (auto& o : ms) o.w = must_work(*o.m);
    Table* t = table_new();
    size_t rows = 0;
    for (unsigned i = 0; i < n; ++i) {
        size_t k = two ? choose(2, "model") : 0;
        Mod& o = ms[k];
        if (two && chance(1, 8, "reload")) {    // the same model again, perhaps where it was before; or the two change places
            bool both = choose(2, "both");
            for (auto& x : ms) if (both || &x == &o) { work_free(x.w); model_free(x.m); }
            if (both) { load(ms[1]); load(ms[0]); } else load(o);
            for (auto& x : ms) if (both || &x == &o) x.w = must_work(*x.m);
            note("%s loaded again", both ? "both models are" : "the model is");
        }
        Pic const& p = pics[i];
        Ref const& ref = refs[key(k, p)];
        unsigned op = choose(5, "op");
        if (op >= 3) op = 0;
        bool arm = chance(1, 3, "alloc?");
        long at = arm ? long(small(op == 2 ? 90 : 60, "alloc")) : -1;
        bool persist = arm && chance(1, 4, "persist");
        std::string got, e; bool ok;
        {
            ArmAlloc a(at, persist);
            ok = op == 0 ? (p.line ? recognise_line : recognise)(*o.m, *o.w, p.i, got, e) : op == 1 ? features(*o.w, p.i, got, e) : table_add(t, p.i, e);
        }
        static const char* const names[] = {"recognition", "features", "table row"};
        note("%u: %s of %s by model %zu: %s", i, names[op], show(p.i).c_str(), k, ok ? "done" : e.c_str());
        ev(names[op], ok, fnv(got));
        if (!ok) { if (!arm) violation("refused", "the %s of %s fails after earlier pictures: %s", names[op], show(p.i).c_str(), e.c_str()); continue; }
        nontrivial();
        if (op == 0 && got != ref.words) violation("history-dependent", "picture %u (%s) is recognised as %s after earlier pictures, as %s by a new recogniser", i, show(p.i).c_str(), quote(got).c_str(), quote(ref.words).c_str());
        if (op == 1 && got != ref.row) violation("history-dependent", "the features of picture %u (%s) differ from those computed alone %s", i, show(p.i).c_str(), diff(got, ref.row).c_str());
        if (op == 2) {
            for (size_t z : table_sizes(*t)) if (z != rows + 1) violation("history-dependent", "a table of %zu pictures has a feature with %zu values", rows + 1, z);
            std::string row = table_row(*t, rows++);
            if (row != ref.row) violation("history-dependent", "the row added for picture %u (%s) differs from its features computed alone %s", i, show(p.i).c_str(), diff(row, ref.row).c_str());
        }
    }
    table_free(t);
    for (auto& o : ms) { work_free(o.w); model_free(o.m); }
}

// ---- C11 --------------------------------------------------------------------------------
struct Op { unsigned kind; std::string path; Img img; std::vector<G> gs; std::vector<std::string> words; std::string text; };
static const char* const op_names[] = {"load image", "load glyphs", "load table", "load dictionary", "load index", "load word lines", "segment", "add row", "recognise", "recognise line", "look words up", "write", "features", "find names", "replace"};
static std::string do_op(Op const& o, Model const& m, Work*& w) {
    std::string err, r;
    switch (o.kind) {
        case 0: { Img i; return load_image(o.path.c_str(), 128, i, err) ? show(i) + i.px : "error"; }
        case 1: { std::vector<G> g; return load_glyphs(o.path.c_str(), g, err) ? enc_glyphs(g) : "error"; }
        case 2: { Table* t = nullptr; if (!table_load(o.path.c_str(), t, err)) return "error"; std::ostringstream os; table_write(os, *t); table_free(t); return os.str(); }
        case 3: { Dict* d = nullptr; if (!dict_load(o.path.c_str(), d, err)) return "error"; std::ostringstream os; dict_write(os, *d);
            for (auto& x : o.words) r += dict_accepts(*d, utf8_chars(x)) ? '1' : '0'; dict_free(d); return os.str() + r; }
        case 4: { Index* ix = nullptr; if (!index_load(o.path.c_str(), ix, err)) return "error";
            for (size_t i = 0; i < index_size(*ix); ++i) { for (auto& v : index_entry(*ix, i)) r += v.text + "/" + std::to_string(v.word) + "/" + std::to_string(v.font) + " "; r += "|"; }
            index_free(ix); return r; }
        case 5: { std::vector<WLine> wl; return wlines_load(o.path.c_str(), wl, err) ? enc_wlines(wl) : "error"; }
        case 6: for (auto& s : segment(o.img)) r += show(s) + ";"; return r;
        case 7: { Table* t = table_new(); for (auto& g : o.gs) if (!table_add(t, g.img, err)) r += "error"; std::ostringstream os; table_write(os, *t); table_free(t); return os.str() + r; }
        case 8: return recognise(m, *w, o.img, r, err) ? r : "error";
        case 9: return recognise_line(m, *w, o.img, r, err) ? r : "error";
        case 10: for (auto& x : o.words) { std::string out; r += model_has_word(m, utf8_chars(x), out) ? "1" + out : "0"; } return r;
        case 11: { std::ostringstream os; write_glyphs(os, o.gs); for (auto& g : o.gs) write_image(os, g.img); return os.str(); }
        case 12: return features(*w, o.img, r, err) ? r : "error";
        case 13: for (auto& x : o.words) { unsigned i = 0; bool f = model_find(m, x, i); r += f ? std::to_string(i) + " " : "- "; } return r;
        default: return repl_apply(o.text, {{"a", "b"}, {"rn", "m"}, {"b", "ab"}});
    }
}
void c11() {
    g_fill = (unsigned char)choose(256, "fill");
    auto gs = model_glyphs(6);
    auto words = gen_words(8);
    for (auto& g : gs) for (auto& v : g.views) if (choose(2, "word?")) words.push_back(v.word);
    g_cold = choose(2, "cold?");       // the callers are the first in this process to compute features, build or write anything
    put_model(gs, &words);
    Model* m = nullptr; std::string err;
    if (!model_load("/sim/glyphs", "/sim/table", "/sim/dict", nullptr, m, err)) harness_error("model: %s", err.c_str());
    unsigned nt = 2 + small(3, "threads");
    if (chance(1, 12, "crowd")) nt = 5 + choose(13, "more threads");
    if (choose(3, "reuse?") == 0) { g_reuse = 1; fault(F_HEAPMOVE); }
    g_read.short_mode = choose(4, "delivery") == 0 ? 3 : 0;
    bool same = chance(1, 3, "same");
    bool large = chance(1, 8, "large work");      // pictures larger than any buffer grows to for ordinary ones, in every thread
    if (large && nt > 3) nt = 3;
    unsigned common = choose(15, "common");
    std::vector<std::vector<Op>> ops(nt);
    for (unsigned t = 0; t < nt; ++t) {
        unsigned n = 1 + small(3, "ops");
        for (unsigned k = 0; k < n; ++k) {
            Op o;
            o.kind = same && !k ? common : choose(15, "op");
            if (large && !k) { static const unsigned lk[] = {12, 8, 7, 6, 12}; o.kind = lk[choose(5, "large op")]; }
            o.path = "/sim/t" + std::to_string(t) + "-" + std::to_string(k);
            if (o.kind < 6) {
                static const unsigned map[] = {0, 1, 2, 3, 4, 5};
                if (o.kind == 3) { o.words = gen_words(5); add_file(o.path, dict_text(o.words)); for (auto& x : words) o.words.push_back(x); }
                else add_file(o.path, any_file(map[o.kind]));
            }
            if (o.kind == 6 || o.kind == 9) { std::vector<Img> sh; unsigned c = small(4, "shapes"); for (unsigned i = 0; i < c; ++i) sh.push_back(choose(3, "known") ? gs[choose(uint32_t(gs.size()), "g")].img : gen_shape(10, 12)); o.img = compose_line(sh); }
            if (o.kind == 8 || o.kind == 12) o.img = any_picture(gs);
            if (o.kind == 7 || o.kind == 11) o.gs = gen_glyphs(3, true);
            if (large && !k && o.kind == 7) { G g; g.img = gen_big(true); o.gs.push_back(g); }
            if (large && !k && o.kind != 7) { o.img = gen_big(o.kind == 6); if (choose(3, "larger")) { while (o.img.w * o.img.h <= 4096) { o.img.px += o.img.px; o.img.h *= 2; } } }
            if (o.kind == 10) { o.words = gen_words(4); for (auto& x : words) if (choose(2, "w")) o.words.push_back(x); }
            if (o.kind == 13) { for (unsigned i = 0; i < 6; ++i) o.words.push_back(gen_word()); o.words.push_back(gs[0].views[0].word); }
            if (o.kind == 14) for (unsigned i = 0; i < 6; ++i) o.text += gen_word();
            ops[t].push_back(std::move(o));
        }
    }
    // alone
    auto join = [](std::vector<std::string> const& v) { std::string s; for (auto& x : v) s += x + "\x02"; return s; };
    std::vector<std::string> solo(nt), got(nt);
    for (unsigned t = 0; t < nt; ++t) {
        solo[t] = in_fork([&] { Work* w = must_work(*m); std::vector<std::string> r; for (auto& o : ops[t]) r.push_back(do_op(o, *m, w)); return join(r); });
        std::string s; for (auto& o : ops[t]) s += std::string(", ") + op_names[o.kind];
        note("thread %u:%s", t, s.c_str() + 1);
    }
    // together
    std::vector<Work*> works;
    for (unsigned t = 0; t < nt; ++t) works.push_back(must_work(*m));
    std::vector<std::function<void()>> fns;
    std::vector<std::vector<std::string>> res(nt);
    for (unsigned t = 0; t < nt; ++t) fns.push_back([&, t] { for (auto& o : ops[t]) { std::string r = do_op(o, *m, works[t]); Harness h; res[t].push_back(std::move(r)); } });
    run_threads(fns, 1);
    for (unsigned t = 0; t < nt; ++t) {
        got[t] = join(res[t]);
        evs("thread", got[t]);
        if (got[t] == solo[t]) continue;
        size_t k = 0; std::string s = solo[t];
        for (; k < res[t].size(); ++k) { size_t p = s.find('\x02'); if (s.substr(0, p) != res[t][k]) break; s.erase(0, p + 1); }
        violation("interference", "thread %u, operation %zu (%s): another result than alone, %s", t, k, k < ops[t].size() ? op_names[ops[t][k].kind] : "?", diff(k < res[t].size() ? res[t][k] : std::string(), s.substr(0, s.find('\x02'))).c_str());
    }
    nontrivial();
}

// ---- C12 --------------------------------------------------------------------------------
static std::string text_of(Table const& t) { return table_dump(t); }
void c12() {
    g_fill = (unsigned char)choose(256, "fill");
    auto gs = model_glyphs(5);
    unsigned n = 1 + small(6, "rows");
    std::vector<Img> pics;
    for (unsigned i = 0; i < n; ++i) pics.push_back(any_picture(gs));
    std::string clean = in_fork([&] {     // the rows alone
        std::string s, e;
        for (auto& p : pics) { Table* t = table_new(); if (!table_add(t, p, e)) violation("refused", "adding %s: %s", show(p).c_str(), e.c_str()); s += table_row(*t, 0) + "\x01"; }
        return s;
    });
    std::vector<std::string> rows;
    for (size_t p = 0, q; (q = clean.find('\x01', p)) != std::string::npos; p = q + 1) rows.push_back(clean.substr(p, q - p));
    if (choose(2, "reuse?")) { g_reuse = 1; fault(F_HEAPMOVE); }
    std::vector<Img> accepted; std::vector<std::string> got;
    Table* t = table_new();
    if (chance(1, 12, "filled")) {     // the table already has rows
        static const unsigned ns[] = {7, 8, 15, 16, 30, 31, 32, 63, 64, 65, 127, 128, 255, 256};
        std::set<std::string> seen; std::vector<Img> im; add_crowd(im, ns[choose(14, "rows before")], seen);
        std::string e;
        for (auto& p : im) { if (!table_add(t, p, e)) violation("refused", "adding %s: %s", show(p).c_str(), e.c_str()); accepted.push_back(p); got.push_back(text_of(*t)); }
        note("the table has %zu rows", accepted.size());
    }
    std::string before = text_of(*t);
    for (unsigned i = 0; i < n; ++i) {
        std::string err;
        bool added = false;
        unsigned tries = choose(4, "sweep") ? small(5, "tries") : 400;   // a sweep fails every allocation in turn
        for (unsigned k = 0; k < tries && !added; ++k) {
            long at = tries == 400 ? long(k) : long(choose(120, "alloc"));
            bool persist = chance(1, 4, "persist");
            { ArmAlloc a(at, persist); added = table_add(t, pics[i], err); }
            ev("add", added, uint64_t(at));
            note("row %u, allocation %ld fails%s: %s", i, at, persist ? " and all later ones" : "", added ? "added" : err.c_str());
            if (added) break;
            nontrivial();
            std::vector<size_t> sz = table_sizes(*t);
            for (size_t s : sz) if (s != accepted.size()) violation("half-added", "after an addition failed, the table of %zu rows has a feature with %zu values", accepted.size(), s);
            std::string now = text_of(*t);
            if (now != before) violation("half-added", "after an addition failed, the table changed %s", diff(before, now).c_str());
        }
        if (!added) {
            if (chance(1, 2, "another picture")) { note("row %u is given up", i); continue; }
            if (!table_add(t, pics[i], err)) violation("refused", "an addition that failed cannot be repeated: %s", err.c_str());
        }
        accepted.push_back(pics[i]);
        before = text_of(*t);
        got.push_back(before);
        for (size_t s : table_sizes(*t)) if (s != accepted.size()) violation("wrong-rows", "the table of %zu rows has a feature with %zu values", accepted.size(), s);
        std::string row = table_row(*t, accepted.size() - 1);
        if (row != rows[i]) violation("retry-differs", "the row added for %s is not the one it has alone %s", show(pics[i]).c_str(), diff(row, rows[i]).c_str());
    }
    table_free(t);
    std::string want = in_fork([&] {   // the table after each row, when nothing fails
        g_reuse = 0;
        std::string s, e; Table* t = table_new();
        for (auto& p : accepted) { if (!table_add(t, p, e)) violation("refused", "adding %s: %s", show(p).c_str(), e.c_str()); s += text_of(*t) + "\x01"; }
        return s;
    });
    size_t p = 0;
    for (size_t i = 0; i < got.size(); ++i) {
        size_t q = want.find('\x01', p);
        std::string w = want.substr(p, q - p); p = q + 1;
        if (got[i] != w) violation("retry-differs", "after failures, adding %s gives another table than without %s", show(accepted[i]).c_str(), diff(got[i], w).c_str());
    }
}

// ---- C13 --------------------------------------------------------------------------------
void c13() {
    if (choose(4, "half") == 0) { c13_tool(); return; }
    g_alloc.max = 64u << 20;
    unsigned nops = 1 + small(4, "ops");
    for (unsigned k = 0; k < nops; ++k) {
        if (choose(8, "replace") == 0) {
            std::vector<std::pair<std::string, std::string>> rr;
            unsigned n = 1 + small(4, "pairs");
            std::string text, pat;
            for (unsigned i = 0; i < n; ++i) { std::string a, b; for (unsigned c = small(3, "pl"); c; --c) a += char('a' + choose(2, "pc")); for (unsigned c = small(4, "rl"); c; --c) b += char('a' + choose(2, "rc")); rr.push_back({a, b}); pat += quote(a) + ">" + quote(b) + " "; }
            for (unsigned c = small(24, "tl"); c; --c) text += char('a' + choose(2, "tc"));
            A->ticks = 0; A->tick_limit = 5000000;
            note("replace %s in %s", pat.c_str(), quote(text).c_str());
            std::string r = repl_apply(text, rr);
            ev("replaced", r.size());
            nontrivial();
            continue;
        }
        unsigned which = choose(6, "loader");
        std::string bytes = any_file(which);
        if (choose(3, "damage")) bytes = corrupt(bytes, 1 + small(4, "edits"));
        std::string path = "/sim/f" + std::to_string(which);
        auto& f = add_file(path, bytes);
        draw_delivery();
        FK fk = draw_fault(f);
        if (fk == FK_READ_ONCE) f.err_times = 1 + choose(80, "times");
        if (chance(1, 2, "storm")) { g_read.eintr_budget = 1 + choose(400, "eintr"); g_read.eintr_den = 1 + choose(3, "den"); }
        size_t len = std::max(bytes.size(), f.content2.size());
        uint64_t eintr = g_read.eintr_budget + f.err_times;
        A->ticks = 0; A->seam_ops = 0;
        // far above what any load needs for inputs of this size, far below a retry that does not end
        A->tick_limit = 3000000ull + 3000ull * len;
        A->seam_limit = 2000 + 20ull * len + 10ull * eintr;
        std::string err;
        bool r;
        { ArmAlloc a(g_plan_alloc.n, g_plan_alloc.persist); r = any_load(which, path.c_str(), err); }
        ev("load", which, r);
        note("loader %u, %zu bytes (%s): %s after %llu basic blocks and %llu calls", which, len, fk_names[fk], r ? "loaded" : err.c_str(), (unsigned long long)A->ticks, (unsigned long long)A->seam_ops);
        clear_plan(f);
        nontrivial();
    }
}

// ---- C15 --------------------------------------------------------------------------------
void c15() {
    g_fill = (unsigned char)choose(256, "fill");
    struct Obj { const char* what; std::function<void(std::ostream&)> write; };
    std::vector<Obj> objs;
    std::vector<std::vector<G>> libs; std::vector<Table*> tabs; std::vector<Dict*> dicts; std::vector<Img> imgs;
    unsigned n = 1 + small(3, "objects");
    libs.resize(n); tabs.resize(n); dicts.resize(n); imgs.resize(n);
    for (unsigned i = 0; i < n; ++i) switch (choose(4, "kind")) {
        case 0: libs[i] = gen_glyphs(5, choose(2, "corpus?")); objs.push_back({"glyph library", [&libs, i](std::ostream& os) { write_glyphs(os, libs[i]); }}); break;
        case 1: { tabs[i] = table_new(); std::string e; for (auto& g : gen_glyphs(3, true)) if (!table_add(tabs[i], g.img, e)) harness_error("table_add: %s", e.c_str()); objs.push_back({"feature table", [&tabs, i](std::ostream& os) { table_write(os, *tabs[i]); }}); } break;
        case 2: dicts[i] = dict_new(gen_words(12)); objs.push_back({"dictionary", [&dicts, i](std::ostream& os) { dict_write(os, *dicts[i]); }}); break;
        default: imgs[i] = chance(1, 8, "large") ? gen_big(false) : gen_img(20, 12); objs.push_back({"image", [&imgs, i](std::ostream& os) { write_image(os, imgs[i]); }}); break;
    }
    std::string full, what;
    { std::ostringstream os; for (auto& o : objs) { o.write(os); what += std::string(what.empty() ? "" : ", ") + o.what; } full = os.str(); }
    unsigned tries = 1 + choose(8, "tries");
    nontrivial();
    for (unsigned t = 0; t < tries; ++t) {
        static const unsigned bufs[] = {0, 1, 7, 64, 512, 8192};
        unsigned bs = bufs[choose(6, "buffer")];
        size_t cap = choose(6, "whole") == 0 ? full.size() + choose(3, "more") : choose(uint32_t(full.size() + 1), "cap");
        OutBuf sink(cap, bs);
        sink.mode = choose(3, "recovery");
        std::ostream os(&sink);
        bool thrown = false;
        if (choose(4, "exceptions") == 0) os.exceptions(std::ios::badbit);
        note("write %s (%zu bytes) to a medium of %zu bytes through a buffer of %u%s", what.c_str(), full.size(), cap, bs, os.exceptions() ? ", exceptions on" : "");
        try {
            for (auto& o : objs) {
                o.write(os);
                if (choose(2, "flush")) os.flush();
            }
            os.flush();
        }
        catch (std::ios_base::failure const&) { thrown = true; tl_lib = 0; fault(F_STREAM_THROW); }
        bool good = !os.fail();
        ev("written", good, sink.stored.size());
        if (full.compare(0, sink.stored.size(), sink.stored) || sink.stored.size() > full.size())
            violation("not-a-prefix", "writing %s to a failing medium leaves something else than a beginning of its text: %s", what.c_str(), diff(sink.stored, full).c_str());
        if (good && sink.stored.size() != full.size())
            violation("loss-unreported", "writing %s: the stream is in order after the flush, but the medium holds %zu of %zu bytes", what.c_str(), sink.stored.size(), full.size());
        if (thrown && good) violation("loss-unreported", "writing %s: an exception was raised, but the stream is in order", what.c_str());
        if (!good && cap >= full.size()) violation("failed-without-cause", "writing %s to a healthy medium fails after %zu of %zu bytes", what.c_str(), sink.stored.size(), full.size());
    }
    for (auto t : tabs) if (t) table_free(t);
    for (auto d : dicts) if (d) dict_free(d);
}

// ---- C16 --------------------------------------------------------------------------------
static void use_image(Img const& i, Model* m, Work* w) {
    std::ostringstream os; std::string err, out;
    if (i.px.size() != size_t(i.w) * i.h) violation("inconsistent-object", "an image of %u by %u has %zu pixels", i.w, i.h, i.px.size());
    write_image(os, i);
    if (i.px.size() > 40000) return;
    auto seg = segment(i);
    if (i.px.empty()) return;
    Table* t = table_new();
    if (!table_add(t, i, err)) note("features: %s", err.c_str());
    for (auto& s : seg) if (!table_add(t, s, err)) note("features: %s", err.c_str());
    table_write(os, *t);
    table_free(t);
    if (m) { if (!recognise(*m, *w, i, out, err)) note("recognise: %s", err.c_str()); for (auto& s : seg) recognise(*m, *w, s, out, err); recognise_line(*m, *w, i, out, err); }
}
void c16() {
    g_fill = (unsigned char)choose(256, "fill");
    g_alloc.max = choose(8, "memory") ? 64u << 20 : size_t(1) << 30;
    std::string err, out;
    if (chance(1, 60, "vast")) {
        static const unsigned d[][2] = {{65536, 32768}, {32768, 65536}, {65536, 32769}, {46341, 46341}, {65536, 65535}, {4294967295u, 1}, {1, 4294967295u}, {3, 715827883}, {2147483648u, 1}, {60000, 50000}};
        auto& k = d[choose(10, "dims")];
        unsigned what = choose(5, "what");
        g_alloc.max = size_t(1) << 30; nontrivial();
        note("a picture of %u x %u pixels, use %u", k[0], k[1], what);
        bool ok = vast_picture(what, k[0], k[1], err);
        if (!ok) note("%s", err.c_str());
        ev("vast", what, ok);
        return;
    }
    unsigned mode = choose(9, "mode");
    if (mode >= 7) { c16_tool(); return; }
    auto damage = [&](std::string s) { s = corrupt(std::move(s), 1 + small(4, "edits")); note("damaged: %s", quote(s, 120).c_str()); return s; };
    auto gs = model_glyphs(4);
    nontrivial();
    if (mode == 6 || mode == 0) {
        // a model of which some files are damaged, then a line recognised with it
        put_model(gs);
        std::vector<std::string> names, words = gen_words(6);
        for (auto& g : gs) for (auto& v : g.views) { names.push_back(v.word); words.push_back(v.word); }
        add_file("/sim/dict", dict_text(words));
        add_file("/sim/wl", enc_wlines(gen_wlines(8, names)));
        unsigned mask = mode == 6 ? 1 + choose(15, "which") : 0;
        static const char* const fs[] = {"/sim/glyphs", "/sim/table", "/sim/dict", "/sim/wl"};
        for (unsigned i = 0; i < 4; ++i) if (mask >> i & 1) { auto* f = find_file(fs[i]); f->content = !i && choose(3, "record") == 0 ? enc_glyphs_lying(gs) : damage(f->content); }
        Model* m = nullptr; Work* w = nullptr;
        if (!model_load(fs[0], fs[1], fs[2], fs[3], m, err)) { note("model: %s", err.c_str()); ev("refused"); if (!mask) violation("refused", "an intact model: %s", err.c_str()); return; }
        w = work_new(*m, err);
        ev("model", model_size(*m));
        if (!w) { note("working state: %s", err.c_str()); return; }
        if (mode == 6) {
            unsigned n = 1 + small(3, "lines");
            for (unsigned k = 0; k < n; ++k) {
                std::vector<Img> sh;
                for (unsigned i = small(5, "shapes"); i; --i) sh.push_back(any_picture(gs));
                Img line = compose_line(sh);
                bool r = recognise_line(*m, *w, line, out, err);
                note("line: %s", r ? quote(out).c_str() : err.c_str()); evs("line", out);
            }
            for (auto& g : gs) { recognise(*m, *w, g.img, out, err); for (auto& v : g.views) { unsigned i; model_find(*m, v.word, i); model_has_word(*m, utf8_chars(v.word), out); } }
        } else {
            Img im = chance(1, 12, "large") ? gen_big(false) : gen_img(choose(4, "big") ? 12 : 60, 12);
            static const unsigned t[] = {4, 6, 1, 3};
            unsigned k = choose(4, "type");
            add_file("/sim/img", damage(k == 1 ? enc_p6(im, 128) : enc_image(im, t[k])));
            Img got;
            if (load_image("/sim/img", 128, got, err)) { ev("image", got.w, got.h); use_image(got, m, w); } else { note("%s", err.c_str()); ev("refused"); }
        }
        work_free(w); model_free(m);
        return;
    }
    std::string path = "/sim/f";
    switch (mode) {
        case 1: {
            auto lib = gen_glyphs(5, choose(2, "corpus?"));
            add_file(path, choose(3, "record") == 0 ? enc_glyphs_lying(lib) : damage(enc_glyphs(lib)));
            std::vector<G> got;
            if (!load_glyphs(path.c_str(), got, err)) { note("%s", err.c_str()); ev("refused"); return; }
            ev("glyphs", got.size());
            std::ostringstream os; write_glyphs(os, got);
            for (auto& g : got) use_image(g.img, nullptr, nullptr);
        } break;
        case 2: {
            add_file(path, damage(table_text(gs)));
            Table* t = nullptr;
            if (!table_load(path.c_str(), t, err)) { note("%s", err.c_str()); ev("refused"); return; }
            ev("table", table_sizes(*t)[0]);
            std::ostringstream os; table_write(os, *t);
            table_add(t, gs[0].img, err); table_write(os, *t);
            for (size_t i = 0; i < table_sizes(*t)[0] && i < 50; ++i) for (size_t s : table_sizes(*t)) if (i < s) { table_row(*t, i); break; }
            table_free(t);
        } break;
        case 3: {
            auto words = gen_words(12);
            std::string text = dict_text(words);
            if (choose(3, "structure") == 0) { // one field of one entry becomes another number
                std::vector<size_t> at; for (size_t i = 0; i < text.size(); ++i) if (text[i] >= '0' && text[i] <= '9' && (!i || text[i - 1] == ' ')) at.push_back(i);
                if (!at.empty()) { size_t a = at[choose(uint32_t(at.size()), "field")], e = a; while (e < text.size() && text[e] >= '0' && text[e] <= '9') ++e; text.replace(a, e - a, std::to_string(choose(8, "new") ? choose(20, "value") : 0x7fffffffu + choose(3, "big"))); fault(F_CORRUPT); }
            } else text = damage(text);
            add_file(path, text);
            Dict* d = nullptr;
            if (!dict_load(path.c_str(), d, err)) { note("%s", err.c_str()); ev("refused"); return; }
            std::ostringstream os; dict_write(os, *d);
            std::vector<std::vector<uint32_t>> got;
            bool fin = dict_words(*d, got, 200000);
            ev("dict", got.size(), fin);
            for (auto& x : words) { std::string o; dict_accepts(*d, utf8_chars(x), &o); o = x + x; dict_accepts(*d, {x, o}); dict_accepts(*d, {x.substr(0, x.size() / 2), "\xe2\x82"}); }
            for (unsigned i = 0; i < 6; ++i) { std::vector<std::string> cs; for (unsigned k = small(6, "chars"); k; --k) { std::string c = gen_word(); if (choose(3, "cut") == 0) c.resize(choose(uint32_t(c.size() + 1), "at")); cs.push_back(c); } dict_accepts(*d, cs); }
            dict_free(d);
        } break;
        case 4: {
            auto lib = gen_glyphs(6, choose(2, "corpus?"));
            add_file(path, choose(3, "record") == 0 ? enc_glyphs_lying(lib) : damage(enc_glyphs(lib)));
            Index* ix = nullptr;
            if (!index_load(path.c_str(), ix, err)) { note("%s", err.c_str()); ev("refused"); return; }
            ev("index", index_size(*ix));
            for (size_t i = 0; i < index_size(*ix); ++i) for (auto& v : index_entry(*ix, i)) { unsigned k; index_find(*ix, v.text, k); if (!v.terminated) violation("inconsistent-object", "a name of the index is not terminated"); }
            for (unsigned i = 0; i < 4; ++i) { unsigned k; index_find(*ix, gen_word(), k); }
            index_by_words(*ix); index_views_order(*ix);
            index_free(ix);
        } break;
        default: {
            add_file("/sim/g", enc_glyphs(gs));
            std::vector<std::string> names; for (auto& g : gs) for (auto& v : g.views) names.push_back(v.word);
            add_file(path, damage(enc_wlines(gen_wlines(8, names))));
            Index* ix = nullptr;
            if (!index_load("/sim/g", ix, err)) violation("refused", "an intact glyph library: %s", err.c_str());
            std::vector<WLine> wl;
            if (wlines_load(path.c_str(), wl, err)) ev("wlines", wl.size(), words_infos(*ix, path.c_str()).size());
            else { note("%s", err.c_str()); ev("refused"); }
            std::istringstream is(damage("a b\nrn m\nvv w\nl 1\n"));
            std::vector<std::pair<std::string, std::string>> rr;
            if (repl_read(is, rr, err)) for (unsigned i = 0; i < 3; ++i) ev("replaced", repl_apply(gen_word() + gen_word(), rr).size());
            index_free(ix);
        }
    }
}

// ---- C18 --------------------------------------------------------------------------------
// Work in memory that is cut short by lack of it: what was only read is unchanged, nothing stays behind, and it can be repeated.
void c18() {
    g_fill = (unsigned char)choose(256, "fill"); fault(F_HEAPFILL);
    g_cold = true;
    auto gs = model_glyphs(choose(3, "light") ? 5 : 10, 80);
    std::vector<std::string> names, words = gen_words(choose(4, "many") ? 6 : 30);
    for (auto& g : gs) for (auto& v : g.views) if (names.size() < 40) names.push_back(v.word);
    for (unsigned i = 0; i < 4; ++i) { std::string w; for (unsigned c = 1 + choose(4, "letters"); c--;) w += pick(names, "letter"); words.push_back(w); }
    for (unsigned i = 0; i < 3; ++i) words.push_back(pick(names, "name"));
    auto wl = gen_wlines(8, names);
    bool di = choose(4, "dict"), wi = choose(3, "wl");
    put_model(gs, di ? &words : nullptr);
    if (wi) add_file("/sim/wl", enc_wlines(wl));
    std::vector<Img> sh;
    for (unsigned c = small(7, "shapes"); c--;) sh.push_back(choose(4, "known") ? gs[choose(uint32_t(gs.size()), "g")].img : gen_shape(10, 12));
    std::vector<std::pair<std::string, std::string>> rp;
    static const char* const pool[] = {"a", "b", "rn", "m", "ii", "vv", "w", "aXbrnmiivvwaXbrnmiivvw"};
    for (unsigned n = small(5, "pairs"); n--;) { std::string a = pool[choose(7, "p")]; rp.push_back({a, pool[choose(8, "q")]}); }
    std::string text; for (unsigned n = small(30, "text"); n--;) text += pool[choose(7, "t")];
    Stage* s = stage_new(compose_line(sh), any_picture(gs), gen_glyphs(5, true), wl, rp, words, text);
    Model* m = nullptr; std::string err;
    if (!model_load("/sim/glyphs", "/sim/table", di ? "/sim/dict" : nullptr, wi ? "/sim/wl" : nullptr, m, err)) harness_error("model: %s", err.c_str());
    std::string const before_m = model_dump(*m), before_s = stage_dump(*s);
    struct Ref { std::string out; uint32_t allocs; bool known = false; };
    std::vector<Ref> refs(stage_works());
    unsigned n = 1 + small(9, "works");
    for (unsigned i = 0; i < n; ++i) {
        unsigned op = choose(stage_works(), "work");
        const char* name = stage_name(op);
        Ref& ref = refs[op];
        if (!ref.known) {
            std::string r = in_fork([&] {
                std::string out, e;
                uint64_t a = g_lib_allocs;
                if (!stage_work(op, *m, *s, out, e)) violation("refused", "%s fails: %s", name, e.c_str());
                return std::to_string(g_lib_allocs - a) + " " + out;
            });
            size_t c = r.find(' ');
            ref.allocs = uint32_t(atol(r.c_str())); ref.out = r.substr(c + 1); ref.known = true;
        }
        bool sweep = ref.allocs <= 600 && chance(1, 6, "sweep");      // every allocation of the work fails in turn
        unsigned reps = sweep ? ref.allocs + 1 : chance(1, 3, "repeat") ? 6 : 1;
        long at = sweep ? 0 : long(choose(ref.allocs + 1, "alloc"));
        bool persist = chance(1, 3, "persist");
        size_t limit = !sweep && chance(1, 6, "limit") ? 8u << choose(12, "of") : 0;      // no block larger than this
        uint64_t base_blocks = 0, base_bytes = 0;
        g_track = true;
        for (unsigned k = 0; k < reps; ++k) {
            std::string out, e; bool ok;
            if (sweep) at = long(k);
            {
                size_t max = g_alloc.max;
                if (limit) g_alloc.max = limit;
                ArmAlloc a(limit ? -1 : at, persist);
                ok = stage_work(op, *m, *s, out, e);
                g_alloc.max = max;
            }
            ev(name, ok, fnv(out)); note("%s, allocation %ld of %u fails%s: %s", name, at, ref.allocs, limit ? " (or any of more than a limit)" : "", ok ? "done" : e.c_str());
            if (ok && out != ref.out) violation("wrong-result", "%s, short of memory, ends without reporting it and gives another result %s", name, diff(out, ref.out).c_str());
            if (!ok && !limit && at >= long(ref.allocs)) violation("refused", "%s fails although no memory was missing: %s", name, e.c_str());
            out = std::string(); e = std::string();
            if (k == 1) { base_blocks = live_blocks(); base_bytes = live_bytes(); }
            if (k == 5 && !sweep && live_blocks() >= base_blocks + 4 && live_bytes() > base_bytes)
                violation("memory-growth", "%s, short of memory, keeps some of it: %llu blocks after the 2nd time, %llu after the 6th", name, (unsigned long long)base_blocks, (unsigned long long)live_blocks());
        }
        g_track = false;
        if (model_dump(*m) != before_m) violation("changed-by-failure", "the model is not what it was after %s was short of memory %s", name, diff(model_dump(*m), before_m).c_str());
        if (stage_dump(*s) != before_s) violation("changed-by-failure", "the objects given to %s are not what they were after it was short of memory %s", name, diff(stage_dump(*s), before_s).c_str());
        nontrivial();
        std::string out, e;
        if (!stage_work(op, *m, *s, out, e)) violation("refused", "%s fails although memory is there again: %s", name, e.c_str());
        if (out != ref.out) violation("wrong-result", "%s, repeated when memory is there again, gives another result %s", name, diff(out, ref.out).c_str());
    }
    stage_free(s);
    model_free(m);
}
}
