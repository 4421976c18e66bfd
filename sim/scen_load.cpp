// C01-C07: loading and storing under chunked delivery, faults and torn files.
#include "gen.hpp"
#include "scen.hpp"
#include <sstream>
#include <memory>
#include <set>
#include <map>
#include <algorithm>
#include <cstring>

namespace sim {
using namespace ad;

// Runs one load with the planned allocation failure armed.
template<class F> static bool armed(F f) {
    ArmAlloc a(g_plan_alloc.n, g_plan_alloc.persist);
    return f();
}
static void must_ok(bool ok, std::string const& err, const char* what) {
    if (!ok) violation("refused", "%s was refused although it is well formed and nothing failed: %s", what, err.c_str());
}
static void balanced(const char* what) {
    auto& l = fdlog();
    if (l.foreign_close) violation("foreign-close", "%s closed a descriptor it did not open", what);
    if (l.double_close) violation("double-close", "%s closed a descriptor twice (the number may belong to somebody else)", what);
    if (l.opened != l.closed) violation("fd-leak", "%s opened %u descriptors and closed %u", what, l.opened, l.closed);
}

// ---- C01 --------------------------------------------------------------------------------
void c01() {
    static const unsigned types[] = {4, 6, 1, 3};
    unsigned type = types[choose(4, "type")];
    static const unsigned lums[] = {128, 100, 0, 1, 127, 255, 256, 300};
    unsigned lum = lums[choose(8, "lum")];
    g_fill = choose(2, "fill?") ? (unsigned char)choose(256, "fill") : (unsigned char)(choose(2, "fillc") ? 'x' : '-');
    bool huge = chance(1, 300, "huge");
    Img im = huge ? gen_huge_img() : chance(1, 12, "large") ? gen_big(false) : gen_img(choose(4, "big") ? 9 : 70, 9);
    std::string bytes = type == 6 ? enc_p6(im, lum) : enc_image(im, type);
    // layout variants that must be refused, or kept
    unsigned mut = choose(11, "mutation");
    if (mut >= 4) switch (mut) {
        case 4: bytes.resize(bytes.size() - std::min<size_t>(bytes.size(), 1 + small(8, "cut"))); fault(F_TORN); break;       // missing samples
        case 5: { unsigned n = 1 + small(4, "extra"); for (unsigned i = 0; i < n; ++i) bytes += "01\x00\xff 2"[choose(6, "tail")]; } break; // surplus
        case 6: bytes = corrupt(bytes, 1 + small(3, "edits")); break;
        case 7: { static const char* const h[] = {"P4\n4294967295 1\n", "P4\n4294967289 1\n", "P4\n4294967290 1\nxxxxxxxx", "P1\n65536 65536\n1", "P6\n65536 65537\n255\nabc", "P4\n0 5\n", "P4\n5 0\n\n", "P1\n1 1\n1", "P4\n1 1\nA", "P3\n1 1\n1\n0", "P2\n1 1\n1\n1", "P1\n2 2\n111", "P1\n2 2\n11111", "P1\n2 1\n12", "", "P", "P4\n", "P1\n#\n1 1\n0\n", "P1\n1 1\n1\n\n ", "P4\n4294967296 1\n", "P5\n1 1\n255\nA",
                // sizes that are small only modulo 2^32
                "P4\n4294967297 1\nA", "P4\n1 4294967297\nA", "P1\n4294967297 1\n1", "P6\n4294967297 1\n255\nabc", "P6\n1 4294967297\n255\nabc", "P3\n4294967297 1\n1\n0", "P4\n18446744073709551617 1\nA",
                "P1\n641 6700417\n1", "P6\n641 6700417\n255\nabc", "P4\n5128 6700417\nA", "P1\n18446744073709551617 1\n1", "P6\n6700417 641\n255\nabc", "P1\n-1 1\n1", "P4\n-4294967295 1\nA", "P1\n+1 1\n1", "P1\n01 1\n1", "P6\n1 1\n4294967551\nabc"};
            bytes = h[choose(38, "special")]; } break;
        case 8: { size_t cut = draw_cut(bytes); bytes.resize(cut); fault(F_TORN); } break;
        case 9: { size_t p = choose(uint32_t(bytes.size() + 1), "ins"); bytes.insert(p, 1, "0 1\n2#"[choose(6, "insc")]); } break;
        case 10: {      // the header says something else
            size_t e1 = bytes.find('\n', 3), at = 0;
            switch (choose(4, "where")) { case 0: at = choose(3, "magic"); break; case 1: at = e1 == std::string::npos ? 0 : e1; break; case 2: at = std::min(bytes.find(' '), bytes.size() - 1); break; default: at = choose(uint32_t(std::min<size_t>(bytes.size(), 12)), "near"); }
            bytes[at] = "PQpX0123456789 \n\t\r#-+.\0\v"[choose(23, "c")]; fault(F_CORRUPT);
        } break;
    }
    auto& f = add_file("/sim/img", bytes);
    draw_delivery();
    if (huge) huge_run();
    FK fk = draw_fault(f);
    note("image type P%u, %zu bytes: %s", type, bytes.size(), quote(bytes, 60).c_str());
    Img ref, ref2, got;
    int ok1 = dec_image(bytes, lum, ref), ok2 = f.resize ? dec_image(f.content2, lum, ref2) : 0;
    std::string err;
    bool r = armed([&] { return load_image("/sim/img", lum, got, err); });
    ev("loaded", r, fnv(got.px)); note("load: %s %s", r ? "ok" : "error", r ? show(got).c_str() : err.c_str());
    nontrivial();
    if (r) {
        if (ok1 && got == ref) {}
        else if (ok2 && f.resized && got == ref2) {}
        else if (!ok1 && !(f.resized && ok2)) violation("accepted-malformed", "a file that is not a complete image was loaded as %s; bytes %s", show(got).c_str(), quote(bytes, 80).c_str());
        else violation("wrong-pixels", "loaded %s, the file encodes %s", show(got).c_str(), show(ok1 ? ref : ref2).c_str());
    } else if (ok1 && (fk == FK_NONE || fk == FK_CLOSE || (fk == FK_GROW && !f.resized) || (fk == FK_SHRINK && !f.resized))) {
        if (fk != FK_CLOSE && !errors_delivered(f)) must_ok(false, err, "an image file");
    }
}

// ---- well-formed files of every kind ------------------------------------------------------
struct Sample { std::string img, glyphs, table, dict, wlines; std::vector<G> gs; std::vector<std::string> words; std::vector<WLine> wl; Img im; };
bool g_cold;
std::string table_text(std::vector<G> const& gs) {
    if (g_cold) return in_fork([&] { g_cold = false; return table_text(gs); });
    Table* t = table_new();
    std::string err;
    for (auto& g : gs) if (!table_add(t, g.img, err)) harness_error("table_add: %s", err.c_str());
    std::ostringstream os;
    table_write(os, *t);
    table_free(t);
    return os.str();
}
std::string dict_text(std::vector<std::string> const& words) {
    if (g_cold) return in_fork([&] { g_cold = false; return dict_text(words); });
    Dict* d = dict_new(words);
    std::ostringstream os;
    dict_write(os, *d);
    dict_free(d);
    return os.str();
}
std::string glyphs_text(std::vector<G> const& gs) { std::ostringstream os; write_glyphs(os, gs); return os.str(); }

// ---- C02 --------------------------------------------------------------------------------
// every loader of the library as one operation; true: loaded
bool any_load(unsigned which, const char* path, std::string& err) {
    switch (which) {
        case 0: { Img i; return load_image(path, 128, i, err); }
        case 1: { std::vector<G> g; return load_glyphs(path, g, err); }
        case 2: { Table* t = nullptr; bool r = table_load(path, t, err); if (r) table_free(t); return r; }
        case 3: { Dict* d = nullptr; bool r = dict_load(path, d, err); if (r) dict_free(d); return r; }
        case 4: { Index* i = nullptr; bool r = index_load(path, i, err); if (r) index_free(i); return r; }
        default: { std::vector<WLine> w; return wlines_load(path, w, err); }
    }
}
std::string any_file(unsigned which) {
    switch (which) {
        case 0: { static const unsigned t[] = {4, 6, 1, 3}; unsigned k = choose(4, "type"); Img i = gen_img(9, 9);
            if (chance(1, 8, "other kind")) {    // what other programs call a portable map: grey, colour text, arbitrary map, floats
                static const char* const h[] = {"P5\n12 8\n255\n", "P2\n12 8\n255\n", "P7\nWIDTH 6\nHEIGHT 5\nDEPTH 3\nMAXVAL 255\nTUPLTYPE RGB\nENDHDR\n", "PF\n4 6\n-1.0\n", "P0\n9 9\n", "BM", "\x89PNG\r\n\x1a\n", "GIF89a"};
                unsigned c = choose(8, "kind"); std::string s = h[c]; for (unsigned n = 60 + small(60, "n"); n; --n) s += c == 1 ? "17 " : std::string(1, char(n * 37)); return s;
            }
            return k == 1 ? enc_p6(i, 128) : enc_image(i, t[k]); }
        case 1: case 4: return enc_glyphs(gen_glyphs(4, false));
        case 2: return table_text(gen_glyphs(2, true));
        case 3: return dict_text(gen_words(8));
        default: return enc_wlines(gen_wlines(8, {}));
    }
}
void c02() {
    unsigned nops = 1 + small(6, "ops");
    g_fdreuse = true;
    g_track = true;
    for (unsigned op = 0; op < nops; ++op) {
        unsigned which = choose(6, "loader");
        std::string bytes = any_file(which);
        if (choose(4, "damage") == 0) bytes = corrupt(bytes, 1 + small(3, "edits"));
        std::string path = "/sim/f" + std::to_string(which);
        auto& f = add_file(path, bytes);
        draw_delivery();
        g_alloc.max = 64u << 20;
        FK fk = draw_fault(f);
        unsigned reps = chance(1, 4, "repeat") ? 6 : 1;
        if (reps == 6 && fk != FK_EINTR && chance(1, 12, "many")) { reps = 128; g_read.short_mode = 0; }   // the very same load each time
        uint64_t base_blocks = 0, base_bytes = 0, bytes8 = 0, bytes32 = 0;
        auto saved = g_read;
        long err_at = f.err_at; unsigned err_times = f.err_times;
        for (unsigned k = 0; k < reps; ++k) {
            g_read = saved; f.err_at = err_at; f.err_times = err_times;
            fdlog() = FdLog{};
            // a descriptor number taken over by somebody else stays taken only during this load
            std::string err;
            bool r = armed([&] { return any_load(which, path.c_str(), err); });
            ev("load", which, r); note("loader %u (%s), repetition %u: %s", which, fk_names[fk], k, r ? "ok" : err.c_str());
            static const char* const names[] = {"the image load", "the glyph load", "the feature table load", "the dictionary load", "the glyph index load", "the word-line load"};
            balanced(names[which]);
            release_sentinels();
            err.clear(); err.shrink_to_fit();
            if (k == 1) { base_blocks = live_blocks(); base_bytes = live_bytes(); }
            if (k == 7) bytes8 = live_bytes();
            if (k == 31) bytes32 = live_bytes();
            if (k == 127 && bytes32 > bytes8 && live_bytes() >= bytes32 + (bytes32 - bytes8))
                violation("memory-growth", "%s retains memory: %llu bytes after 8 loads, %llu after 32, %llu after 128", names[which], (unsigned long long)bytes8, (unsigned long long)bytes32, (unsigned long long)live_bytes());
            if (k == 5 && live_blocks() >= base_blocks + 4 && live_bytes() > base_bytes)
                violation("memory-growth", "%s retains memory: %llu blocks after the 2nd load, %llu after the 6th", names[which], (unsigned long long)base_blocks, (unsigned long long)live_blocks());
        }
        clear_plan(f);
        nontrivial();
    }
    if (open_fds()) violation("fd-leak", "%u descriptors are still open", open_fds());
}

// ---- C03 --------------------------------------------------------------------------------
// Where may a text that ends in '\n' be cut without being torn? At a record boundary, or just before the final line feed
// of a record (then the reader may refuse it or take the record).
enum Cut { CUT_BOUNDARY, CUT_NL, CUT_TORN };
static Cut classify(std::vector<size_t> const& b, size_t at, size_t& nrec) {
    for (size_t i = 0; i < b.size(); ++i) {
        if (b[i] == at) { nrec = i; return CUT_BOUNDARY; }
        if (i && b[i] == at + 1) { nrec = i; return CUT_NL; }
    }
    return CUT_TORN;
}
// The file changed while it was read: what the reader was given is what counts, if it is a beginning of the stored text.
static bool prefix_seen(SimFile const& f, std::string const& text) { return f.seen.size() <= text.size() && text.compare(0, f.seen.size(), f.seen) == 0; }
static std::unique_ptr<InBuf> make_in(std::string data) {
    static const unsigned pieces[] = {0, 1, 2, 7, 64};
    unsigned p = pieces[choose(5, "pieces")];
    if (data.size() > 200000 && p < 64 && p) p *= 50;
    return std::unique_ptr<InBuf>(new InBuf(std::move(data), p));
}
void c03() {
    g_fill = (unsigned char)choose(256, "fill");
    bool huge = chance(1, 400, "huge");
    std::vector<G> gs = huge ? gen_huge_glyphs() : gen_glyphs(6, choose(2, "corpus?"));
    if (huge) huge_run();
    for (auto& g : gs) if (gs.size() < 20 && chance(1, 10, "nameless")) g.views.clear();
    std::vector<size_t> b;
    std::string want = enc_glyphs(gs, &b), err;
    std::string text = glyphs_text(gs);
    unsigned mode = choose(5, "mode");
    note("library: %s, mode %u", show(gs).c_str(), mode);
    nontrivial();
    if (mode == 0) {            // write, read back from a stream that delivers pieces
        auto in = make_in(text);
        std::istream is(in.get());
        std::vector<G> got;
        bool r = read_glyphs(is, got, err);
        ev("read", r, got.size());
        must_ok(r, err, "a stored glyph library");
        if (!(got == gs)) violation("wrong-glyphs", "read back %s, written %s", show(got).c_str(), show(gs).c_str());
        return;
    }
    if (text != want) violation("wrong-format", "the stored library is %s, expected %s", quote(text, 200).c_str(), quote(want, 200).c_str());
    if (mode == 1) {            // several libraries one after the other in one stream object, record by record
        auto in = make_in(text);
        std::istream is(in.get());
        std::vector<G> got;
        for (;;) { G g; if (!read_glyph1(is, g)) break; got.push_back(g); }
        if (!(got == gs)) violation("wrong-glyphs", "record-wise read gave %s, written %s", show(got).c_str(), show(gs).c_str());
        return;
    }
    auto& f = add_file("/sim/lib", text);
    draw_delivery();
    if (huge) huge_run();
    FK fk = FK_NONE;
    size_t cut = text.size(), nrec = gs.size();
    Cut c = CUT_BOUNDARY;
    if (mode == 2 || (mode == 4 && choose(2, "torn+"))) {          // torn file
        cut = draw_cut(text);
        c = classify(b, cut, nrec);
        f.content.resize(cut); fault(F_TORN); note("file is torn after %zu of %zu bytes", cut, text.size());
    }
    if (mode >= 3) fk = draw_fault(f);
    std::vector<G> got;
    bool r = armed([&] { return load_glyphs("/sim/lib", got, err); });
    ev("loaded", r, got.size()); note("load: %s", r ? show(got).c_str() : err.c_str());
    if (f.resized && r) { if (!prefix_seen(f, text)) return; cut = f.seen.size(); c = classify(b, cut, nrec); }
    if (r) {
        if (c == CUT_TORN) violation("torn-accepted", "the file ends inside a record (after %zu of %zu bytes), yet loading gave %s", cut, text.size(), show(got).c_str());
        std::vector<G> exp(gs.begin(), gs.begin() + long(nrec));
        if (!(got == exp)) violation("wrong-glyphs", "loaded %s, the file holds %s (reads failed: %d)", show(got).c_str(), show(exp).c_str(), int(errors_delivered(f)));
        if (f.st().open_fails) violation("open-failure-ignored", "the file could not be opened, yet loading reported success");
    }
    else if (c == CUT_BOUNDARY && (fk == FK_NONE || ((fk == FK_READ || fk == FK_READ_ONCE) && !errors_delivered(f)))) must_ok(false, err, "a glyph library file");
}

// ---- C04 --------------------------------------------------------------------------------
// thousands of rows: the stored form of a few one-row tables, repeated
static void c04_huge() {
    std::vector<std::vector<std::string>> rows;      // per pattern: the text of each feature
    for (unsigned k = 0; k < 3; ++k) {
        G g; g.img = k == 0 ? Img{1, 1, "x"} : gen_shape(9, 9);
        std::istringstream is(table_text({g}));
        std::string l; std::vector<std::string> v;
        while (std::getline(is, l)) v.push_back(l);
        rows.push_back(v);
    }
    static const unsigned ns[] = {255, 256, 257, 1025, 4097, 16385, 255, 256, 257, 1025, 4097, 65536, 65537};
    unsigned n = ns[choose(13, "rows")], every = 2 + choose(40, "pattern");
    std::string text = std::to_string(n) + "\n", err;
    for (size_t f = 1; f < rows[0].size(); ++f) {
        for (unsigned i = 0; i < n; ++i) text += rows[n > 20000 ? (i + 1) % every == 0 && i % 977 == 0 : i % every == 0 ? 1 + i % 2 : 0][f];
        text += "\n";
    }
    note("table of %u rows, %zu bytes", n, text.size());
    nontrivial();
    huge_run();
    Table* t = nullptr;
    if (choose(2, "file")) { add_file("/sim/table", text); bool r = table_load("/sim/table", t, err); must_ok(r, err, "a feature table file"); }
    else { auto in = make_in(text); std::istream is(in.get()); t = table_new(); bool r = table_read(is, *t, err); must_ok(r, err, "a stored feature table"); }
    for (size_t s : table_sizes(*t)) if (s != n) violation("ragged-table", "a feature has %zu values, the table has %u rows", s, n);
    std::ostringstream os; table_write(os, *t);
    std::string back = os.str();
    if (back != text) {
        size_t at = 0; while (at < back.size() && at < text.size() && back[at] == text[at]) ++at;
        violation("wrong-values", "a table of %u rows written, read and written again differs from byte %zu on: %s instead of %s", n, at, quote(back.substr(at, 40)).c_str(), quote(text.substr(at, 40)).c_str());
    }
    ev("huge", n);
    table_free(t);
}
void c04() {
    g_fill = (unsigned char)choose(256, "fill");
    if (chance(1, 500, "huge")) { c04_huge(); return; }
    std::vector<G> gs = gen_glyphs(choose(3, "many") ? 3 : 12, choose(3, "corpus?") != 0);
    std::string err;
    Table* orig = table_new();
    for (auto& g : gs) if (!table_add(orig, g.img, err)) violation("refused", "adding %s: %s", show(g.img).c_str(), err.c_str());
    std::string text, values = table_dump(*orig);
    { std::ostringstream os; table_write(os, *orig); text = os.str(); }
    table_free(orig);
    unsigned mode = choose(5, "mode");
    note("table of %zu rows, %zu bytes, mode %u", gs.size(), text.size(), mode);
    nontrivial();
    auto equal_sizes = [&](Table const& t, size_t rows) {
        for (size_t s : table_sizes(t)) if (s != rows) violation("ragged-table", "a feature has %zu values, the table has %zu rows", s, rows);
    };
    if (mode == 0) {
        auto in = make_in(text);
        std::istream is(in.get());
        Table* t = table_new();
        bool r = table_read(is, *t, err);
        must_ok(r && !is.bad(), err, "a stored feature table");
        equal_sizes(*t, gs.size());
        if (table_dump(*t) != values) violation("wrong-values", "the table read back differs from the one written");
        if (choose(2, "again")) {          // read once more into the same object
            auto in2 = make_in(text);
            std::istream is2(in2.get());
            bool r2 = table_read(is2, *t, err);
            must_ok(r2, err, "a stored feature table");
            equal_sizes(*t, gs.size());
            if (table_dump(*t) != values) violation("wrong-values", "the table read back into a used object differs from the one written");
        }
        table_free(t);
        return;
    }
    auto& f = add_file("/sim/table", text);
    draw_delivery();
    FK fk = FK_NONE;
    bool torn = false, junk = false, nl = false;
    if (mode == 1) {
        size_t cut = std::min(draw_cut(text), text.size() - 1);
        f.content.resize(cut); fault(F_TORN); note("file is torn after %zu of %zu bytes", cut, text.size());
        // only trailing white space lost: complete or not, either answer is right
        torn = true;
        nl = text.find_first_not_of(" \n", cut) == std::string::npos && cut && (text[cut - 1] == ' ' || text[cut - 1] == '\n');
        if (gs.empty() && text.find_first_not_of(" \n", cut) == std::string::npos) nl = cut > 0 && text[cut - 1] != ' ' ? text.find('\n') <= cut - 0 && cut > text.find('\n') : nl;
    }
    if (mode == 2) {           // a token is not a number
        std::vector<size_t> toks;
        for (size_t i = 0; i < text.size(); ++i) if (text[i] > ' ' && (i == 0 || text[i - 1] <= ' ')) toks.push_back(i);
        size_t p = toks[choose(uint32_t(toks.size()), "token")], e = p;
        while (e < text.size() && text[e] > ' ') ++e;
        static const char* const bad[] = {"x", "?", "--", "a1", "#3", ".", "*"};
        f.content = text.substr(0, p) + bad[choose(7, "bad")] + text.substr(e);
        junk = true; fault(F_CORRUPT); note("token at %zu is not a number", p);
    }
    size_t declared = gs.size();
    if (mode == 4) {           // another number of rows is declared
        declared = choose(2, "off") ? choose(uint32_t(gs.size() + 3), "declared") : gs.size() + (choose(2, "by") ? 256u : 65536u) ;
        f.content = std::to_string(declared) + text.substr(text.find('\n'));
        if (declared != gs.size()) { fault(F_CORRUPT); note("the file declares %zu rows", declared); }
    }
    if (mode == 3) fk = draw_fault(f);
    Table* t = nullptr;
    bool r = armed([&] { return table_load("/sim/table", t, err); });
    ev("loaded", r); note("load: %s", r ? "ok" : err.c_str());
    if (r) {
        size_t rows = table_sizes(*t)[0];
        equal_sizes(*t, rows);
        if (mode != 1 && !junk && !f.resized && rows != declared) violation("ragged-table", "the file declares %zu rows, the table loaded has %zu", declared, rows);
        if (declared != gs.size()) { table_free(t); return; }
        if (torn && !nl) violation("torn-accepted", "the file ends early (%zu of %zu bytes), yet loading succeeded with %zu rows", f.content.size(), text.size(), rows);
        if (junk) violation("junk-accepted", "the file holds text that is not a number, yet loading succeeded with %zu rows", rows);
        if (f.st().open_fails) violation("open-failure-ignored", "the file could not be opened, yet loading reported success");
        if (f.resized && prefix_seen(f, text) && text.find_first_not_of(" \n", f.seen.size()) != std::string::npos) violation("torn-accepted", "the file shrank and only %zu of %zu bytes were readable, yet loading succeeded", f.seen.size(), text.size());
        if (!f.resized && table_dump(*t) != values) violation("wrong-values", "loading succeeded with other values than the file holds (%zu rows, stored %zu)", rows, gs.size());
        table_free(t);
    }
    else if (!torn && !junk && declared == gs.size() && (fk == FK_NONE || ((fk == FK_READ || fk == FK_READ_ONCE) && !errors_delivered(f)))) must_ok(false, err, "a feature table file");
}

// ---- C05 --------------------------------------------------------------------------------
std::set<std::string> word_set(std::vector<std::string> const& w) { std::set<std::string> s(w.begin(), w.end()); s.erase(""); return s; }
void check_dict(Dict const& d, std::set<std::string> const& set, std::vector<std::string> const& words, const char* what) {
    std::vector<std::string> probe(set.begin(), set.end());
    size_t every = words.size() > 3000 ? words.size() / 300 : 1, nth = 0;
    for (auto& w : words) {    // near misses
        if (nth++ % every) continue;
        auto c = utf8_chars(w);
        if (c.empty()) continue;
        std::string p;
        // every beginning of an ordinary word, a sample of those of a very long one
        size_t k = 0, step = 1 + c.size() / 40;
        for (auto& x : c) { p += x; if (++k % step == 0 || k < 20 || k + 5 > c.size()) probe.push_back(p); }
        probe.push_back(w + "a"); probe.push_back(w + "\xc3\xa9"); probe.push_back("b" + w);
        std::string sw = w; sw.replace(0, c[0].size(), "q"); probe.push_back(sw);
        if (c.size() > 1) { std::string rev; for (size_t i = c.size(); i-- > 0;) rev += c[i]; probe.push_back(rev); }
    }
    probe.push_back("a"); probe.push_back("zz"); probe.push_back("\xd0\xb6");
    std::sort(probe.begin(), probe.end());
    probe.erase(std::unique(probe.begin(), probe.end()), probe.end());
    for (auto& w : probe) {
        if (w.empty()) continue;
        std::string out;
        bool acc = dict_accepts(d, utf8_chars(w), &out), exp = set.count(w) != 0;
        if (acc != exp) violation("wrong-words", "%s %s the word %s", what, acc ? "accepts" : "does not accept", quote(w).c_str());
        if (acc && out != w) violation("wrong-words", "%s spells %s for the word %s", what, quote(out).c_str(), quote(w).c_str());
    }
}
size_t dict_count(Dict const& d) {
    std::vector<std::vector<uint32_t>> ws;
    if (!dict_words(d, ws, 600000)) violation("wrong-words", "the dictionary accepts infinitely many words");
    return ws.size();
}
void c05() {
    bool huge = chance(1, 400, "huge");
    std::vector<std::string> words = huge ? gen_huge_words() : gen_words(choose(3, "many") ? 6 : 40);
    if (huge) huge_run();
    auto set = word_set(words);
    std::string err;
    std::string list; for (auto& w : words) if (list.size() < 300) list += w + " ";
    unsigned mode = choose(6, "mode");
    note("words: %s, mode %u", quote(list, 200).c_str(), mode);
    nontrivial();
    Dict* d = dict_new(words);
    check_dict(*d, set, words, "the dictionary as built");
    if (dict_count(*d) != set.size()) violation("wrong-words", "the dictionary as built holds %zu words, the list %zu", dict_count(*d), set.size());
    std::ostringstream os;
    dict_write(os, *d);
    dict_free(d);
    std::string text = os.str();
    if (mode == 0 && chance(1, 4, "damaged")) {   // the stream's formatting survives a refused text too
        std::string bad = choose(2, "cut?") ? text.substr(0, draw_cut(text)) : corrupt(text, 1);
        auto in = make_in(bad);
        std::istream is(in.get());
        unsigned fl = choose(8, "flags");
        if (fl & 1) is.unsetf(std::ios::skipws);
        if (fl & 2) is.setf(std::ios::hex, std::ios::basefield);
        if (fl & 4) { is.exceptions(std::ios::badbit | std::ios::failbit); fault(F_STREAM_THROW); }
        auto flags = is.flags();
        Dict* e = dict_new({});
        bool r = dict_read(is, *e, err);
        ev("damaged", r);
        if (is.flags() != flags) violation("stream-format-changed", "reading the dictionary %s changed the caller's stream formatting", r ? "" : "failed and");
        dict_free(e);
        return;
    }
    if (mode == 0) {
        auto in = make_in(text);
        std::istream is(in.get());
        unsigned fl = choose(4, "flags");
        if (fl & 1) is.unsetf(std::ios::skipws);
        if (fl & 2) is.setf(std::ios::boolalpha);
        auto flags = is.flags();
        Dict* e = dict_new(choose(2, "used") ? std::vector<std::string>{"other", "words"} : std::vector<std::string>{});
        if (fl & 2) is.unsetf(std::ios::boolalpha), flags = is.flags();
        bool r = dict_read(is, *e, err);
        if (is.flags() != flags) violation("stream-format-changed", "reading the dictionary changed the caller's stream formatting");
        must_ok(r, err, "a stored dictionary");
        check_dict(*e, set, words, "the dictionary read back");
        if (dict_count(*e) != set.size()) violation("wrong-words", "the dictionary read back holds %zu words, the list %zu", dict_count(*e), set.size());
        std::ostringstream os2; dict_write(os2, *e);
        if (os2.str() != text) violation("wrong-words", "the dictionary read back is stored differently");
        dict_free(e);
        return;
    }
    auto& f = add_file("/sim/dict", text);
    draw_delivery();
    if (huge) huge_run();
    FK fk = FK_NONE;
    bool must_refuse = false, edited = false;
    if (mode == 1 || mode == 5) {
        size_t cut = draw_cut(text);
        if (chance(1, 2, "line")) { size_t nl = text.find('\n', cut); if (nl != std::string::npos) cut = nl + 1; }   // whole lines lost
        f.content.resize(cut); fault(F_TORN); note("file is torn after %zu of %zu bytes", cut, text.size());
        must_refuse = cut != 0 && cut != text.size() && !(cut + 1 == text.size());
        edited = cut != text.size();
    }
    if (mode == 2 && !text.empty()) {   // impossible structure
        std::vector<std::vector<unsigned long>> n;
        std::istringstream is(text); std::string l;
        while (std::getline(is, l)) { std::istringstream ls(l); std::vector<unsigned long> v(4); ls >> v[0] >> v[1] >> v[2] >> v[3]; n.push_back(v); }
        size_t i = choose(uint32_t(n.size()), "node");
        unsigned how = choose(8, "how");
        unsigned long N = n.size();
        if (how == 5) {       // the children of a node are in order and distinct: find a node with a following sibling
            std::vector<size_t> left;
            size_t first = n[0][1];
            auto range = [&](size_t a, size_t k) { for (size_t j = a; j + 1 < a + k; ++j) left.push_back(j); };
            range(0, first);
            for (size_t j = 0; j < N; ++j) { range(first, n[j][2]); first += n[j][2]; }
            if (left.empty()) how = 0; else i = left[choose(uint32_t(left.size()), "sibling")];
        }
        switch (how) {
            case 0: n[i][2] = N - i + 1 + choose(5, "n"); break;                     // more children than nodes
            case 1: n[i][1] = N - i + 1 + choose(5, "n"); break;                     // children beyond the end
            case 2: if (n[i][2]) n[i][1] = 0; else { n[i][1] = 0; n[i][2] = 1; } break;  // its own child
            case 3: n[i][3] = 2 + choose(3, "t"); break;
            case 4: n[i][1] = 4294967295ul - choose(8, "n"); n[i][2] = 1 + choose(3, "sz"); break;
            case 5: if (choose(2, "twice?")) n[i + 1][0] = n[i][0]; else std::swap(n[i][0], n[i + 1][0]); break;   // siblings out of order, or twice the same
            case 6: if (choose(2, "back?")) n[i][1] -= 1; else n[i][1] += 1; break;     // children somewhere else
            case 7: if (n[i][2] && choose(2, "less?")) n[i][2] -= 1; else n[i][2] += 1; break;
        }
        fault(F_CORRUPT); note("node %zu is now %lu %lu %lu %lu", i, n[i][0], n[i][1], n[i][2], n[i][3]);
        std::string s; for (auto& v : n) s += std::to_string(v[0]) + " " + std::to_string(v[1]) + " " + std::to_string(v[2]) + " " + std::to_string(v[3]) + "\n";
        f.content = s; edited = must_refuse = true;
    }
    if (mode >= 3) fk = draw_fault(f);
    Dict* e = nullptr;
    bool r = armed([&] { return dict_load("/sim/dict", e, err); });
    ev("loaded", r); note("load: %s", r ? "ok" : err.c_str());
    if (f.resized) { size_t n = f.seen.size(); must_refuse = prefix_seen(f, text) && n && n + 1 < text.size(); edited = true; }
    if (r) {
        if (f.st().open_fails) violation("open-failure-ignored", "the file could not be opened, yet loading reported success");
        if (must_refuse) violation("torn-accepted", "a damaged dictionary (%zu of %zu bytes) was loaded", f.content.size(), text.size());
        if (!edited || (f.content.size() + 1 == text.size() && !f.resized && f.content.size() > 0)) {
            check_dict(*e, set, words, "the dictionary loaded");
            if (dict_count(*e) != set.size()) violation("wrong-words", "the dictionary loaded holds %zu words, the list %zu (reads failed: %d)", dict_count(*e), set.size(), int(errors_delivered(f)));
        }
        dict_free(e);
    }
    else if (!edited && (fk == FK_NONE || ((fk == FK_READ || fk == FK_READ_ONCE) && !errors_delivered(f)))) must_ok(false, err, "a dictionary file");
}

// ---- C06 --------------------------------------------------------------------------------
static void check_index(Index const& ix, std::vector<G> const& gs) {
    if (index_size(ix) != gs.size()) violation("wrong-index", "the index has %zu entries, the file %zu records", index_size(ix), gs.size());
    std::map<std::string, unsigned> word_id, font_id;
    std::map<unsigned, std::string> id_word, id_font;
    for (size_t i = 0; i < gs.size(); ++i) {
        auto e = index_entry(ix, i);
        if (e.size() != gs[i].views.size()) violation("wrong-index", "entry %zu names %zu words, the record %zu", i, e.size(), gs[i].views.size());
        for (size_t k = 0; k < e.size(); ++k) {
            auto& v = gs[i].views[k];
            if (e[k].text != v.word) violation("wrong-index", "entry %zu, name %zu is %s, the record says %s", i, k, quote(e[k].text).c_str(), quote(v.word).c_str());
            if (!e[k].terminated) violation("unterminated", "the text of %s is not terminated", quote(v.word).c_str());
            auto a = word_id.emplace(v.word, e[k].word); auto b = id_word.emplace(e[k].word, v.word);
            if (a.first->second != e[k].word || b.first->second != v.word) violation("wrong-identity", "words %s and %s share or split an identity", quote(v.word).c_str(), quote(b.first->second).c_str());
            auto c = font_id.emplace(v.font, e[k].font); auto d = id_font.emplace(e[k].font, v.font);
            if (c.first->second != e[k].font || d.first->second != v.font) violation("wrong-identity", "fonts %s and %s share or split an identity", quote(v.font).c_str(), quote(d.first->second).c_str());
        }
    }
    std::vector<std::string> probe;
    // looking up takes time in the number of words: a sample of many
    size_t every = word_id.size() > 3000 ? word_id.size() / 12 : 1, nth = 0;
    for (auto& w : word_id) {
        if (nth++ % every && nth != word_id.size()) continue;
        probe.push_back(w.first); probe.push_back(w.first + "a"); probe.push_back(w.first.substr(0, w.first.size() - 1)); probe.push_back(w.first + w.first);
        std::string x = w.first; x.back() = char(x.back() + 1); probe.push_back(x);
    }
    probe.push_back("a"); probe.push_back("zzz"); probe.push_back("ab"); probe.push_back("tt");
    for (auto& p : probe) {
        if (p.empty()) continue;
        unsigned idx = 0;
        bool found = index_find(ix, p, idx);
        auto it = word_id.find(p);
        if (found != (it != word_id.end())) violation("wrong-lookup", "looking up %s %s a name", quote(p).c_str(), found ? "finds" : "does not find");
        if (found && it->second != idx) violation("wrong-lookup", "looking up %s finds the identity %u of another word (its own is %u)", quote(p).c_str(), idx, it->second);
    }
}
void c06() {
    g_fill = (unsigned char)choose(256, "fill");
    bool huge = chance(1, 400, "huge");
    std::vector<G> gs = huge ? gen_huge_glyphs() : gen_glyphs(choose(3, "many") ? 5 : 14, false);
    if (huge) huge_run();
    for (auto& g : gs) if (gs.size() < 300 && chance(1, 6, "noviews")) g.views.resize(1);
    std::vector<size_t> b;
    std::string text = enc_glyphs(gs, &b), err;
    unsigned mode = choose(5, "mode");
    note("library: %s, mode %u", show(gs).c_str(), mode);
    nontrivial();
    if (mode <= 1) {
        auto in = make_in(text);
        std::istream is(in.get());
        Index* ix = index_new();
        bool r = index_read(is, *ix, err);
        must_ok(r, err, "a glyph library");
        check_index(*ix, gs);
        index_free(ix);
        return;
    }
    auto& f = add_file("/sim/lib", text);
    draw_delivery();
    if (huge) huge_run();
    FK fk = FK_NONE;
    size_t cut = text.size(), nrec = gs.size();
    Cut c = CUT_BOUNDARY;
    if (mode == 2 || (mode == 4 && choose(2, "torn+"))) {
        cut = draw_cut(text);
        c = classify(b, cut, nrec);
        f.content.resize(cut); fault(F_TORN); note("file is torn after %zu of %zu bytes", cut, text.size());
    }
    if (mode >= 3) fk = draw_fault(f);
    Index* ix = nullptr;
    bool r = armed([&] { return index_load("/sim/lib", ix, err); });
    ev("loaded", r); note("load: %s", r ? "ok" : err.c_str());
    if (f.resized && r) { if (!prefix_seen(f, text)) { index_free(ix); return; } cut = f.seen.size(); c = classify(b, cut, nrec); }
    if (r) {
        if (f.st().open_fails) violation("open-failure-ignored", "the file could not be opened, yet loading reported success");
        if (c == CUT_TORN) violation("torn-accepted", "the file ends inside a record (after %zu of %zu bytes), yet the index was loaded with %zu entries", cut, text.size(), index_size(*ix));
        check_index(*ix, std::vector<G>(gs.begin(), gs.begin() + long(nrec)));
        index_free(ix);
    }
    else if (c == CUT_BOUNDARY && (fk == FK_NONE || ((fk == FK_READ || fk == FK_READ_ONCE) && !errors_delivered(f)))) must_ok(false, err, "a glyph library file");
}

// ---- C07 --------------------------------------------------------------------------------
void c07() {
    unsigned mode = choose(6, "mode");
    std::string err;
    nontrivial();
    if (mode >= 4) {           // replacements
        typedef std::vector<std::pair<std::string, std::string>> R;
        R want;
        unsigned n = small(9, "pairs");
        std::string text;
        static const char* const pool[] = {"a", "b", "rn", "m", "ii", "n", "aa", "ab", "vv", "w", "\xc3\xa9", "e", "aXb", "||", "x"};
        for (unsigned i = 0; i < n; ++i) {
            std::string p = pool[choose(15, "p")], q = choose(4, "empty") ? pool[choose(15, "q")] : "";
            if (!q.empty() && choose(3, "nest") == 0) q = p + q;
            want.push_back({p, q});
            static const char* const sep[] = {" ", "\t", "  ", " \t ", "\t\t"};
            static const char* const tail[] = {"", " ", "\r", "\t", "  ", " \r"};
            text += p; if (!q.empty()) text += sep[small(5, "sep")] + q;
            text += tail[small(6, "tail")];
            if (i + 1 < n || choose(3, "nl")) text += choose(8, "blank line") ? "\n" : "\n\n";
        }
        note("replacements %s", quote(text).c_str());
        auto in = make_in(text);
        std::istream is(in.get());
        R got;
        bool r = repl_read(is, got, err);
        must_ok(r, err, "a replacement table");
        auto showr = [](R const& x) { std::string s; for (auto& p : x) s += p.first + "=>" + p.second + ";"; return quote(s, 300); };
        if (got != want) violation("wrong-pairs", "read %s, the file holds %s", showr(got).c_str(), showr(want).c_str());
        std::string t; unsigned len = small(16, "len");
        for (unsigned i = 0; i < len; ++i) t += pool[choose(15, "t")];
        // a finite replacement of such a text: what was put in is not looked at again
        std::string exp = t;
        uint64_t budget = 60000;
        for (auto& p : want) {
            budget += 400 * (exp.size() + 1);
            size_t pos = 0;
            while ((pos = exp.find(p.first, pos)) != std::string::npos) { exp.replace(pos, p.first.size(), p.second); pos += p.second.size(); budget += 2000; }
            budget += 400 * exp.size();
        }
        A->tick_limit = A->ticks + budget;
        std::string res = repl_apply(t, got);
        ev("applied", fnv(res));
        note("%s becomes %s", quote(t).c_str(), quote(res).c_str());
        return;
    }
    std::vector<G> lib;
    std::vector<std::string> names;
    if (mode == 0 && choose(3, "joined") == 0) { lib = gen_glyphs(5, false); for (auto& g : lib) for (auto& v : g.views) names.push_back(v.word); }
    bool huge = lib.empty() && chance(1, 300, "huge");
    auto ws = huge ? gen_huge_wlines() : gen_wlines(choose(3, "many") ? 6 : 30, names);
    if (huge) huge_run();
    if (!huge && !ws.empty() && chance(1, 10, "odd bytes")) {     // bytes that are not text, in the middle or at the end of a word
        static const char odd[] = {0, 0, 0, 1, 27, 127, char(0x80), char(0xa0), char(0xff)};
        for (unsigned k = 1 + small(3, "odd"); k; --k) { auto& w = ws[choose(uint32_t(ws.size()), "entry")].word; w.insert(choose(uint32_t(w.size() + 1), "at"), 1, odd[choose(9, "byte")]); }
    }
    std::vector<size_t> b;
    std::string text = enc_wlines(ws, &b);
    auto fits = [](std::vector<WLine> const& v) { std::vector<WLine> r; for (auto& w : v) if (w.word.size() <= 8) r.push_back(w); return r; };
    auto shw = [](std::vector<WLine> const& v) { return std::to_string(v.size()) + " entries " + quote(enc_wlines(v), 200); };
    note("word lines %s, mode %u", quote(text, 200).c_str(), mode);
    if (mode == 0) {
        auto in = make_in(text);
        std::istream is(in.get());
        std::vector<WLine> got;
        bool r = wlines_read(is, got, err);
        must_ok(r, err, "a word-line table");
        if (got != fits(ws)) violation("wrong-entries", "read %s, the file holds %s", shw(got).c_str(), shw(fits(ws)).c_str());
        if (!lib.empty()) {    // the attributes the words of a library get from the table
            add_file("/sim/lib", enc_glyphs(lib)); add_file("/sim/wl", text);
            draw_delivery();
            Index* ix = nullptr;
            bool r2 = index_load("/sim/lib", ix, err);
            must_ok(r2, err, "a glyph library");
            std::map<unsigned, std::string> text_of;
            for (size_t i = 0; i < index_size(*ix); ++i) for (auto& v : index_entry(*ix, i)) text_of[v.word] = v.text;
            std::map<std::string, std::set<std::vector<unsigned>>> has;
            for (auto& w : fits(ws)) has[w.word].insert({w.a, w.c, w.m, w.b});
            std::set<std::string> seen;
            for (auto& p : words_infos(*ix, "/sim/wl")) {
                auto& w = text_of[p.first];
                seen.insert(w);
                if (!has.count(w)) violation("wrong-join", "the word %s gets attributes, but the table has no entry for it", quote(w).c_str());
                if (!has[w].count({p.second.a, p.second.c, p.second.m, p.second.b})) violation("wrong-join", "the word %s gets the attributes %u %u %u %u, which no entry of that word has", quote(w).c_str(), p.second.a, p.second.c, p.second.m, p.second.b);
            }
            for (auto& p : text_of) if (has.count(p.second) && !seen.count(p.second)) violation("wrong-join", "the word %s gets no attributes although the table has an entry for it", quote(p.second).c_str());
            index_free(ix);
        }
        return;
    }
    auto& f = add_file("/sim/wl", text);
    draw_delivery();
    if (huge) huge_run();
    FK fk = FK_NONE;
    size_t cut = text.size(), nrec = ws.size();
    Cut c = CUT_BOUNDARY;
    if (mode == 1) {
        cut = draw_cut(text);
        c = classify(b, cut, nrec);
        f.content.resize(cut); fault(F_TORN); note("file is torn after %zu of %zu bytes", cut, text.size());
    }
    else fk = draw_fault(f);
    std::vector<WLine> got;
    bool r = armed([&] { return wlines_load("/sim/wl", got, err); });
    ev("loaded", r, got.size()); note("load: %s", r ? shw(got).c_str() : err.c_str());
    if (f.resized && r) { if (!prefix_seen(f, text)) return; cut = f.seen.size(); c = classify(b, cut, nrec); }
    if (r) {
        if (f.st().open_fails) violation("open-failure-ignored", "the file could not be opened, yet loading reported success");
        if (c == CUT_TORN) violation("torn-accepted", "the file ends inside an entry (after %zu of %zu bytes), yet loading gave %s", cut, text.size(), shw(got).c_str());
        auto exp = fits(std::vector<WLine>(ws.begin(), ws.begin() + long(nrec)));
        if (got != exp) violation("wrong-entries", "loaded %s, the file holds %s (reads failed: %d)", shw(got).c_str(), shw(exp).c_str(), int(errors_delivered(f)));
    }
    else if (c == CUT_BOUNDARY && (fk == FK_NONE || ((fk == FK_READ || fk == FK_READ_ONCE) && !errors_delivered(f)))) must_ok(false, err, "a word-line file");
}

// ---- C17 --------------------------------------------------------------------------------
// A history of loads, some cut short: each later load gives what it gives as the first load of a process.
static std::string gen_repl() {
    static const char* const pool[] = {"a", "b", "rn", "m", "ii", "vv", "w", "\xc3\xa9", "aXb", "||"};
    std::string text;
    for (unsigned n = small(7, "pairs"); n--;) {
        text += pool[choose(10, "p")];
        if (choose(4, "empty")) text += std::string(" ") + pool[choose(10, "q")];
        text += choose(8, "blank") ? "\n" : " \n";
    }
    return text;
}
void c17() {
    static const char* const names[] = {"an image", "a glyph library", "a feature table", "a dictionary", "a glyph index", "a word-line table", "a replacement table"};
    struct Content { unsigned kind, lum; std::string bytes, dump; bool ok; };
    struct Live { Obj* o; int content; unsigned kind; };   // content -1: unknown after a failed read
    g_cold = true;
    g_alloc.max = 64u << 20;
    unsigned char fill = (unsigned char)choose(256, "fill");
    unsigned nc = 2 + choose(5, "contents"), narrow = choose(3, "narrow") ? 7 : choose(7, "only");
    std::vector<Content> cs;
    std::string prev[7];
    for (unsigned i = 0; i < nc; ++i) {
        Content c;
        c.kind = narrow < 7 ? narrow : choose(7, "kind");
        static const unsigned lums[] = {128, 100, 1, 255};
        c.lum = lums[choose(4, "lum")];
        c.bytes = c.kind == 6 ? gen_repl() : any_file(c.kind);
        switch (choose(6, "damage")) {
            case 1: c.bytes = corrupt(c.bytes, 1 + small(3, "edits")); break;
            case 2: c.bytes.resize(draw_cut(c.bytes)); fault(F_TORN); break;
            case 3: if (!prev[c.kind].empty()) { c.bytes = prev[c.kind]; if (choose(2, "alter")) c.bytes = corrupt(c.bytes, 1); else c.lum = lums[choose(4, "lum2")]; } break;   // nearly the earlier file
            default: break;
        }
        prev[c.kind] = c.bytes;
        std::string path = "/sim/c" + std::to_string(i);
        add_file(path, c.bytes);
        std::string r = in_fork([&] {          // the first load of a process
            g_fill = (unsigned char)(fill ^ 0x5a);
            Obj* o = obj_new(c.kind);
            std::string err;
            return obj_load(*o, path.c_str(), c.lum, err) ? "+" + obj_dump(*o) : std::string("-");
        });
        c.ok = r[0] == '+'; c.dump = r.substr(1);
        note("content %u: %s, %zu bytes, %s", i, names[c.kind], c.bytes.size(), c.ok ? "loads" : "is refused");
        cs.push_back(c);
    }
    g_fill = fill;
    std::vector<Live> live;
    auto check_others = [&](Live const* but, const char* after) {
        for (auto& l : live) if (&l != but && l.content >= 0 && obj_dump(*l.o) != cs[size_t(l.content)].dump)
            violation("changed-by-another", "%s loaded earlier changed its contents when %s", names[l.kind], after);
    };
    unsigned nops = 2 + small(14, "ops");
    nontrivial();
    for (unsigned op = 0; op < nops; ++op) {
        if (!live.empty() && chance(1, 8, "write?")) {          // store an object somewhere that fails
            Live& l = live[choose(uint32_t(live.size()), "which")];
            if (l.content < 0 || l.kind > 3) continue;
            OutBuf b(choose(400, "capacity"), choose(40, "buf"));
            std::ostream os(&b);
            note("store the %s, the medium takes %zu bytes", names[l.kind], b.capacity);
            obj_write(os, *l.o);
            check_others(nullptr, "one was stored on a failing medium");
            continue;
        }
        if (!live.empty() && chance(1, 8, "free?")) {
            unsigned i = choose(uint32_t(live.size()), "which");
            obj_free(live[i].o);
            live.erase(live.begin() + i);
            note("an object is destroyed");
            check_others(nullptr, "another was destroyed");
            continue;
        }
        unsigned ci = choose(nc, "content");
        Content& c = cs[ci];
        // the same name may hold another file by now
        std::string path = choose(2, "name") ? "/sim/c" + std::to_string(ci) : "/sim/k" + std::to_string(c.kind);
        auto& f = add_file(path, c.bytes);
        draw_delivery();
        FK fk = choose(2, "fault?") ? draw_fault(f, ~((1u << FK_SHRINK) | (1u << FK_GROW))) : FK_NONE;
        Live* t = nullptr;
        if (choose(2, "reuse?")) for (auto& l : live) if (l.kind == c.kind && (!t || choose(2, "other?"))) t = &l;
        if (!t) { live.push_back({obj_new(c.kind), -1, c.kind}); t = &live.back(); }
        bool reread = c.kind >= 2 && c.kind <= 4 && choose(2, "into?");
        std::string err;
        bool r = armed([&] { return reread ? obj_reread(*t->o, path.c_str(), err) : obj_load(*t->o, path.c_str(), c.lum, err); });
        ev("load", c.kind, r); note("%s content %u (%s)%s: %s", path.c_str(), ci, fk_names[fk], reread ? " into the existing object" : "", r ? "ok" : err.c_str());
        clear_plan(f);
        if (r) {
            if (!c.ok) violation("accepted-later", "%s that is refused by a fresh process was loaded after other loads", names[c.kind]);
            std::string d = obj_dump(*t->o);
            if (d != c.dump) violation("history-dependent", "%s loaded after other loads is %s, as the first load of a process it is %s", names[c.kind], quote(d, 200).c_str(), quote(c.dump, 200).c_str());
            t->content = int(ci);
        } else {
            if (c.ok && fk == FK_NONE) violation("refused-later", "%s that a fresh process loads was refused after other loads: %s", names[c.kind], err.c_str());
            if (reread) t->content = -1;          // it can be read again, that is all
        }
        check_others(t, "another was loaded");
        if (t->content >= 0 && !r && obj_dump(*t->o) != cs[size_t(t->content)].dump) violation("changed-by-failure", "%s changed although the load that was to replace it failed before it was assigned", names[t->kind]);
    }
    for (auto& l : live) obj_free(l.o);
}
}
