// Thin shell around the public API of the code under test (compiled and instrumented with it).
#pragma once
#include <string>
#include <vector>
#include <iosfwd>
#include <utility>
#include <cstdint>

namespace ad {

struct Img { unsigned w = 0, h = 0; std::string px; bool operator==(Img const& o) const { return w == o.w && h == o.h && px == o.px; } };
struct GView { std::string word, font; unsigned line = 0; bool operator==(GView const& o) const { return word == o.word && font == o.font && line == o.line; } };
struct G { Img img; std::vector<GView> views; bool operator==(G const& o) const { return img == o.img && views == o.views; } };

// Every call returns false (and sets `err`) when the code under test reported an error.
bool load_image(const char* path, unsigned lum, Img& out, std::string& err);
void write_image(std::ostream& os, Img const& im);

bool load_glyphs(const char* path, std::vector<G>& out, std::string& err);
bool read_glyphs(std::istream& is, std::vector<G>& out, std::string& err);   // operator>> on a stream
void write_glyphs(std::ostream& os, std::vector<G> const& gs);
bool read_glyph1(std::istream& is, G& out);                                  // single record; true if the stream says good

struct Table;
Table* table_new();
void table_free(Table*);
bool table_add(Table*, Img const&, std::string& err);
bool table_load(const char* path, Table*& out, std::string& err);
bool table_read(std::istream& is, Table& t, std::string& err);
void table_write(std::ostream& os, Table const&);
std::vector<size_t> table_sizes(Table const&);
unsigned table_features();
std::string table_row(Table const&, size_t i);   // the values of row i
std::string table_dump(Table const&);            // every value, independently of the writer

struct Dict;
Dict* dict_new(std::vector<std::string> const& words);
void dict_free(Dict*);
bool dict_load(const char* path, Dict*& out, std::string& err);
bool dict_read(std::istream& is, Dict& d, std::string& err);
void dict_write(std::ostream& os, Dict const&);
bool dict_accepts(Dict const&, std::vector<std::string> const& chars, std::string* out = nullptr);
bool dict_empty(Dict const&);
bool dict_words(Dict const&, std::vector<std::vector<uint32_t>>& out, size_t limit); // false: structure too large (cyclic)

struct Index;
bool index_load(const char* path, Index*& out, std::string& err);
bool index_read(std::istream& is, Index& out, std::string& err);
Index* index_new();
void index_free(Index*);
size_t index_size(Index const&);
struct IView { unsigned word, font; std::string text; bool terminated; };
std::vector<IView> index_entry(Index const&, size_t i);
bool index_find(Index const&, std::string const& s, unsigned& idx);
std::vector<std::vector<unsigned>> index_by_words(Index const&);
std::vector<unsigned> index_views_order(Index const&);

struct WLine { std::string word; unsigned a, c, m, b; bool operator==(WLine const& o) const { return word == o.word && a == o.a && c == o.c && m == o.m && b == o.b; } };
bool wlines_load(const char* path, std::vector<WLine>& out, std::string& err);
bool wlines_read(std::istream& is, std::vector<WLine>& out, std::string& err);
// attributes found for each word of the index through the joined table
std::vector<std::pair<unsigned, WLine>> words_infos(Index const&, const char* path);

bool repl_read(std::istream& is, std::vector<std::pair<std::string, std::string>>& out, std::string& err);
std::string repl_apply(std::string text, std::vector<std::pair<std::string, std::string>> const& r);

// an object of any loadable kind, kept as the library's own type (0 image, 1 glyph library, 2 feature table, 3 dictionary,
// 4 glyph index, 5 word lines, 6 replacements)
struct Obj;
Obj* obj_new(unsigned kind);
bool obj_load(Obj& o, const char* path, unsigned lum, std::string& err);     // load_from_file, then assigned
bool obj_reread(Obj& o, const char* path, std::string& err);                 // read_file into the object; kinds 2, 3 and 4
std::string obj_dump(Obj const& o);
void obj_write(std::ostream& os, Obj const& o);
void obj_free(Obj* o);

struct Model;                 // glyph index + table + dictionary, read-only once built
bool model_load(const char* glyphs, const char* table, const char* dict, const char* wlines, Model*& out, std::string& err);
struct Work;                  // reusable working state of one caller
Work* work_new(Model const&, std::string& err);
void work_free(Work*);
// ranked "word/font" list
bool recognise(Model const&, Work&, Img const&, std::string& out, std::string& err);
// the whole line: boxes, recognition, filters, disambiguation
bool recognise_line(Model const&, Work&, Img const&, std::string& out, std::string& err);
// features of one image computed through the caller's reused buffers, as a one-row table
bool features(Work&, Img const&, std::string& out, std::string& err);
bool vast_picture(unsigned what, unsigned w, unsigned h, std::string& err);
bool model_has_word(Model const&, std::vector<std::string> const& chars, std::string& out);
bool model_find(Model const&, std::string const& word, unsigned& idx);
size_t model_size(Model const&);
void model_free(Model*);
std::vector<Img> segment(Img const& line);

// one piece of work in memory on objects that are only read: the model and these
struct Stage;
Stage* stage_new(Img const& line, Img const& pic, std::vector<G> const& gs, std::vector<WLine> const& wl, std::vector<std::pair<std::string, std::string>> const& rp, std::vector<std::string> const& words, std::string const& text);
void stage_free(Stage*);
std::string stage_dump(Stage const&);
std::string model_dump(Model const&);
unsigned stage_works();
const char* stage_name(unsigned op);
bool stage_work(unsigned op, Model const&, Stage const&, std::string& out, std::string& err);

}
