// Generators of well-formed inputs, reference encoders and decoders.
#pragma once
#include "seam.hpp"
#include "adapter.hpp"
#include <string>
#include <vector>
#include <set>

namespace sim {
using ad::Img; using ad::G; using ad::GView; using ad::WLine;

Img gen_img(unsigned maxw, unsigned maxh);          // any picture
inline uint32_t lcg(uint32_t& s) { s = s * 1664525u + 1013904223u; return s >> 8; }
Img gen_shape(unsigned maxw, unsigned maxh);        // letter-like picture, ink on every border
void add_crowd(std::vector<Img>& to, unsigned n, std::set<std::string>& seen);   // n more small pictures, none of them seen
Img gen_big(bool shape);                            // thousands of pixels
Img near_picture(Img i);
std::string gen_long(unsigned max);                 // hundreds of letters
// sizes past 8 and 16 bit counters; one choice decides the contents
unsigned gen_count();                               // around a power of two, up to 70000
Img gen_huge_img();
std::vector<G> gen_huge_glyphs();
std::vector<std::string> gen_huge_words();
std::vector<WLine> gen_huge_wlines();
void huge_run();                                    // work limits and delivery of such a run
std::string utf8(uint32_t c);
Img corpus_img();                                   // real glyph
std::string gen_word();
std::string gen_font();
std::vector<G> gen_glyphs(unsigned maxn, bool corpus);
std::vector<std::string> gen_words(unsigned maxn);  // dictionary words (no NUL, valid UTF-8)
std::vector<WLine> gen_wlines(unsigned maxn, std::vector<std::string> const& extra);

std::string enc_glyphs(std::vector<G> const& gs, std::vector<size_t>* bounds = nullptr);
std::string enc_glyphs_lying(std::vector<G> gs);
std::string enc_wlines(std::vector<WLine> const& ws, std::vector<size_t>* bounds = nullptr);
// image encoders; comments and layout are drawn
std::string enc_image(Img const& im, unsigned type);
std::string enc_p6(Img const& im, unsigned lum, bool exact = false);
// 0: not an image file in the supported layout; 1: out is what the bytes encode
int dec_image(std::string const& bytes, unsigned lum, Img& out);
// one text line made of several shapes, as a picture; the shapes in order
Img compose_line(std::vector<Img> const& shapes);

std::vector<std::string> utf8_chars(std::string const& s);

// delivery and faults ------------------------------------------------------
void draw_delivery();                               // short reads
enum FK { FK_NONE, FK_OPEN, FK_FSTAT, FK_READ, FK_READ_ONCE, FK_SHRINK, FK_GROW, FK_CLOSE, FK_ALLOC, FK_EINTR, FK_N };
extern const char* const fk_names[FK_N];
FK draw_fault(SimFile& f, unsigned mask = ~0u);     // plans one fault on the file
struct PlanAlloc { long n = -1; bool persist = false; };
extern PlanAlloc g_plan_alloc;                      // FK_ALLOC: armed around the load
void clear_plan(SimFile& f);
size_t draw_cut(std::string const& text);           // where a torn text ends, any place, often a telling one
std::string corrupt(std::string s, unsigned edits); // storage damage
bool errors_delivered(SimFile const& f);
std::string show(Img const& i);
std::string show(std::vector<G> const& gs);
}
