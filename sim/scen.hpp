#pragma once
#include "gen.hpp"
#include <set>
namespace sim {
extern bool g_cold;      // table_text and dict_text run the library in a process of their own
std::string table_text(std::vector<ad::G> const& gs);
std::string dict_text(std::vector<std::string> const& words);
std::string glyphs_text(std::vector<ad::G> const& gs);
std::set<std::string> word_set(std::vector<std::string> const& w);
void check_dict(ad::Dict const& d, std::set<std::string> const& set, std::vector<std::string> const& words, const char* what);
size_t dict_count(ad::Dict const& d);
void c13_tool();
void c10_tool();
void c16_tool();
bool any_load(unsigned which, const char* path, std::string& err);   // every loader as one operation
std::string any_file(unsigned which);
std::vector<G> model_glyphs(unsigned maxn, unsigned crowd = 0);   // one in `crowd` times some hundreds;                         // distinct pictures, at least one
void c01(); void c02(); void c03(); void c04(); void c05(); void c06(); void c07(); void c08();
void c09(); void c10(); void c11(); void c12(); void c13(); void c14(); void c15(); void c16(); void c17(); void c18();
}
