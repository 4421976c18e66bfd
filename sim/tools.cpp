// The command-line programs, linked in under other names (see build.py).
#include "seam.hpp"
extern "C" {
int tool_make_trie_dictionary_main(int, char**);
int tool_write_glyphs_main(int, char**);
int tool_show_glyphs_main(int, char**);
int tool_normalize_glyphs_main(int, char**);
int tool_write_datas_main(int, char**);
int tool_ocr2_extract_text_main(int, char**);
int tool_extract_text6_main(int, char**);
int tool_extract_text8_main(int, char**);
typedef int (*main_t)(int, char**);
}
struct Tool { const char* name; main_t fn; };
extern const Tool g_tools[];
extern const unsigned g_ntools;
const Tool g_tools[] = {
    {"make_trie_dictionary", tool_make_trie_dictionary_main}, {"write_glyphs", tool_write_glyphs_main},
    {"show_glyphs", tool_show_glyphs_main}, {"normalize_glyphs", tool_normalize_glyphs_main},
    {"write_datas", tool_write_datas_main}, {"ocr2_extract_text", tool_ocr2_extract_text_main},
    {"extract_text6", tool_extract_text6_main}, {"extract_text8", tool_extract_text8_main},
};
const unsigned g_ntools = 8;
