#include "scen.hpp"
namespace sim {
const Prop props[] = {
    {"C01", c01, "a run is one image file, luminance and delivery plan whose load was judged against the reference decoder"},
    {"C02", c02, "a run is one history of loads with an injected failure whose descriptors and memory were balanced"},
    {"C03", c03, "a run is one glyph library written, delivered in pieces, cut or failing, and read back"},
    {"C04", c04, "a run is one feature table written, delivered in pieces, cut, overwritten or failing, and read back"},
    {"C05", c05, "a run is one word list whose dictionary was checked word by word, stored, cut, altered or failing, and read back"},
    {"C06", c06, "a run is one glyph library whose index was compared with its records, or whose damaged form was offered"},
    {"C07", c07, "a run is one word-line or replacement table compared with the reference reader, or cut or failing"},
    {"C08", c08, "a run is one tool executed without faults and then under one to four fault plans"},
    {"C09", c09, "a run is one font set learned without faults, then one or two faulty learning runs and a fault-free rerun"},
    {"C10", c10, "a run is one model and one history of pictures through reused buffers, at least one of which was compared with its solo result"},
    {"C11", c11, "a run is one interleaving of two to four callers, each compared with its solo run"},
    {"C12", c12, "a run is one table history with at least one addition cut short by a failing allocation"},
    {"C13", c13, "a run is a sequence of loads, replacements or a tool run under storms and damage whose work was bounded"},
    {"C14", c14, "a run is one set of input files recognised in two or three environments"},
    {"C15", c15, "a run is one sequence of objects written to one to eight failing media"},
    {"C16", c16, "a run is one set of damaged files loaded and used in every way"},
    {"C17", c17, "a run is one history of loads, some of them cut short, each compared with the first load of a process"},
    {"C18", c18, "a run is one model and a sequence of pieces of work in memory, at least one of them cut short by a failing allocation, each repeated and compared with its first result in a process of its own"},
};
const unsigned nprops = sizeof props / sizeof *props;
}
