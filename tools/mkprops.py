#!/usr/bin/env python3
"""Source of properties.jsonl (run from /verif: python3 tools/mkprops.py)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=list(observe),hook_needed=hook)))

p("C01","An image file loads exactly, or is refused, however its bytes arrive",
 "Loading a PBM/PPM image either yields precisely the picture the file's bytes encode, every pixel taken from the file and thresholded at the requested luminance, or raises an error. This holds for every way the operating system may deliver the bytes: partial reads, failed or interrupted calls, a file that shrinks or grows while it is read, memory that runs out. A well-formed file in the supported layout, delivered without an error, is always accepted, and a file with missing, surplus or invalid samples is always refused.",
 ["inputs","fault_sequences"],
 "every image file content of the supported kinds, every luminance, and every sequence of short reads, errno returns, size changes between size query and read, and allocation failures",
 "test_image loads three intact files from a page cache that always returns everything in one read; no test has a short read, an error, a shrinking file or a malformed sample area.",
 ["src/ppocr/image/image_from_file.cpp","src/ppocr/image/image.cpp"],
 [("read loop over the descriptor","read_all in image_from_file.cpp"),("header parser and per-format decoders","PnmHeader::parse, image_from_file")],
 [("bytes read so far","how much of the sized buffer is real file content","read_all: remaining")],
 ["the image returned, or the error raised"])

p("C02","Every load gives back all the descriptors and memory it acquired",
 "After any load of an image, glyph library, feature table, dictionary or word-line table has returned or failed, every file descriptor it opened has been closed exactly once, no descriptor it did not open has been closed, and repeating the same load any number of times makes neither open descriptors nor retained memory grow. This holds whichever system call or allocation inside the load failed.",
 ["fault_sequences","histories"],
 "every history of successful and failing loads, with a failure injected at any open, size query, read, close or allocation",
 "tests never make a system call or an allocation fail inside a load and never count descriptors.",
 ["src/ppocr/image/image_from_file.cpp","src/ppocr/utils/read_file.hpp","src/ppocr/loader2/glyphs_loader.cpp","src/ppocr/defined_loader.hpp"],
 [("descriptor guard","File in image_from_file.cpp"),("buffer guard","Buffer in image_from_file.cpp"),("stream-owned file","check_read_file in read_file.hpp")],
 [("open descriptors","descriptors owned by the process","kernel table behind the open/close seam")],
 ["the descriptor table and the heap before and after each load"])

p("C03","A glyph library reads back as written; a torn one is reported",
 "A list of glyphs (pixels, words, fonts, source lines) written to a stream and read back is the same list in the same order, whatever the sizes of the pieces in which the medium delivers it. If the stored file ends inside a record, or reading it fails part-way, loading the library from the file reports an error and never passes off the readable part, or a partly filled record, as the complete library.",
 ["inputs","crash_points","fault_sequences"],
 "every list of glyphs, every truncation point of its stored form, every chunking and every read error position",
 "test_glyphs_loader round-trips one two-glyph library held completely in memory; it has no truncation and no I/O error.",
 ["src/ppocr/loader2/glyphs_loader.cpp","src/ppocr/loader2/image_io.cpp","src/ppocr/utils/read_file.hpp","src/ppocr/image/coordinate.cpp"],
 [("record parser","operator>>(Glyphs/Glyph/Views/View), read_img"),("serialiser","operator<<(Glyphs), write_img"),("end-of-file test","check_read_file")],
 (),["the list obtained and whether loading from the file raised an error"])

p("C04","A feature table loads completely or is reported; it never loads half-filled",
 "A table of glyph features written to a stream and read back holds the same rows with every feature of every row equal, whatever the sizes of the pieces in which it arrives. If the stored table ends early, holds text that is not a value of the expected kind, or reading fails part-way, loading it from the file reports an error; a table obtained without an error always has the same number of values, namely its declared number of rows, for every feature.",
 ["inputs","crash_points","fault_sequences"],
 "every table of computed features, every truncation point, every overwritten token, every chunking and read error position",
 "test_datas_loader checks four in-memory rows of one feature and never reads a table from a stream at all.",
 ["src/ppocr/defined_loader.hpp","src/ppocr/loader2/datas_loader.hpp","src/ppocr/strategies/alternations.hpp","src/ppocr/utils/read_file.hpp"],
 [("column reader/writer","ReadApplyData, WriteApplyData"),("end-of-file test","check_read_file")],
 [("columns","one value per row and feature","Datas / Data<Strategy>")],
 ["the table obtained and whether loading it raised an error"])

p("C05","A dictionary accepts exactly its words; stored, it returns intact or is refused",
 "A dictionary built from a word list accepts exactly the words of the list, before and after being written to a stream and read back, whatever the sizes of the pieces in which it arrives, and reading one leaves the caller's stream formatting as it was. If only a beginning of the stored form is left (short of all of it, but not empty), its structure has become impossible, or it cannot be read to its end, loading it from the file reports an error instead of yielding a dictionary that accepts a different set of words.",
 ["inputs","crash_points","fault_sequences"],
 "every finite list of UTF-8 words, every truncation point of the stored form, structure-breaking alterations, every chunking and read error position",
 "test_dictionary and test_trie build a handful of words; reading is tested on one intact in-memory text; no truncated, altered or failing medium is tried.",
 ["src/ppocr/spell/dictionary.cpp","src/ppocr/spell/dictionary.hpp","src/ppocr/container/trie.hpp","src/ppocr/spell/word_disambiguouser.hpp","src/ppocr/utils/utf.hpp"],
 [("trie construction and flattening","trie::insert_after, flat_trie(trie const&)"),("entry parser with format check","operator>>(Dictionary)"),("flag saver","Saver in operator>>(Dictionary)")],
 [("flat node array","breadth-first nodes with relative child ranges","flat_trie::elems_")],
 ["which words the dictionary accepts, the stream's flags, and whether loading raised an error"])

p("C06","The recogniser's glyph index agrees with the glyph file it was read from",
 "After the recogniser's glyph index is read from a glyph library, entry i names exactly the words of record i in order, two names share an identity exactly when they are the same text (words and fonts alike), looking a word up finds the identity of exactly that word or nothing, and every word's text is terminated. No name appears that the file does not contain, and a file that ends inside a record, or whose read fails part-way, makes loading report an error.",
 ["inputs","crash_points","fault_sequences"],
 "every glyph library, every truncation point, every chunking and read error position, and every word looked up",
 "the existing tests build this index by hand in memory and never read it from a library file.",
 ["src/ppocr/ocr2/glyphs.cpp","src/ppocr/ocr2/glyphs.hpp","src/ppocr/ocr2/words_infos.hpp","src/ppocr/ocr2/data_indexes_by_words.cpp","src/ppocr/ocr2/views_index_ordered.hpp"],
 [("skipping record parser with word/font interning","operator>>(ocr2::Glyphs)"),("packed word buffer and lookup","Glyphs::word_index_of, get_word")],
 [("packed words","length-prefixed, terminated words","Glyphs::buf_word")],
 ["words, identities and lookups of the index, and whether loading raised an error"])

p("C07","Word-line and replacement tables load the file's entries, or report the tear",
 "A word-line table read from a file holds, in order, exactly the entries whose word fits (eight bytes at most), with the four line attributes of each, and joined with a glyph index it gives a word the attributes of one of its entries that names the word, and none to a word it does not name; a replacement table holds exactly the pattern/replacement pairs of the file, in order, with no entry borrowing part of another, and applying a replacement table to a text always finishes. A word-line file that ends inside an entry, or whose read fails part-way, makes loading report an error.",
 ["inputs","crash_points","fault_sequences"],
 "every such table, every truncation point, every chunking and read error position, every text the table is applied to",
 "no existing test reads either table from a medium that ends or fails mid-entry.",
 ["src/ppocr/ocr2/word_lines.cpp","src/ppocr/ocr2/word_lines.hpp","src/ppocr/ocr2/replacement.cpp","src/ppocr/ocr2/replacement.hpp"],
 [("entry parsers","operator>>(WWordsLines), operator>>(WordLines), operator>>(Replacements)"),("substitution loop","replace_words")],
 (),["the table obtained, the text after replacement, and whether loading raised an error"])

p("C08","A tool that exits successfully read all its input and wrote all its output",
 "Whenever one of the command-line tools (building a trie, extracting, showing or normalising glyphs, computing features, recognising text with the current or an earlier recogniser) ends with a success status, every input file named on its command line was read to its end without an error and the bytes that reached its standard output are exactly those of a run in which nothing failed. If any input cannot be opened, read completely or parsed, or any part of the output cannot be written, the tool ends with a failure status.",
 ["fault_sequences","inputs"],
 "every tool, every set of well-formed and damaged input files, every sequence of open, read, write, flush and allocation failures, short transfers and full disks",
 "no test runs any of the tools, and none makes standard output or an input file fail.",
 ["main/make_trie_dictionary.cpp","main/write_glyphs.cpp","main/show_glyphs.cpp","main/normalize_glyphs.cpp","main/write_datas.cpp","main/ocr2_extract_text.cpp","main/extract_text6.cpp","main/extract_text8.cpp"],
 [("open/parse/end-of-file checks","each tool's main"),("exit status","each tool's main")],
 [("bytes on standard output","what survived of the output","behind the write seam")],
 ["exit status, bytes on standard output"])

p("C09","A learning run ends with consistent artefacts or fails without losing its source",
 "When the learning run succeeds, each glyph library it leaves is the normalised form of all the glyphs extracted from the fonts, and each feature table has exactly one row per glyph of its library, in the same order. The intermediate extractions are deleted only when every library and table has been completely written, a run in which any step fails or is killed reports failure, and running it again without faults always yields the same artefacts as a run that never failed.",
 ["crash_points","fault_sequences","histories"],
 "every font set, every step at which a tool fails, is killed or meets a full disk, and every number of reruns",
 "nothing tests the learning run; it would need a failing disk or a killed step.",
 ["learning","main/write_glyphs.cpp","main/normalize_glyphs.cpp","main/write_datas.cpp"],
 [("chain of && steps, deletion last","learning"),("exit status of each tool","main/*.cpp")],
 [("resources/glyphs, resources/datas","artefacts","files written by the run")],
 ["exit status of the run and the artefact files on disk"])

p("C10","What a glyph image is recognised as does not depend on what came before",
 "With a fixed model, the ranked list of candidate words and fonts produced for a glyph image, and the features computed for it, are the same whether the recogniser's working buffers are new or have been reused for any sequence of earlier images of any sizes, including images whose processing was cut short by memory running out, whatever other models the process has loaded and used, and in the recognising tools, whatever other characters the line holds.",
 ["histories","fault_sequences"],
 "every model, every history of images and sizes through the same working state, every allocation failure point in the history",
 "test_compute_image and test_datas_loader process a few images in one order with a working allocator; reuse after a failure and order-independence are never exercised.",
 ["src/ppocr/ocr2/compute_image.hpp","src/ppocr/ocr2/image_context.hpp","src/ppocr/ocr2/probabilities.hpp","src/ppocr/strategies/utils/context.hpp","src/ppocr/strategies/utils/count_zone.hpp","main/extract_text6.cpp","main/extract_text8.cpp"],
 [("per-image reset of cached feature context","compute_image: ctx.reset(), cache_context"),("reused pixel buffers","ImageContext"),("reused candidate buffers","Probabilities")],
 [("context cache","features shared by several strategies","cache_context::is_loaded"),("pixel buffer","image and its rotation","ImageContext::data_")],
 ["candidate list and feature values per image"])

p("C11","Callers in different threads sharing one model each get their solo results",
 "When several threads use the library at the same time, each with its own images, streams and working buffers but sharing one loaded model (glyph index, feature table, dictionary), every operation in every thread (loading files, extracting glyphs, computing features, recognising, looking words up) gives exactly the result it gives when that thread runs alone, for every interleaving.",
 ["schedules","histories"],
 "every interleaving of two to four callers at the granularity of basic blocks, allocations and I/O calls, with shared read-only model data",
 "all existing tests are single-threaded.",
 ["src/ppocr/ocr2","src/ppocr/loader2","src/ppocr/strategies","src/ppocr/spell","src/ppocr/box_char","src/ppocr/image"],
 [("absence of mutable shared state; caller-owned contexts and buffers","compute_image parameters, Datas::load, ImageContext")],
 (),["each thread's results compared with its solo run"])

p("C12","Adding a row to a feature table happens completely or not at all",
 "If adding the features of one glyph to a table fails for lack of memory at any point, the table still holds exactly its previous rows with every feature unchanged and all features having the same number of values; retrying the addition later, or adding other glyphs instead, gives the same table as if it had never been tried.",
 ["fault_sequences","histories"],
 "every allocation failure point inside an addition, every glyph image and every history of additions and retries",
 "no test makes an allocation fail.",
 ["src/ppocr/loader2/datas_loader.hpp","src/ppocr/strategies/utils/context.hpp","src/ppocr/defined_loader.hpp"],
 [("row append over all columns","Datas::load")],
 [("columns","one vector per feature","Data<Strategy>")],
 ["the table's serialised form and row count after each call"])

p("C13","Every load and every tool run finishes in a bounded amount of work",
 "For any input files and any finite sequence of I/O and memory faults (interruption storms, one-byte and zero-byte reads, files that shrink, failing calls and allocations, damaged contents), every load and every tool run ends, with success or with an error, within an amount of work bounded by the size of its inputs; nothing waits or retries forever once faults have stopped.",
 ["fault_sequences","inputs"],
 "every loader and tool, every damaged or intact input and every fault sequence of bounded length",
 "a test that hangs is not a test that fails; none injects the conditions under which a retry loop could spin.",
 ["src/ppocr/image/image_from_file.cpp","src/ppocr/loader2","src/ppocr/ocr2/glyphs.cpp","src/ppocr/ocr2/replacement.hpp","src/ppocr/spell/dictionary.cpp","src/ppocr/box_char/make_box_character.cpp","main"],
 [("loop exits on stream state or descriptor error","each loader"),("segmentation loop advances","make_box_character and the tools' loops")],
 (),["executed basic blocks and system calls until the operation returns"])

p("C14","Recognised text is a function of the input files alone",
 "The text and diagnostics that recognition writes to standard output are determined by the glyph, feature, word, dictionary and image files given to it: they do not change with the clock, with the way the operating system splits reads and writes, with the previous contents of memory, or with where memory is placed.",
 ["inputs","schedules","fault_sequences"],
 "every set of input files, and every combination of clock behaviour, transfer splitting, heap fill and heap placement",
 "tests compare one run on one machine against constants; a dependence on clock, uninitialised memory or addresses repeats there.",
 ["main/ocr2_extract_text.cpp","src/ppocr/ocr2/compute_image.hpp","src/ppocr/ocr2/filter_by_lines.cpp","src/ppocr/ocr2/filter_by_font.cpp","src/ppocr/ocr2/disambiguous_with_dict.cpp"],
 [("deterministic ranking, filtering and disambiguation","compute_image, filter_by_lines, filter_by_font, disambiguous_with_dict")],
 (),["bytes on standard output of two runs on the same files"])

p("C15","A writer whose medium fails says so, and leaves only a prefix behind",
 "When a glyph library, feature table, dictionary, image or word list is written to a stream whose medium fails or fills up after any number of bytes, the stream is in a failed state once it has been flushed, and the medium holds exactly a prefix of the bytes a healthy medium would hold; when the stream is not in a failed state after the flush, the medium holds all of them.",
 ["fault_sequences","inputs"],
 "every object, every position at which the medium fails, every buffer size and every split of accepted bytes",
 "tests write to in-memory streams that cannot fail.",
 ["src/ppocr/loader2/glyphs_loader.cpp","src/ppocr/loader2/image_io.cpp","src/ppocr/defined_loader.hpp","src/ppocr/spell/dictionary.cpp","src/ppocr/image/image.cpp"],
 [("stream-state propagation in serialisers","operator<< of Glyphs, DefaultDatas, Dictionary, Image")],
 (),["stream state after flush, bytes on the medium"])

p("C16","Damaged stored bytes never make the program touch memory it does not own",
 "Whatever bytes an image, glyph library, feature table, dictionary or word-line file holds (bit flips, zeroed, duplicated, lost or foreign blocks, impossible counts), loading it either reports an error or yields an object that can be used in every way a well-formed one can: writing it, extracting glyphs, computing features, indexing, recognising and dictionary lookup then never read or write outside their own memory and never crash.",
 ["inputs","fault_sequences"],
 "every corruption of a stored file, followed by every use of what was loaded",
 "tests read only intact files and run without memory checking.",
 ["src/ppocr/image/image_from_file.cpp","src/ppocr/loader2","src/ppocr/defined_loader.hpp","src/ppocr/ocr2/glyphs.cpp","src/ppocr/spell/dictionary.cpp","src/ppocr/container/trie.hpp","src/ppocr/utils/utf.hpp"],
 [("format checks of every loader","operator>> of each type, PnmHeader::parse"),("row-count agreement","ocr2_extract_text main")],
 (),["memory accesses of the load and of later uses of the object"])

p("C17","What a load gives does not depend on what was loaded before",
 "In any history of loads of images, glyph libraries, feature tables, dictionaries, glyph indexes, word-line tables and replacement tables within one process, some of them refused for damaged contents or cut short by failing calls and allocations, every load gives exactly what it would give as the first load of a new process: the same contents, or a refusal, for a new object and for one that is loaded again, whatever was loaded under the same name before. Objects loaded earlier keep their contents until they are loaded again themselves, whether others are loaded, stored or destroyed and whether that succeeds or fails.",
 ["histories","fault_sequences"],
 "every sequence of loads, reloads, stores and destructions over every set of files, and every failure inside them",
 "tests load each kind of file once per process and never go on after a failed load.",
 ["src/ppocr/image/image_from_file.cpp","src/ppocr/loader2","src/ppocr/ocr2/glyphs.cpp","src/ppocr/ocr2/word_lines.cpp","src/ppocr/spell/dictionary.cpp","src/ppocr/defined_loader.hpp","src/ppocr/utils/read_file.hpp"],
 [("loads work on local state and assign at the end","operator>> of each type, image_from_file"),("each object owns its storage","Image, Glyphs, DefaultDatas, Dictionary")],
 [("loaded object","the contents an earlier load gave","caller")],["contents of every live object after each call"])

p("C18","Work short of memory reports it, leaves nothing behind and can be repeated",
 "When memory runs out at any point of a piece of work on objects already loaded (extracting, copying, rotating and comparing pictures; building, storing, reading back and copying dictionaries; storing and reading back glyph libraries and feature tables; building glyph indexes and the tables derived from them; recognising a picture or a line, computing features, looking words and names up, replacing), the work either reports the failure or gives its full result, never a part of it in place of the whole. Everything it was only given to read is unchanged, no memory it took stays behind however often it fails, and the same work, repeated when memory is available, gives exactly what it gives when none was ever missing.",
 ["fault_sequences","histories"],
 "every piece of work, every allocation in it that can fail, once or for good, and every sequence of such failures before the repetition",
 "no test makes an allocation fail.",
 ["src/ppocr/image/image.cpp","src/ppocr/container/trie.hpp","src/ppocr/spell","src/ppocr/ocr2","src/ppocr/loader2","src/ppocr/defined_loader.hpp","src/ppocr/box_char/make_box_character.cpp"],
 [("every block has an owner before the next is asked for","Image::rotate90, section, ImageContext::reserve, Dictionary, flat_trie, IndexesOrdered"),("read-only operations keep no state","Glyphs::word_index_of, WordsInfos::get, WordDisambiguouser")],
 [("unique_ptr / container","each block taken by a piece of work","the piece of work")],["contents of all objects, live memory and results after each failure and repetition"])

# --- properties of pure computations: listed, not claimed -------------------
p("F01","Each feature of a glyph image follows its definition and stays in range",
 "The value each feature extractor gives for an image is the one its geometric definition prescribes and lies in the range the feature declares.",
 ["inputs"],"every image","unit tests check one or two images per feature",
 ["src/ppocr/strategies"],[("feature extractors","src/ppocr/strategies/*.cpp")])
p("F02","Segmentation yields the glyphs of a text line from left to right",
 "Segmenting a line image yields non-empty boxes inside the image, from left to right, each trimmed to the ink it contains.",
 ["inputs"],"every image","unit tests check a few images",
 ["src/ppocr/box_char/make_box_character.cpp"],[("segmentation","make_box_character")])
p("F03","Feature distances rank identical glyphs first",
 "The similarity of a feature value with itself is maximal and similarity always lies between zero and one.",
 ["inputs"],"every pair of feature values","unit tests check a few pairs",
 ["src/ppocr/strategies/relationship"],[("distances","relationship_type of each strategy")])
p("F04","Disambiguation returns a dictionary word spelled by the candidates if any exists",
 "Given candidate lists per position, disambiguation returns a dictionary word formed by picking one candidate per position whenever one exists, and leaves its output alone otherwise.",
 ["inputs"],"every dictionary and candidate sequence","unit tests check a few",
 ["src/ppocr/spell/word_disambiguouser.hpp"],[("depth-first search","WordDisambiguouser")])
p("F05","Image geometry operations are exact",
 "Rotating, cutting sections and comparing images give exactly the pixels, bounds and total order their definitions prescribe.",
 ["inputs"],"every image and section","unit tests check a few",
 ["src/ppocr/image/image.cpp","src/ppocr/utils/image_compare.cpp"],[("pixel loops","Image::section, rotate90, image_compare")])

with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
