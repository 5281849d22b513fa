#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe_at,
            "hook_needed": hook,
        },
    })


prop("C01", "Parsing returns exactly the value that valid PDF syntax denotes",
     "For every syntactically valid PDF object, however it is spelled (white space, comments, adjacent delimiters, nested containers, strings holding delimiters, comments signs or escapes), parsing returns the one value it denotes: numbers, booleans, names, strings (kept as their source bytes), arrays, dictionaries, indirect references with both object and generation number, and streams with their exact data. Nothing is dropped, merged, reordered, truncated or invented, and objects inside an indirect object or an object stream parse to the same values as when they stand alone.",
     ["inputs"], "all valid spellings of all PDF objects, of any nesting and size",
     "The tests parse about 25 short hand-written snippets; the space of legal spellings (delimiters in strings, comments in containers, odd number forms, tight packing) is unbounded.",
     ["pdfsyntax/objects.py"],
     [("next_token / parse_obj / replace_ref / dedicated_type", "pdfsyntax/objects.py"),
      ("parse_indirect_obj / parse_object_stream", "pdfsyntax/objects.py")],
     ["return value of parse_obj, parse_indirect_obj, parse_object_stream"])

prop("C02", "Serialization is valid PDF syntax and round-trips",
     "Serializing any value of the object model produces bytes that a conforming PDF parser reads back as the same value, and that the library itself parses back to an equal value. This holds for extreme numbers, empty and deeply nested containers, every string and name, references with any generation, and streams with arbitrary binary content, including empty content.",
     ["inputs"], "all values built from the Python object model of the library",
     "Two serialization tests cover one list and one flat dict.",
     ["pdfsyntax/objects.py"],
     [("serialize / to_str / forge_stream", "pdfsyntax/objects.py")],
     ["bytes returned by serialize"])

prop("C03", "Stream filters decode and encode without loss",
     "For any bytes and any chain of supported filters (Flate, ASCIIHex, ASCII85), decoding what the library encoded returns the original bytes, a conforming decoder reads what the library encoded, and the library decodes what any conforming encoder produced, PNG predictors included. Data under an unsupported filter or corrupt data is reported by the error marker as decoded content instead of an exception.",
     ["inputs"], "all byte strings, filter chains, predictor parameters and conforming encodings",
     "No test exercises any filter.",
     ["pdfsyntax/filters.py", "pdfsyntax/objects.py"],
     [("decode_stream / encode_stream / decode_predictor", "pdfsyntax/filters.py")],
     ["return values of decode_stream and encode_stream"])

prop("C04", "An opened file resolves every reference to its newest object",
     "For every well-formed file, whatever mix of cross-reference tables, cross-reference streams, object streams, hybrid or linearized sections and incremental updates indexes it, each reference resolves to the value defined by the newest section, references to deleted or undefined objects resolve to nothing, and the trailer and catalog are the newest ones. The answer does not depend on the order in which objects are requested, nor on how often, nor on whether the file came from bytes, a file object or a path.",
     ["inputs", "histories"], "all well-formed files over all cross-reference formats, and all access orders",
     "Tests open two classic-xref samples; xref streams, object streams, hybrid files, deletions and access order are never exercised.",
     ["pdfsyntax/filestruct.py", "pdfsyntax/docstruct.py", "pdfsyntax/objects.py", "pdfsyntax/api.py"],
     [("build_xref_sequence / build_index_from_xref_sequence", "pdfsyntax/filestruct.py"),
      ("memoize_obj_in_cache / get_object", "pdfsyntax/docstruct.py")],
     ["loads/load/readfile, get_object, obj, trailer, catalog"],
     [("Doc.index", "per revision, where each object is", "pdfsyntax/docstruct.py"),
      ("Doc.cache", "memoized objects", "pdfsyntax/docstruct.py")])

prop("C05", "Every past revision of a document can be revisited exactly",
     "Opening a file with n revisions and rewinding k times shows exactly the objects, trailer and pages of the file as it was when truncated after the end marker of the corresponding revision, and rewinding an edited or committed document undoes exactly that revision. The reported revision number and the list of added, updated and deleted objects of each revision agree with that history.",
     ["histories", "inputs"], "all revision histories and all rewind depths",
     "Tests never rewind and only look at two- and one-revision samples.",
     ["pdfsyntax/docstruct.py", "pdfsyntax/filestruct.py"],
     [("rewind / commit / changes / updates", "pdfsyntax/docstruct.py"),
      ("build_index_from_xref_sequence", "pdfsyntax/filestruct.py")],
     ["rewind, commit, changes, updates, repr(doc), get_object after each step"])

prop("C06", "Edits are written as append-only, removable increments",
     "Writing an edited document keeps every byte of the original file, up to the end of its last end-of-file marker, unchanged and in place, and appends sections that define only the objects that were changed; an unedited document is written back byte for byte. Cutting the appended part off restores a file that opens as the original document, and cutting only the last of several committed increments restores the document as of the previous commit.",
     ["histories", "inputs"], "all loaded files and all edit/commit sequences on them",
     "No test writes a file.",
     ["pdfsyntax/api.py", "pdfsyntax/docstruct.py", "pdfsyntax/filestruct.py"],
     [("writefile", "pdfsyntax/api.py"), ("build_revision_byte_stream", "pdfsyntax/filestruct.py"),
      ("eof_cut", "pdfsyntax/filestruct.py")],
     ["bytes written by writefile (file or stdout)"])

prop("C07", "A written file reloads to the document that was written",
     "After any sequence of edits and commits on a blank or loaded document, the written file is well-formed for a strict independent reader (exact offsets, 20-byte cross-reference entries, contiguous subsections, free list, Size, Prev and stream lengths), and both that reader and the library reopen it to the same objects, deletions, pages and trailer entries as the in-memory document.",
     ["histories", "inputs"], "all edit/commit sequences, for every cross-reference format of the source document",
     "No test writes or reopens a file.",
     ["pdfsyntax/filestruct.py", "pdfsyntax/docstruct.py", "pdfsyntax/api.py"],
     [("build_revision_byte_stream / format_xref_table / format_xref_stream", "pdfsyntax/filestruct.py"),
      ("commit", "pdfsyntax/docstruct.py")],
     ["bytes written by writefile; get_object on the reopened document"])

prop("C08", "Documents are immutable values",
     "No operation (edit, page operation, commit, rewind, squash, compress, concatenation, inspection, writing) changes what any previously existing document shows or would write, or modifies the arguments it was given. Modifying a value returned by the library does not change any document, and results for one document never depend on which other documents were processed earlier in the same process.",
     ["histories"], "all sequences of API calls over several live documents sharing ancestry",
     "Tests look at freshly opened documents only; aliasing shows in histories of several operations on documents that share state.",
     ["pdfsyntax/docstruct.py", "pdfsyntax/api.py", "pdfsyntax/filestruct.py", "pdfsyntax/objects.py"],
     [("copy_doc / update_object / add_object / get_object deepcopy", "pdfsyntax/docstruct.py")],
     ["observable fingerprint of every live document before and after each call"],
     [("Doc.index / Doc.cache / Doc.data", "shared between shallow copies", "pdfsyntax/docstruct.py")])

prop("C09", "Squash keeps the document and drops its history",
     "Squashing any document gives a single-revision document whose objects reachable from the trailer form the same graph up to renumbering, with the same metadata and the same ordered pages, both in memory and after writing and reopening. Every object in use is kept, numbering is dense, and content of superseded or deleted objects does not occur in the written file.",
     ["inputs", "histories"], "all documents and edit histories",
     "No test calls squash.",
     ["pdfsyntax/docstruct.py"],
     [("squash / defragment_map / deep_ref_retarget", "pdfsyntax/docstruct.py")],
     ["object graph of squash(doc); bytes of its written file"])

prop("C10", "Compression is lossless",
     "Compressing any document yields a file that both a strict independent reader and the library open to the same object graph up to renumbering, the same decoded content for every stream (streams under unsupported filters keep their encoded data and filter), the same ordered pages and the same metadata, in a single revision whose version is at least 1.5. The input document stays as it was.",
     ["inputs", "histories"], "all documents, stream filters and cross-reference formats",
     "No test compresses anything.",
     ["pdfsyntax/api.py", "pdfsyntax/docstruct.py", "pdfsyntax/filestruct.py"],
     [("compress / apply_filter", "pdfsyntax/api.py"),
      ("group_obj_into_stream / force_xref_stream", "pdfsyntax/docstruct.py"),
      ("append_to_stream_fragment / finalize_stream / format_xref_stream", "pdfsyntax/filestruct.py")],
     ["bytes written from compress(doc); get_object on the reopened document"])

prop("C11", "Page selection behaves like list selection",
     "Keeping, removing, indexing, slicing and iterating pages yields documents whose ordered page list is exactly the selected sublist, each remaining page keeping its effective attributes and every object it can reach. Document length and every page-tree count agree with the number of leaves, and this holds after further selections, after writing and after reopening.",
     ["histories", "inputs"], "all page trees (any depth, shared and cyclic references) and all sequences of selections",
     "No test removes or selects pages.",
     ["pdfsyntax/docstruct.py"],
     [("keep_pages / remove_pages / dependencies / flat_page_tree", "pdfsyntax/docstruct.py"),
      ("Doc.__getitem__ / __len__ / __iter__", "pdfsyntax/docstruct.py")],
     ["pages(doc), len(doc), page tree of the reopened file"])

prop("C12", "Concatenation appends all pages of both documents",
     "Concatenating two documents, in either target direction, with the function or the + operator, yields a document whose page list is the pages of the left one followed by the pages of the right one, every page keeping its own effective attributes and an isomorphic graph of everything it references. Length and page-tree counts add up, the result can be edited, sliced, concatenated again, written and reopened like any other document.",
     ["inputs", "histories"], "all pairs of documents and chains of concatenations",
     "No test concatenates.",
     ["pdfsyntax/docstruct.py", "pdfsyntax/objects.py"],
     [("concat", "pdfsyntax/docstruct.py"), ("deep_ref_retarget", "pdfsyntax/objects.py")],
     ["pages of the result, in memory and reopened"])

prop("C13", "Page attributes follow inheritance, rotation is relative",
     "The page list presents every leaf of the page tree once and in order, each with its own entries plus the Resources, MediaBox, CropBox and Rotate values inherited from its nearest ancestor that defines them, and nothing from siblings, other branches or other documents. Rotating turns exactly the chosen pages (all by default) by the given angle relative to their effective rotation, modulo 360, and changes nothing else.",
     ["inputs", "histories"], "all page trees, page subsets, angles and sequences of rotations",
     "The only test lists the single page of a flat tree.",
     ["pdfsyntax/docstruct.py", "pdfsyntax/api.py"],
     [("flat_page_tree / pages", "pdfsyntax/docstruct.py"), ("rotate / page_layouts", "pdfsyntax/api.py")],
     ["flat_page_tree, pages, page_layouts, rotate"])

prop("C14", "Adding a text annotation adds exactly that annotation",
     "Adding a text annotation with any text to any page adds exactly one annotation, last in that page's list, with that text, rectangle and open flag, and leaves every other object, page and annotation as it was. This holds whether the page had no annotations, a direct array or a referenced array, repeatedly, and after writing and reopening.",
     ["inputs", "histories"], "all texts, pages, existing annotation layouts and sequences of additions",
     "No test adds an annotation.",
     ["pdfsyntax/api.py"],
     [("add_text_annotation", "pdfsyntax/api.py")],
     ["annotations of every page, in memory and reopened"])

prop("C15", "Object edits are last-write-wins and reported exactly",
     "After any sequence of object additions, updates and deletions with interleaved commits, every object number shows the last value written to it (nothing if deleted) and every untouched object its previous value, whatever was or was not read before. New objects get fresh numbers, updated ones keep their number and generation, the objects in use and the change list of the current revision are exactly those the history implies (the one-line summary of a document counts them and the revisions), and committing without changes is a no-op.",
     ["histories"], "all sequences of add, update, delete, read and commit on documents of every storage format",
     "No test edits an object.",
     ["pdfsyntax/docstruct.py"],
     [("update_object / add_object / changes / in_use / commit", "pdfsyntax/docstruct.py"),
      ("memoize_obj_in_cache", "pdfsyntax/docstruct.py")],
     ["get_object, in_use, changes, repr(doc), max_num after every step"])

prop("C16", "Text strings and metadata decode to the text that was encoded",
     "Decoding a PDF text string returns the original Unicode text for every conforming encoding of it: literal or hexadecimal, PDFDocEncoding or UTF-16BE with byte order mark, with any legal escapes, octal codes, line continuations, digit case and white space. The metadata of a document shows every standard information entry decoded this way, whether the values are direct or referenced, and absent ones as None.",
     ["inputs"], "all texts and all their conforming encodings",
     "Eight hand-written strings are tested; escapes shorter than three octal digits, lower-case hexadecimal and others are not.",
     ["pdfsyntax/text.py", "pdfsyntax/api.py"],
     [("text_string / unescape_literal_string / decode_pdfdoc", "pdfsyntax/text.py"), ("metadata", "pdfsyntax/api.py")],
     ["text_string, metadata"])

prop("C17", "Shown text decodes through its font to the right Unicode",
     "For every text-showing operator, string form (literal with escapes or hexadecimal) and supported font encoding (WinAnsi, MacRoman, or a ToUnicode map with single mappings and ranges of one- or two-byte codes), the extracted fragment is the Unicode text the codes denote, and its advance is the sum of the glyph widths the font declares. Every shown string yields its fragment, in content order.",
     ["inputs"], "all strings, encodings, ToUnicode maps and width tables",
     "No test decodes page text.",
     ["pdfsyntax/text.py", "pdfsyntax/docstruct.py", "pdfsyntax/api.py", "pdfsyntax/graphics.py"],
     [("apply_encoding / apply_tounicode / text_element_to_unicode", "pdfsyntax/text.py"),
      ("prepare_font / prepare_w / prepare_widths", "pdfsyntax/docstruct.py")],
     ["build_text_fragments(get_page_contents(...), get_page_fonts(...))"])

prop("C18", "Extracted page text keeps every fragment in reading order",
     "Extracting the text of a page outputs every shown fragment exactly once, one output line per distinct baseline from top to bottom, fragments of a line from left to right, and separates fragments that are far apart by spaces. No fragment is lost, duplicated or moved to another line. Text set in a fixed-pitch font on a regular grid of lines and columns comes out on that same grid (columns from the leftmost text of the page, skipped lines as blank lines), wherever on the page the grid is placed, negative coordinates included.",
     ["inputs"], "all pages whose text lies on distinct horizontal baselines separated by more than the line tolerance",
     "No test extracts text.",
     ["pdfsyntax/layout.py", "pdfsyntax/api.py"],
     [("basic_spatial_layout / simplify_horizontal_text_elements", "pdfsyntax/layout.py"), ("extract_page_text", "pdfsyntax/api.py")],
     ["extract_page_text, basic_spatial_layout"])

prop("C19", "The disassembly accounts for every byte and flags index errors",
     "The file map of any well-formed file, even with stray tokens between its objects, tiles it: its top-level regions are contiguous, disjoint and cover every byte once, list every indirect object, cross-reference section, start pointer and comment at its true position and size, and every object embedded in an object stream under its container. The printed disassembly gives for each object the kind of its value and its type, for each stream its filters and its compression ratio, and for each stream and trailer its Root, Prev, N and First entries, and marks what holds a script. Index checks flag exactly the cross-reference entries that lead to no object and the objects no entry leads to.",
     ["inputs", "fault_sequences"], "all well-formed files and all single or multiple corruptions of their index entries",
     "No test maps or disassembles a file.",
     ["pdfsyntax/filestruct.py", "pdfsyntax/objects.py", "pdfsyntax/cli.py"],
     [("file_object_map / check_index_targets / check_not_indexed_objects", "pdfsyntax/filestruct.py"),
      ("parse_region", "pdfsyntax/objects.py"), ("dump_disasm", "pdfsyntax/cli.py")],
     ["file_object_map, check_index_targets, check_not_indexed_objects, disasm output"])

prop("C20", "The browse page is inert and all its links lead somewhere",
     "The HTML produced to browse any well-formed file is well-nested, contains no markup, attribute or script originating from the file's content or name (all of it appears as escaped text), and every internal link target exists in the page. Every indirect object of every revision appears under its own anchor and in the map of objects with its number and type, and the links from each reference and the reverse 'used in' links agree with the references in the file.",
     ["inputs"], "all well-formed files, including hostile content in names, strings, streams, comments and file names",
     "No test generates HTML.",
     ["pdfsyntax/display.py", "pdfsyntax/cli.py", "pdfsyntax/api.py", "pdfsyntax/graphics.py"],
     [("build_html / follow_obj", "pdfsyntax/display.py"), ("cross_map_index", "pdfsyntax/api.py"),
      ("printable_stream_content", "pdfsyntax/graphics.py")],
     ["HTML printed by the browse command"])

prop("C21", "Byte access is exact and independent of the access mode",
     "Whatever the way data is provided (bytes, a file read once, or a file read on demand), any requested range, counted from the start or the end, delivers exactly the bytes of the file at that place, and opening, reading, rewinding and editing give the same results in every mode. The hex dump of any data lists every byte once, in order, at its offset, with its printable rendering.",
     ["inputs", "configurations"], "all data, ranges and access modes",
     "Tests read a range on ten bytes, and lengths; no positioned read in on-demand mode, no document opened that way, no dump.",
     ["pdfsyntax/filestruct.py", "pdfsyntax/docstruct.py", "pdfsyntax/api.py"],
     [("bdata_provider / bdata_length / bdata_all / hexdump", "pdfsyntax/filestruct.py")],
     ["provider functions, hexdump, documents opened in each mode"])

prop("C22", "No input makes reading hang or blow up",
     "On any input bytes, well-formed or not, tokenizing, parsing, opening, mapping and inspecting terminate, with a result or an ordinary exception, after an amount of work and memory bounded by a low-degree polynomial of the input size. Cyclic or self-referential structure (cross-reference chains, page trees, links between pages) never causes endless work.",
     ["inputs", "fault_sequences"], "all byte strings; in particular all mutations of well-formed files",
     "Tests use a handful of valid snippets; hangs need malformed or cyclic input.",
     ["pdfsyntax/objects.py", "pdfsyntax/filestruct.py", "pdfsyntax/docstruct.py"],
     [("next_token / parse_obj progress", "pdfsyntax/objects.py"), ("build_xref_sequence chain following", "pdfsyntax/filestruct.py"),
      ("flat_page_tree / dependencies recursion", "pdfsyntax/docstruct.py")],
     ["interpreter step counter and memory limit around each call"])

prop("C23", "The font inventory is complete and exact",
     "The font inventory lists every font referenced by the resources (own or inherited) of any page exactly once, with its name, type, encoding and presence of a Unicode map, and with exactly the pages whose resources name it, in order. Fonts of one page never show up under another.",
     ["inputs"], "all documents: shared, inherited, direct and referenced resources, any number of pages and fonts",
     "No test lists fonts.",
     ["pdfsyntax/docstruct.py", "pdfsyntax/api.py"],
     [("fonts", "pdfsyntax/api.py"), ("get_page_fonts / prepare_font", "pdfsyntax/docstruct.py")],
     ["fonts(doc), fonts command"])

prop("C24", "The overview states the true facts about the file",
     "For every well-formed file the structure summary reports the effective PDF version (header or newer catalog override), the number of pages and revisions, whether it is encrypted, hybrid or linearized, and the paper size of the first page, as they are in the file. Raising the version never lowers it and changes nothing else.",
     ["inputs", "histories"], "all versions, revision counts, page sizes and file kinds",
     "No test reads the structure summary.",
     ["pdfsyntax/api.py", "pdfsyntax/docstruct.py", "pdfsyntax/filestruct.py"],
     [("structure / paper", "pdfsyntax/api.py"), ("version / update_version / updates / encrypted / hybrid", "pdfsyntax/docstruct.py"),
      ("linearized", "pdfsyntax/filestruct.py")],
     ["structure(doc), version, update_version"])

prop("C25", "Documentation rendering keeps text and nests tags properly",
     "Rendering any Markdown built from the supported constructs (headings, paragraphs, lists, quotes, tables, indented and fenced code, emphasis, code spans, links, images) produces properly nested HTML in which every construct becomes its element in source order. Text is neither lost nor duplicated, and code blocks show their source text verbatim. Supported are one line per list item, no list inside a list or a quote, no emphasis inside emphasis, and plain text without raw < or &.",
     ["inputs"], "all documents composed of the supported constructs",
     "No test renders Markdown.",
     ["pdfsyntax/markdown.py", "htmldoc.py"],
     [("render_html / parse_markdown / assemble_html / style / link", "pdfsyntax/markdown.py")],
     ["render_html output"])

prop("C26", "Command line results agree with the library",
     "On every well-formed file each command exits successfully, never modifies its input file, and prints what the library reports for it: overview, fonts, text of every page in order, the disassembly with every region, the hex dump. The compress command writes the compressed document, to the given output file or to standard output, as a file that opens to the same content.",
     ["inputs", "configurations"], "all well-formed files, commands and output options",
     "No test runs a command.",
     ["pdfsyntax/cli.py", "pdfsyntax/api.py"],
     [("main and command functions", "pdfsyntax/cli.py"), ("writefile", "pdfsyntax/api.py")],
     ["stdout, exit status and files of the pdfsyntax command"])

prop("C27", "Content streams split into commands and place text correctly",
     "Splitting any content stream into commands keeps every operator with exactly its own operands, in order. The position reported for each shown text is the one the PDF imaging model defines from the matrices, text state and graphics-state stack set by the preceding operators.",
     ["inputs", "programs"], "all operator sequences over the text and graphics state operators",
     "One three-command content stream is tested.",
     ["pdfsyntax/graphics.py", "pdfsyntax/api.py"],
     [("parse_stream_content / apply_command / trm / multiply_matrices", "pdfsyntax/graphics.py"), ("build_text_fragments", "pdfsyntax/api.py")],
     ["parse_stream_content, build_text_fragments"])

prop("C28", "Inspection printouts describe the document as it is",
     "For every well-formed document, as loaded and after edits and commits: the index printout gives, for each object and revision, the generation and place (file offset or container) of the definition in force, or that it was deleted, and the place of each cross-reference section. The cache printout marks exactly the objects changed in the current revision with the kind of change. The data history gives the end or the added bytes of each revision; the page printouts show every node and page of the tree in order, and the decoded contents of a page.",
     ["inputs", "histories"], "all documents, index layouts and histories of edits and commits",
     "No test calls the printing functions.",
     ["pdfsyntax/docstruct.py", "pdfsyntax/api.py"],
     [("pprint_index / pprint_cache / pprint_data_history / pprint_page_hierarchy", "pdfsyntax/docstruct.py"), ("pprint_page_contents", "pdfsyntax/api.py")],
     ["printed tables, written file bytes"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
