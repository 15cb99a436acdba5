#!/usr/bin/env python3
# Source of properties.jsonl: one P(...) per property.
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
rows = []
def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    rows.append({"id": id, "title": title, "statement": statement,
                 "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FP = ["src/footprint/data.rs", "src/footprint/de.rs", "src/footprint/ser.rs", "src/footprint/mod.rs"]
LA = ["src/layout/data.rs", "src/layout/de.rs", "src/layout/ser.rs", "src/layout/mod.rs"]

P("C01", "Footprint files are read faithfully",
  "Parsing a well-formed KiCad 4 footprint file yields a footprint holding exactly the elements of the file, in file order, each with the values written in the file: names, texts, layers, positions, angles, sizes, pad type/shape/drill/net/margins, polygons, 3D models, timestamps. Optional parts left out of the file come out as absent or as the documented default, whatever the whitespace, line endings, number formatting or quoting style used, and whichever order a pad's optional parts come in.",
  ["inputs"], "every well-formed footprint file made of the supported elements, with any values, option subsets, whitespace and quoting",
  "The two footprint tests compare one parse/print cycle of two fixed files; they never look at the parsed values and reach only a few option combinations.",
  ["src/footprint/de.rs", "src/footprint/data.rs", "src/footprint/mod.rs"],
  [("element readers", "src/footprint/de.rs"), ("layer names", "src/footprint/data.rs Layer::from_string")],
  ["footprint::parse", "read_module"])
P("C02", "Footprints survive being written and read back",
  "Writing a footprint and parsing the written text gives back a footprint with the same elements and values, in the same order, for every footprint that was parsed and then edited in any way within the range of values the format can express. The written text is a single well-formed KiCad footprint expression carrying each value under its KiCad keyword, and writing the re-read footprint reproduces the text byte for byte.",
  ["inputs", "histories"], "every parsed footprint and every sequence of edits to its public fields and through its methods, then write/read cycles",
  "The tests cover one write of two files, without edits; conditional output (zero, absent, special values) and escaping depend on values no test has.",
  FP + ["src/formatter.rs"],
  [("writers", "src/footprint/ser.rs"), ("formatter", "src/formatter.rs")],
  ["footprint::module_to_string", "footprint::parse", "write_module"])
P("C03", "Board files are read faithfully",
  "Parsing a well-formed KiCad 4 board file yields a board holding exactly the file's general data, page, layer list, setup values, plot parameters and elements (modules, nets, net classes, texts, lines, arcs, circles, dimensions, segments, vias, zones), with elements in file order and every value as written. Optional parts left out come out as absent or as the documented default, independent of whitespace, line endings, number formatting or quoting style.",
  ["inputs"], "every well-formed board file made of the supported elements, with any values, option subsets, whitespace and quoting",
  "The two board tests compare the text of one parse/print cycle of two files; a value swapped or dropped symmetrically, or any option those files lack, is invisible.",
  ["src/layout/de.rs", "src/layout/data.rs", "src/footprint/de.rs"],
  [("board readers", "src/layout/de.rs")], ["layout::parse", "read_layout"])
P("C04", "Boards survive being written and read back",
  "Writing a board and parsing the written text gives back a board with the same general data, layers, setup and elements in the same order, for every board that was parsed and then edited in any way within the range of values the format can express. The written text is a single well-formed KiCad board expression carrying each value under its KiCad keyword, and writing the re-read board reproduces the text byte for byte.",
  ["inputs", "histories"], "every parsed board and every sequence of edits to its public fields and through its methods, then write/read cycles",
  "Two fixed files, no edits; the tests cannot reach values that trigger the conditional parts of the writer.",
  LA + ["src/footprint/ser.rs", "src/formatter.rs"],
  [("board writers", "src/layout/ser.rs"), ("formatter", "src/formatter.rs")],
  ["layout::layout_to_string", "layout::parse", "write_layout"])
P("C05", "Schematic files are read faithfully",
  "Parsing a well-formed schematic file (version 2) yields its libraries, layer line, page description, components, wires, connections, no-connects, texts, labels and sheets in file order, each with exactly the values in the file. This covers units above 1, quoted values with spaces or escaped quotes, every text kind and orientation, all field attributes and page orientation, and does not depend on how many blanks separate the tokens.",
  ["inputs"], "every well-formed version 2 schematic with any values and any number and mix of items",
  "One test compares the text of one cycle of one schematic which has only single-unit components and no sheets.",
  ["src/schematic.rs", "src/lib.rs"],
  [("schematic parser", "src/schematic.rs parse*"), ("quote-aware splitting", "src/lib.rs parse_split_quote_aware_int")],
  ["schematic::parse_str", "schematic::parse", "schematic::parse_file", "read_schematic"])
P("C06", "Schematics survive being written and read back",
  "Writing a schematic and parsing the written text gives back a schematic with the same libraries, page description, elements and sheets, in the same order and with the same values, for every schematic that was parsed and then edited within the range of values the format can express. The written text follows KiCad's line grammar, carries each value at its place, and is reproduced byte for byte when the re-read schematic is written.",
  ["inputs", "histories"], "every parsed schematic and every sequence of edits to its public fields and through its methods, then write/read cycles",
  "One file without sheets, units, bold/italic fields or special values; and no edits.",
  ["src/schematic.rs", "src/lib.rs"],
  [("Display implementations", "src/schematic.rs"), ("parser", "src/schematic.rs parse*")],
  ["Display of Schematic", "schematic::parse_str"])
P("C07", "Symbol library files are read faithfully",
  "Parsing a well-formed symbol library file yields its symbols in file order, each with exactly the name, reference, text offset, pin name/number visibility, unit count, lock and power flags, fields, aliases, footprint filters, pins, rectangles and other drawing lines of the file. Every field attribute, pin type, pin shape, orientation and fill is reported as written.",
  ["inputs"], "every well-formed symbol library of the 2.3 format with any number of symbols, any values and option subsets",
  "One test compares the text of one cycle of one cache library that has no footprint filters and few pin kinds.",
  ["src/symbol_lib.rs", "src/lib.rs"],
  [("symbol library parser", "src/symbol_lib.rs parse*")],
  ["symbol_lib::parse_str", "symbol_lib::parse_file", "read_symbol_lib"])
P("C08", "Symbol libraries survive being written and read back",
  "Writing a symbol library and parsing the written text gives back a library with the same symbols, in the same order and with the same values, for every library that was parsed (or built from new symbols) and then edited within the range of values the format can express. The written text follows KiCad's line grammar, carries each value at its place, and is reproduced byte for byte when the re-read library is written.",
  ["inputs", "histories"], "every parsed or constructed library and every sequence of edits, then write/read cycles",
  "One file, no edits, no bold fields, no filters; a flag written with the wrong letter passes.",
  ["src/symbol_lib.rs", "src/lib.rs"],
  [("Display implementations", "src/symbol_lib.rs"), ("parser", "src/symbol_lib.rs parse*")],
  ["Display of SymbolLib", "symbol_lib::parse_str"])
P("C09", "Footprint library tables keep their entries and expand their URIs",
  "Parsing a footprint library table yields its entries in order with the name, type, URI, options and description of the file, and writing it and parsing the result gives the same entries and the same text again. The expanded URI of an entry replaces every environment variable reference by the variable's current value and a leading tilde by the home directory, and is an error, never a partial result, when a referenced variable is not set.",
  ["inputs", "configurations"], "every table, every URI and every environment",
  "One test round-trips one table; URI expansion is never executed by a test.",
  ["src/fp_lib_table.rs", "src/formatter.rs"],
  [("reader/writer", "src/fp_lib_table.rs"), ("expansion", "src/fp_lib_table.rs Lib::get_expanded_uri")],
  ["fp_lib_table::parse", "fp_lib_table::to_string", "Lib::get_expanded_uri", "read_fp_lib_table"])
P("C10", "No text can crash or hang the library",
  "For every text whatsoever, each of the parsers and each of the file readers returns a value or an error: it never panics, aborts, overflows the stack or runs forever. Every model that a parser returns can be written, displayed, measured, checked, fixed and expanded without crashing.",
  ["inputs"], "every string (and every file content, including non UTF-8 bytes) given to every parser and reader",
  "Tests feed eight valid files; all error paths, truncations and odd shapes are unexecuted.",
  ["src/footprint/de.rs", "src/layout/de.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/fp_lib_table.rs", "src/project.rs", "src/lib.rs", "src/util.rs"],
  [("error returns instead of unchecked indexing", "all parsers")],
  ["all parse functions", "all read_* functions", "Display/to_string", "bounding_box", "check", "fix"])
P("C11", "File kinds are recognised and typed readers accept only their kind",
  "Reading a valid file of any supported kind without a fixed expectation identifies it as that kind and returns exactly what the kind's own parser returns, whatever the file is called, and any readable text that no parser accepts is reported as unknown together with its path. A reader for a given kind returns the content for a file of that kind and an error for every other file, unreadable file or missing file.",
  ["inputs"], "every file content and name, for every expected kind",
  "Tests use each typed reader on one valid file of the right kind only.",
  ["src/lib.rs", "src/util.rs", "src/project.rs"],
  [("sniffing", "src/lib.rs read_kicad_file"), ("typed readers", "src/lib.rs read_*")],
  ["read_kicad_file", "read_module", "read_schematic", "read_layout", "read_symbol_lib", "read_project", "read_fp_lib_table", "read_file"])
P("C12", "Writing a file either stores exactly the data or reports an error",
  "When writing a file, board or footprint reports success, the file then holds exactly the serialised text, whatever the file held before, and reading it back gives an equal model. When the text cannot be stored completely (missing directory, path is a directory, device full, size limit, no permission) the write reports an error and never success, and it never touches any other file.",
  ["inputs", "fault_sequences"], "every content, prior file state and storage fault during the write",
  "No test writes a file, let alone with a failing disk.",
  ["src/util.rs", "src/lib.rs"],
  [("write_file error propagation", "src/util.rs write_file")],
  ["write_file", "write_layout", "write_module", "read_file"])
P("C13", "Content the library does not interpret is passed through unchanged",
  "Board expressions, zone parts, schematic lines and symbol drawing lines that the library does not interpret are kept as they are at their place among the other elements, whatever they contain, and appear in the written file token for token (expressions) or byte for byte (lines). Editing, moving or renaming other parts of the document does not alter, drop, duplicate or reorder them.",
  ["inputs", "histories"], "every uninterpreted expression or line, at every position, and every sequence of edits of the rest",
  "The fixed test files hold few such items; tests never edit a document that has them.",
  ["src/layout/de.rs", "src/layout/ser.rs", "src/layout/data.rs", "src/schematic.rs", "src/symbol_lib.rs"],
  [("Other variants", "src/layout/data.rs, src/schematic.rs, src/symbol_lib.rs")],
  ["layout::parse/layout_to_string", "schematic::parse_str/Display", "symbol_lib::parse_str/Display"])
P("C14", "Indentation and line breaking never change the content",
  "For footprints, boards and library tables, the text written at any starting indentation level consists of the same sequence of parentheses, keywords and values, separated by blanks where two values meet, and differs in whitespace only. No whitespace is added, removed or altered inside a value, and parsing any of these texts gives the same model.",
  ["inputs", "configurations"], "every model and every indentation level, including zero and large ones",
  "Tests write at level 0 only and compare text of fixed files.",
  ["src/formatter.rs", "src/footprint/mod.rs", "src/layout/mod.rs", "src/fp_lib_table.rs"],
  [("KicadFormatter", "src/formatter.rs")],
  ["module_to_string", "layout_to_string", "fp_lib_table::to_string"])
P("C15", "Renaming nets on a board is complete and touches nothing else",
  "Renaming a net on a board renames it in the net list, in every net class, on every pad of every module and in every zone, and changes no other net, name or value; renaming with a user function applies the function to every one of those places. The automatic-net helpers agree: renaming an automatically named net substitutes exactly the reference part, replacing a block substitutes exactly that path component, and other names are left alone.",
  ["inputs", "histories"], "every board, every net name (including names that are prefixes of each other) and every sequence of renames",
  "Tests cover two fixed net-name strings and no board-wide rename.",
  ["src/layout/data.rs", "src/footprint/data.rs"],
  [("board-wide rename", "src/layout/data.rs Layout::change_net_name/update_net_names"), ("module rename", "src/footprint/data.rs Module::rename_net")],
  ["Layout::change_net_name", "Layout::update_net_names", "Module::rename_net", "NetName methods"])
P("C16", "Moving a board or footprint translates all its geometry and nothing else",
  "Moving a board by (dx, dy) adds exactly dx and dy to the coordinates of every drawn element: module positions, texts, lines, arcs, circles, dimensions with their text and arrows, segments, vias, zones with outlines and fills. Sizes, angles, layers, nets, names, order, module contents, setup and uninterpreted parts stay as they were, and moving back by the opposite amount restores the board.",
  ["inputs", "histories"], "every board or element, every displacement and every sequence of moves",
  "No test moves anything.",
  ["src/layout/data.rs", "src/footprint/data.rs"],
  [("Adjust implementations", "src/layout/data.rs, src/footprint/data.rs")],
  ["Adjust::adjust on boards, elements and modules", "adjust_layout"])
P("C17", "Bounding boxes enclose their items exactly",
  "The bounding box of a footprint, pad, graphic, board element, board, schematic item or sheet contains every point the library counts for that item and is the smallest such box, with the low corner never above the high corner, independent of the order in which points or elements are given. The box of a collection is the union of the boxes of its members, items without extent do not contribute, and an empty collection has no box.",
  ["inputs"], "every item and collection with any coordinates, directions and orders of points, and right-angle pad rotations",
  "Three tests compute three boxes of fixed items with points in ascending order.",
  ["src/lib.rs", "src/footprint/data.rs", "src/layout/data.rs", "src/schematic.rs"],
  [("Bound", "src/lib.rs Bound::update"), ("BoundingBox implementations", "src/footprint/data.rs, src/layout/data.rs, src/schematic.rs")],
  ["BoundingBox::bounding_box on every item", "Bound methods"])
P("C18", "Flipping and rotating footprint parts is exact and reversible",
  "Flipping a footprint element to the other board side mirrors all its geometry top to bottom, negates its angles, swaps front and back layers, toggles text mirroring and changes nothing else, so that flipping twice restores the element. Rotating adds the angle to the element's own orientation modulo a full turn, keeps it within one turn, changes nothing else, and rotating back restores it.",
  ["inputs", "histories"], "every element kind with any values, and every sequence of flips and rotations",
  "No test flips or rotates anything.",
  ["src/footprint/data.rs"],
  [("Flip implementations", "src/footprint/data.rs"), ("Rotate implementations", "src/footprint/data.rs")],
  ["Flip::flip", "Rotate::rotate"])
P("C19", "The footprint convention check reports exactly the broken rules",
  "Checking a footprint against the KiCad library convention reports a finding for each rule the footprint breaks and none for a rule it satisfies: reference, value and user text presence, content, layer, visibility and size, courtyard presence, and surface-mount or through-hole attribute against the pads. Findings that are only advice are marked as such, and checking does not modify the footprint.",
  ["inputs", "configurations"], "every footprint and every configured font size and thickness",
  "No test calls the check.",
  ["src/footprint/data.rs", "src/checkfix.rs"],
  [("check", "src/footprint/data.rs CheckFix for Module")],
  ["CheckFix::check on footprints", "klc_kicad_mod"])
P("C20", "Fixing a footprint converges and changes only what it must",
  "After fixing a footprint, a check reports nothing except what fixing cannot supply (a missing reference or value text, or a surface-mount attribute on a through-hole part), a courtyard rectangle exists that encloses the footprint's extent with the prescribed clearance, and fixing again changes nothing. Pads, nets, positions and all elements that break no rule stay exactly as they were.",
  ["inputs", "histories"], "every footprint, and every number of repeated fixes",
  "No test calls fix.",
  ["src/footprint/data.rs", "src/checkfix.rs"],
  [("fix", "src/footprint/data.rs CheckFix for Module")],
  ["CheckFix::fix", "CheckFix::check"])
P("C21", "The symbol convention check reports exactly the broken rules",
  "Checking a symbol against the KiCad library convention reports a finding for each broken rule and none for a satisfied one: one per character not allowed in the name, field text size and visibility for normal, power and graphic symbols, pin placement on the 100 mil grid, pin length, pin text size, no-connect pin type and visibility, and rectangle fill and line width. Findings that are only advice are marked as such, and checking does not modify the symbol.",
  ["inputs"], "every symbol with any name, fields, pins and drawing",
  "Two tests cover the character rule on two strings; no test checks a symbol.",
  ["src/symbol_lib.rs", "src/checkfix.rs"],
  [("check", "src/symbol_lib.rs CheckFix impls"), ("allowed characters", "src/checkfix.rs allowed_1_7")],
  ["CheckFix::check on symbols", "checkfix::allowed_1_7_items", "checkfix::is_allowed_1_7", "klc_symbol_lib"])
P("C22", "Schematic component and field edits do exactly what they say",
  "Renaming a component, setting its reference, adding, updating or looking up its fields and modifying components by reference change exactly the addressed component and field, keep the shown reference and value fields in step with the component, and give new fields a number no other field has. Each add-or-update reports truthfully whether it created, changed (with the previous value) or left the field alone.",
  ["inputs", "histories"], "every schematic and every sequence of edits, including unknown references and fields",
  "No test edits a schematic.",
  ["src/schematic.rs"],
  [("component editing", "src/schematic.rs Component impl"), ("lookup by reference", "src/schematic.rs Schematic impl")],
  ["Component::update_reference/update_name/update_field/add_or_update_field/add_new_field/get_field", "Schematic::modify_component(s)/components/collect_components"])
P("C23", "Hierarchical schematics yield every component of every sheet",
  "Collecting the components of a schematic that was read from a file returns the components of that file and of every sheet file below it, resolved relative to the referring file, once per occurrence of the sheet and each with its own values; looking up by reference finds a component anywhere in the hierarchy. A missing or broken sheet file, or sheets that include each other in a cycle, give an error instead of a partial list, a crash or an endless run.",
  ["inputs", "fault_sequences"], "every tree or graph of sheet files, including repeated, missing, broken and cyclic ones",
  "No test has a schematic with sheets.",
  ["src/schematic.rs"],
  [("recursion over sheets", "src/schematic.rs all_components/component_by_reference/parse_file_for_sheet")],
  ["Schematic::all_components", "Schematic::component_by_reference", "schematic::parse_file_for_sheet", "schematic::filename_for_sheet"])
P("C24", "Results depend only on the input, not on history or threads",
  "Every parse, write, check and measurement gives the same result for the same input whatever the library did before (including failed parses), however often it is repeated, and whichever other threads use the library at the same time. Operations on one model never change another model, its clones or its source.",
  ["histories", "schedules"], "every order and interleaving of library operations on any inputs",
  "Each test performs one operation in a fresh process state and compares nothing across calls.",
  ["src/lib.rs", "src/footprint/mod.rs", "src/layout/mod.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/fp_lib_table.rs", "src/formatter.rs"],
  [("no shared mutable state", "whole library")],
  ["all public functions"])
P("C25", "The command line tools report what the library computes",
  "The dump tools print the file's content as the library serialises it, the adjust tool prints the board moved by exactly 100 mm in x, the identify tool prints the kind the library recognises, and the two convention tools report every finding of every item and nothing more. Given an unreadable or wrong file each tool ends with a failing status and prints no result, and no tool modifies its input file.",
  ["inputs"], "every input file, valid or not, for every tool",
  "The tools are never run by the tests.",
  ["src/bin/adjust_layout.rs", "src/bin/dump_footprint.rs", "src/bin/dump_layout.rs", "src/bin/identify.rs", "src/bin/klc_kicad_mod.rs", "src/bin/klc_symbol_lib.rs", "src/checkfix.rs"],
  [("tool mains", "src/bin/*.rs"), ("finding output", "src/checkfix.rs dump_on_logger")],
  ["stdout, stderr and exit status of the six tools"])
P("C26", "Board and footprint lookups and edits address the right item",
  "Finding or modifying a module by reference, listing modules, nets and net classes, adding nets and net classes, reading and updating setup values, changing a footprint's reference, and listing its pads, lines, texts and position act on exactly the named items: they find what is there, report what is not, and change nothing else. Ordering components by reference compares the first letter and then the number.",
  ["inputs", "histories"], "every board or footprint and every sequence of lookups and edits, including names that do not exist or occur several times",
  "No test uses these functions.",
  ["src/layout/data.rs", "src/footprint/data.rs", "src/lib.rs"],
  [("board access", "src/layout/data.rs Layout impl, Setup impl"), ("footprint access", "src/footprint/data.rs Module impl"), ("ordering", "src/lib.rs reference_ord")],
  ["Layout methods", "Setup methods", "Module methods", "reference_ord"])
P("C27", "Damaged values are rejected instead of guessed",
  "If in a valid file of any kind a number is replaced by something that is not a number, a mandatory number is left out of its line or expression, or the text breaks off inside the document's expression or inside an item, then parsing reports an error. It never returns a model in which the damaged or missing value has been replaced by a default or by a neighbouring value; only a damaged zone outline may instead be kept verbatim as uninterpreted content.",
  ["inputs"], "every valid file and every such single damage at every place",
  "Tests parse valid files only.",
  ["src/footprint/de.rs", "src/layout/de.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/fp_lib_table.rs", "src/lib.rs"],
  [("strict number parsing and close checks", "src/footprint/de.rs, src/layout/de.rs, i64_from_string/f64_from_string in src/schematic.rs and src/symbol_lib.rs")],
  ["all parse functions"])
P("C28", "Symbols are found, classified and renamed by what they contain",
  "Searching a symbol library returns the first symbol in file order for which the given condition is true, or nothing if there is none, and the pin list of a symbol is exactly its pins in order. A symbol is a power symbol exactly if its reference is #PWR and it has exactly one pin, a graphic exactly if its reference starts with # and it has no pins, and a basic part exactly if its name is L, R, C or D. Renaming a symbol keeps a leading ~ that hides the name, puts the new name into the value field (field number 1, wherever it is in the list) and changes nothing else.",
  ["inputs", "histories"], "every symbol library, condition and sequence of renames",
  "Tests rename nothing and search nothing; the rules have to hold for every combination of names, references, pins and field orders.",
  ["src/symbol_lib.rs"],
  [("library search", "src/symbol_lib.rs SymbolLib::find"), ("symbol queries and renaming", "src/symbol_lib.rs Symbol impl")],
  ["SymbolLib::find", "Symbol::pins", "Symbol::is_power", "Symbol::is_graphics", "Symbol::is_basic", "Symbol::set_name"])
P("C29", "Footprint parts compare equal exactly when their content agrees",
  "Two footprint elements compare equal exactly if they are of the same kind and all their values agree, with these exceptions only: layers are compared by their type and not by their side, pads are compared without their net, and two reference texts or two value texts of a footprint are always equal. Net classes compare equal exactly if all their values including the list of nets agree, and the comparison without nets ignores that list only. Comparison is symmetric, every element equals its copy, and not-equal is the opposite of equal.",
  ["inputs"], "every pair of footprint elements or net classes, in particular pairs that differ in a single value",
  "Tests compare no elements; a value left out of a comparison shows only for a pair that differs in that value alone.",
  ["src/footprint/data.rs", "src/layout/data.rs"],
  [("element comparison", "src/footprint/data.rs PartialEq impls"), ("net class comparison", "src/layout/data.rs NetClass")],
  ["footprint element ==", "NetClass ==", "NetClass::equal_no_net"])
P("C30", "Models made in code are written like models read from files",
  "A footprint, board, schematic, symbol library or library table that a program assembles from the public constructors, defaults and fields is written to exactly the same text as the model with the same values that was read from a file. That text is well-formed, carries every value, and reads back as the same model. Newly constructed and default parts have the documented starting values: the values given, and otherwise empty, zero or absent parts.",
  ["inputs"], "every model of the five kinds that can be assembled in code and expressed in the file format",
  "Tests write only models that were parsed before, so state that only parsing sets up is never missed.",
  ["src/footprint/data.rs", "src/footprint/ser.rs", "src/layout/data.rs", "src/layout/ser.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/fp_lib_table.rs"],
  [("constructors and defaults", "src/footprint/data.rs, src/layout/data.rs, src/schematic.rs, src/symbol_lib.rs"), ("writers", "src/footprint/ser.rs, src/layout/ser.rs, Display impls in src/schematic.rs and src/symbol_lib.rs")],
  ["new and default functions", "all write functions"])
P("C31", "Memory use stays in proportion to the size of the document",
  "For documents of every kind, the memory allocated in total and the memory needed at once by reading, writing, measuring, moving, flipping, renaming, checking, fixing, listing and searching grow at most in proportion to the number of items in the document, whichever of its lists grows. A document with many times the items never needs a disproportionate multiple of the memory.",
  ["inputs"], "every document, every list in it that can grow, every operation",
  "Tests use small files and do not measure memory.",
  ["src/footprint/de.rs", "src/layout/de.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/fp_lib_table.rs", "src/layout/data.rs", "src/footprint/data.rs"],
  [("parsers and writers", "src/footprint, src/layout, src/schematic.rs, src/symbol_lib.rs"), ("operations", "src/layout/data.rs, src/footprint/data.rs, src/checkfix.rs")],
  ["all parse, write, query and edit functions"])
P("C32", "A change to one item changes only that item's text",
  "Replacing, inserting, removing or exchanging items of a document leaves the written text of every other item and of the header byte for byte as it was, whatever the items are and in whichever order they come; only the blanks and blank lines between items may change. The written schematic or symbol library is the text of an empty one with the items' own texts, in order, in the place for items.",
  ["inputs", "histories"], "every document and every single change to its list of items",
  "Tests compare whole files of fixed content; text that depends on what was written before shows only for particular neighbours.",
  ["src/formatter.rs", "src/footprint/ser.rs", "src/layout/ser.rs", "src/schematic.rs", "src/symbol_lib.rs"],
  [("formatter state", "src/formatter.rs KicadFormatter"), ("item texts", "Display impls in src/schematic.rs and src/symbol_lib.rs")],
  ["all write functions"])
P("C33", "Every finding reaches the log once, in order and with its weight",
  "Logging a finding or a group of findings, however deeply groups are nested, writes exactly one log record for each single finding, in order: a warning, or an information record if it is only advice, whose text is section, dot, rule, blank, item, colon, message, indented by two blanks for each level given and each group inside a group. A new finding holds exactly the values it was made from; flattening turns a group of exactly one into its member and leaves everything else as it was. The rule sections have the numbers 1 to 10 and the titles of the convention.",
  ["inputs"], "every tree of findings, made in code or by a check, and every starting indentation",
  "No test looks at the log; a finding lost in a nested group is seen only with a tree of that shape.",
  ["src/checkfix.rs"],
  [("findings", "src/checkfix.rs CheckFixData, CheckFixItem, KLCSection")],
  ["CheckFixData", "CheckFixItem", "KLCSection"])
P("C34", "Failures and skipped content are reported with their cause",
  "A file that the operating system cannot deliver, or that is not UTF-8 text, is reported as an I/O error of the operating system's kind; a document of another recognisable kind is reported with its kind and the file's name, an unset variable with its name, a file that cannot be created with its name, and the text of an error is its category followed by the whole message. A bad number in a schematic or symbol library is reported with the offending text and the line it is in. Reading prints nothing, except one line for each line of a component or sheet that is skipped as unknown, which contains that line.",
  ["inputs", "fault_sequences"], "every file, every such failure and every place of a bad number or unknown line",
  "Tests read valid files only and look at no message.",
  ["src/error.rs", "src/lib.rs", "src/util.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/fp_lib_table.rs"],
  [("error type", "src/error.rs KicadError"), ("file readers", "src/lib.rs read_kicad_file and typed readers"), ("number parsing", "i64_from_string/f64_from_string in src/schematic.rs and src/symbol_lib.rs"), ("skipped lines", "src/schematic.rs parse_component, parse_sheet")],
  ["KicadError", "all read functions"])
P("C35", "Incomplete items and unknown keywords are refused",
  "If in an otherwise valid file a mandatory part of an item is left out (the ends, centre, position, angle, layer or text effects of a board item, the width or net of a track, a setting of a zone, a part of the general data, a placement of a 3D model, a value of a library table entry, a flag or name of a field, symbol pin, sheet pin or symbol, a line of the page description), parsing reports an error instead of filling something in. The same holds if a keyword for a layer kind, pad kind or shape, alignment, text kind, orientation, visibility, text style, sheet pin form or side, symbol flag, pin type or shape, or fill is replaced by one that the format does not have. It also holds if a part that the format does not have is added to a footprint or one of its drawn parts, or to a board item other than a zone, or a value too many stands on the line of a field, symbol, pin, rectangle, wire or connection.",
  ["inputs"], "every valid file and every such single alteration at every place",
  "Tests parse complete files with known keywords only.",
  ["src/footprint/de.rs", "src/footprint/data.rs", "src/layout/de.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/fp_lib_table.rs"],
  [("mandatory parts and close checks", "src/layout/de.rs, src/footprint/de.rs, src/fp_lib_table.rs FromSexp impls"), ("keyword tables", "from_string/make/new functions in src/footprint/data.rs, src/schematic.rs, src/symbol_lib.rs"), ("line lengths", "src/schematic.rs ComponentField::new, parse_wire; src/symbol_lib.rs parse_symbol, parse_field, parse_pin, parse_rect")],
  ["all parse functions"])
P("C36", "Written files have KiCad's line structure",
  "In a written board, footprint or library table certain kinds of elements start on a new line, indented by two blanks per level plus the starting indentation: all elements of a board except version and host, the parts of general data, layer list, setup, plot settings and net classes, the position, description, path, attribute, lines, circles, polygons, pads, texts and 3D models of a footprint, the effects of a text, the net of a pad, the placements of a model, the text and lines of a dimension, the connection, thickness, fill, keepout, priority and polygons of a zone, every fifth point (every fourth in footprint polygons, the first also in zone polygons) and the entries of a table; everything else follows on the same line after one blank, or without one inside a table entry. General data, layer list, setup, net classes, modules, drawn texts, dimensions, zones and their polygons, footprint texts and models close on a line of their own, and empty lines come before general data, page, setup, each net class and module, after setup, after a run of modules and before the first track; only the kinds of the elements and their nesting decide about all this, never their values. A written schematic or symbol library has one record per line in a fixed order and form: the numbers of component fields are set flush left in columns of three, those of the position, rotation and text lines in columns of four, and all other values are separated by one blank.",
  ["inputs", "configurations"], "every board, footprint, library table, schematic and symbol library without uninterpreted expressions, read or made in code, and every starting indentation",
  "Tests compare the layout of a handful of sample files; the layout depends on state carried across the whole document.",
  ["src/formatter.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/footprint/mod.rs", "src/layout/mod.rs", "src/fp_lib_table.rs"],
  [("layout rules", "src/formatter.rs want_indent_module, want_indent_layout, want_indent_fp_lib_table"), ("state across the document", "src/formatter.rs open, element, close"), ("line writers", "Display impls in src/schematic.rs and src/symbol_lib.rs")],
  ["module_to_string", "layout_to_string", "fp_lib_table::to_string", "Display of Schematic and SymbolLib", "write_* functions"])
P("C37", "Written boards, footprints and tables have one canonical form",
  "A written board, footprint or library table depends only on its content: the parts of each item come in KiCad's fixed order whatever order they were read in, and an optional part is written exactly if the item has it, where a rotation, drill offset, corner radius, via drill or zone priority of zero, a text size that is not positive and a second drill size equal to the first count as absent. A text stands in quotes exactly if it is empty or contains a blank, a tab, a parenthesis, a brace or a percent sign. Numbers are written in plain decimal notation with the fewest digits that read back as the same number, and the time stamps of a footprint in capital hexadecimal digits without leading zeros.",
  ["inputs"], "every board, footprint and library table, read in any order of parts and any notation or made in code",
  "Tests compare sample files that KiCad wrote; they show the canonical form of the few items and values in them, not of every combination of optional parts, text and number.",
  ["src/footprint/ser.rs", "src/layout/ser.rs", "src/fp_lib_table.rs", "src/layout/data.rs", "src/footprint/data.rs"],
  [("footprint parts", "src/footprint/ser.rs impl IntoSexp for Pad, Drill, At, Font, Effects, Element"), ("board parts", "src/layout/ser.rs impl IntoSexp for Layout, Zone, Fill, Segment, Via, NetClass, Dimension"), ("table entries", "src/fp_lib_table.rs impl IntoSexp for Lib")],
  ["module_to_string", "layout_to_string", "fp_lib_table::to_string", "write_module", "write_layout"])
P("C38", "Work stays in proportion to the size of the document",
  "For documents of every kind, the instructions executed by reading, writing, measuring, moving, flipping, renaming, checking, fixing, listing and searching grow at most in proportion to the number of items in the document, whichever one of its lists grows. A document with many times the items never takes a disproportionate multiple of the work.",
  ["inputs"], "every document of every kind and every list in it, at different lengths of that list",
  "Tests run on small sample files, where an operation whose work grows with the square of the number of items is as fast as any other.",
  ["src/layout/de.rs", "src/layout/data.rs", "src/footprint/de.rs", "src/footprint/data.rs", "src/schematic.rs", "src/symbol_lib.rs", "src/fp_lib_table.rs", "src/formatter.rs", "src/lib.rs"],
  [("reading", "src/layout/de.rs impl FromSexp for Layout; src/schematic.rs parse; src/symbol_lib.rs parse_symbol"), ("writing", "src/formatter.rs KicadFormatter; src/schematic.rs and src/symbol_lib.rs Display"), ("measuring and listing", "src/footprint/data.rs Module::bounding_box, pads, lines; src/schematic.rs Schematic::components")],
  ["parse", "parse_str", "to_string", "bounding_box", "adjust", "flip", "check", "fix", "components", "pins", "change_net_name"])
open(OUT, "w").write("".join(json.dumps(r) + "\n" for r in rows))
print(len(rows))
