#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when a property changes)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, note="", technique=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None),
        _note=note, _technique=technique))

T_MODEL = "runtime monitoring: reference-model monitor over generated executions of the real crate"
ASSUME = "Exploration: held on the seeded executions of the run (counts in the evidence), within the input domain stated in DESIGN.md; trusts the harness's own model, writer and reader of the format."

prop("C01", "No input makes the library panic, abort, hang or exhaust memory",
     "Every public parsing, writing, conversion, decryption and color function returns normally, with a value or an error, on every input: arbitrary text and bytes, records with dangling, doubled or circular references, and API projects holding arbitrary values; errors can always be printed. Documented exceptions are putting a custom icon into the resource registry, writing a block argument that is still a placeholder, and asking for the name of a path that has no UTF-8 file name. Nesting of code and views is covered up to some hundred levels.",
     ["inputs"], "all texts, byte strings, parsed records and API objects",
     "The 32 tests feed about ten well-formed samples and two or three malformed ones; panics hide behind indexing, slicing, unwraps and recursion that only unusual inputs reach.",
     ["src/parser/", "src/api/", "src/lib.rs", "src/color.rs"],
     [("error enums returned by every parser", "src/parser/*.rs, src/api/*.rs"), ("blocks removed from the map when they are used, so circles end", "src/api/block.rs Blocks::try_from")],
     technique="runtime monitoring: hostile workloads under a panic, signal, CPU-time and allocation monitor")

prop("C02", "Encryption is AES-128-CBC with the Sketchware key and decryption inverts it",
     "Encrypting any byte string gives the AES-128-CBC encryption with PKCS#7 padding under Sketchware's fixed key and IV, and decrypting that gives back exactly the same bytes. Decryption of bytes that are no such ciphertext (wrong length, bad padding) fails with an error instead of returning other bytes. The file variants read and write exactly the named files: input files are not changed unless no output or the same path is given, existing outputs are replaced entirely, and I/O failures are reported as errors and leave other files untouched.",
     ["inputs", "fault_sequences"], "all byte strings of any length, all ciphertexts, missing and unwritable files",
     "The tests encrypt one short string; padding at block boundaries, invalid ciphertexts and the file functions are never run.",
     ["src/lib.rs"], [("CBC cipher with PKCS#7 padding, key and IV", "src/lib.rs encrypt_sw, decrypt_sw_encrypted"), ("file wrappers", "src/lib.rs *_file*")],
     technique="runtime monitoring: differential monitor against an independent AES implementation, file-system effects observed")

prop("C03", "Project metadata survives parsing and writing unchanged",
     "For every valid project record, in any spelling (member order, spacing, escapes, unknown members), the parsed project has exactly the values of the text; writing it gives a record with exactly the same members and values, and parsing that gives an equal project. This includes ids and version codes written as decimal strings, all colors as signed 32-bit numbers, and the creation date as a 14-digit date YYYYMMDDhhmmss of any year 0000 to 9999, read as UTC into a Unix timestamp.",
     ["inputs"], "all project records with representable values",
     "One sample record is tested; dates with single-digit fields, leap days, year limits, numeric limits and negative colors are not.",
     ["src/parser/project.rs", "src/parser/serde_util.rs", "src/color.rs"], [("serde derive with custom date, number and color codecs", "src/parser/serde_util.rs, src/color.rs")], technique=T_MODEL)

prop("C04", "The list of activities and custom views survives parsing and writing",
     "For every valid file list, whichever section comes first, is missing, empty or continued under a repeated header, and whether or not there are empty lines in it, parsing yields exactly the activities and custom views of the text, in order, with their type, keyboard setting, orientation, theme and the four option flags. Writing them and parsing the result gives equal lists, for lists of any length including none.",
     ["inputs"], "all file lists with known enumeration values and option bits",
     "Two samples are tested; empty sections, reordered sections and most enumeration values are not.",
     ["src/parser/file.rs"], [("section scanner", "src/parser/file.rs File::parse"), ("option bit mask", "src/parser/file.rs ActivityOptions")], technique=T_MODEL)

prop("C05", "Library settings survive parsing and writing",
     "For every valid library file, with its four sections in any order, parsing yields exactly the members of each section (use flag, data, reserved members, ad units, test devices, library type), and writing and parsing again gives equal settings; no section's values ever end up in another section.",
     ["inputs"], "all library files with the four sections present",
     "One sample is tested, in which most members are empty and thus interchangeable.",
     ["src/parser/library.rs"], [("section macro", "src/parser/library.rs Library::parse")], technique=T_MODEL)

prop("C06", "Resource lists survive parsing and writing",
     "For every valid resource list, parsing yields exactly the images, sounds and fonts of the text, each in order with name, file name and type, regardless of which sections are empty, missing, reordered or continued under a repeated header, and of empty lines. Writing and parsing again gives equal lists.",
     ["inputs"], "all resource lists", "Two samples are tested.", ["src/parser/resource.rs"], [("section scanner", "src/parser/resource.rs Resource::parse")], technique=T_MODEL)

prop("C07", "Layouts and fabs of the view file survive parsing and writing",
     "For every valid view file, parsing yields every screen's layout (views in order, every attribute with its value) and every floating action button under its screen name; writing and parsing again gives an equal object, for any number of layouts and fabs including empty layouts, layouts before or after fabs, any number of empty lines between them, and any attribute values (text with escapes, negative and extreme numbers, any finite float, every enumeration value).",
     ["inputs"], "all view files whose screen names have no dot or newline",
     "One sample with a handful of views is tested; most of the 50 attributes have a single value in it.",
     ["src/parser/view.rs"], [("section scanner and blank-line terminated layouts", "src/parser/view.rs View::parse, Layout::parse_iter"), ("serde attribute codecs", "src/parser/view.rs models")], technique=T_MODEL)

prop("C08", "Variables, components, events, more blocks and code survive parsing and writing",
     "For every valid logic file, parsing yields for every screen exactly the variables, list variables, components, events, more blocks and block containers of the text, in order, however the sections of the screens are interleaved and however many empty lines stand between them. Writing and parsing again gives equal screens, including pools that are present but empty, names with unusual characters, and screens that have only some kinds of section.",
     ["inputs"], "all logic files without duplicate names within a pool",
     "The tests parse one sample per pool kind and one small file; mixed screens, empty pools and odd names are not tested.",
     ["src/parser/logic.rs"], [("section dispatch by header suffix", "src/parser/logic.rs Logic::parse"), ("stitching of sections", "src/parser/logic.rs Logic::reconstruct")], technique=T_MODEL)

prop("C09", "Whatever text is accepted is written back to text with the same meaning",
     "For each of the six data files, every kind of section and every kind of record: if a text is accepted at all, however odd it is, then writing what was parsed succeeds, the text written is accepted, and it parses to an equal value; repeating this changes nothing further. Values that are not finite numbers are exempt.",
     ["inputs"], "all texts that some parser of the crate accepts",
     "Round trips are tested on the few samples only, which are in the shape that the writer produces itself.",
     ["src/parser/"], [("Parsable::parse and Parsable::reconstruct of every type", "src/parser/*.rs")], technique="runtime monitoring: metamorphic round-trip monitor over mutated and junk texts")

prop("C10", "Malformed data is refused, never silently repaired or dropped",
     "A record that is cut off, lacks a member, or has a member of the wrong type, out of range or of an unknown enumeration value is refused, as are variable and more-block lines without their separator or with an unknown variable type, library files lacking a section, numbers that are no 32-bit color, dates of anything but fourteen digits, and lines of a view or logic file that stand where a section has to start and are no header. Code is refused when a block reference dangles, is used twice or runs in a circle, an id or reference is malformed, a block type or spec parameter is unknown, or an argument is missing or not of its type. Views without an existing parent, unknown component and event kinds, invalid library use flags, custom views without a layout, listed resources without a file of that kind, and malformed hexadecimal colors are refused too.",
     ["inputs"], "all inputs with one defect of the kinds named, at every position",
     "Two malformed inputs are tested.",
     ["src/parser/", "src/api/block.rs", "src/api/view.rs", "src/api/mod.rs", "src/api/screen.rs", "src/color.rs"], [("error enums", "src/parser/*.rs, src/api/*.rs"), ("lookup failures become errors", "src/api/block.rs, src/api/view.rs, src/api/mod.rs")],
     technique="runtime monitoring: single-fault injection into valid inputs, refusal observed at the API boundary")

prop("C11", "Colors keep their channels and categories in every representation",
     "A color built from channels, a number or a hexadecimal text (six digits are opaque) reports exactly those channels, prints as its eight digits, and is stored in and read from data files as the signed 32-bit number of its bits, for all 2^32 values. Every block category has its own color and is recognised from exactly that color (whatever its alpha), and every other color is reported as unknown.",
     ["inputs"], "all 32-bit colors, all spellings of hexadecimal numbers, all categories",
     "A few opaque colors are tested; alpha below 128 (positive numbers) and short hexadecimal texts are not.",
     ["src/color.rs", "src/api/block.rs"], [("color codecs", "src/color.rs"), ("category table", "src/api/block.rs BlockCategory")], technique=T_MODEL)

prop("C12", "Block specs are split into text and parameters and put together unchanged",
     "For every spec of space-separated words, parsing yields in order the text words and the parameters with their kind (string, number, boolean, menu) and name, printing it yields the spec again, and the arguments are assigned to the parameters from left to right: parsing with arguments, and parsing without and applying them later, give the same content. Listing, taking out or replacing arguments touches exactly the parameters, in order, and references to blocks are resolved through the given lookup with the referenced id.",
     ["inputs"], "all specs and argument lists",
     "A few specs are tested, none with references in menus, empty arguments or multi-byte names.",
     ["src/api/block.rs"], [("spec scanner", "src/api/block.rs BlockContent")], technique=T_MODEL)

prop("C13", "A block list becomes exactly the tree of code its references describe",
     "For every list of blocks in which each block but the first is referenced exactly once, as next block, substack or argument (a block that is an argument is followed by none), in any order and with any ids, converting it gives the code with exactly these blocks at these places: the chains in order, both substacks, each argument under its parameter, and each block's color, opcode, spec and type. No block is lost, doubled or attached elsewhere.",
     ["inputs"], "all well-formed block lists of any size and order",
     "Three samples in ascending id order are tested.",
     ["src/api/block.rs"], [("recursive descent over a map of blocks", "src/api/block.rs Blocks::try_from")], technique=T_MODEL)

prop("C14", "Code written as a block list resolves back to the same code",
     "For every tree of code, however nested, writing it gives a list whose first block is the head of the code, whose ids are pairwise different, in which every block is referenced exactly once, no reference dangles and -1 stands where nothing follows or nests, and which describes exactly the same code; boolean literals are written as true and false blocks. Converting that list back gives an equal tree (empty substacks aside).",
     ["inputs"], "all trees of code made through the public types",
     "One sample is tested in this direction.",
     ["src/api/block.rs"], [("id allocation while flattening", "src/api/block.rs From<Blocks> for BlockContainer")], technique=T_MODEL)

prop("C15", "Layouts convert between parent lists and trees without losing or moving a view",
     "For every list of views in which each view's parent is the root or an earlier view, conversion gives the tree in which every view is under its parent and siblings keep their order, with all its attributes; looking up an id finds the view with it at any depth, if there is one. Flattening any tree gives parents before children, each view's parent id and parent type set from its actual parent, and converting back gives the same tree, also after views were moved, removed, retyped or edited.",
     ["inputs", "histories"], "all view lists and trees, all edit sequences on them",
     "One small layout is tested.", ["src/api/view.rs"], [("parse_raw_layout, flatten_views, find_id", "src/api/view.rs")], technique=T_MODEL)

prop("C16", "Typed view attributes mirror the raw attributes, both ways, for every view type",
     "For each of the 18 known view types, converting a view shows exactly the attributes of that type and the common ones (sizes, padding, margins, weights, gravities, colors) with their raw values, and converting back after any edit stores exactly the edited values and the type, leaving all other raw attributes as they were; views of unknown type keep all raw attributes. Gravity flags report exactly the bits of the number.",
     ["inputs", "histories"], "all view types, attribute values and edits",
     "Conversions of single views of a few types are tested with default values.",
     ["src/api/view.rs", "src/parser/view.rs"], [("ViewType::from_view, apply_values_to_view, View::from", "src/api/view.rs"), ("Gravity", "src/parser/view.rs")], technique=T_MODEL)

prop("C17", "A screen is assembled from its own layout, pools and code",
     "Each screen of the API has exactly the variables, lists, components (all 21 kinds with the parameters the API models), more blocks with spec and code, events with kind and target, and the code found in the container that belongs to that event or more block; an onCreate container appears as the screen's first event. Components, events and more blocks convert back to exactly the records and container names they came from.",
     ["inputs"], "all screens: every component kind, event kind, presence or absence of pools and containers",
     "One project is converted in the tests; most component kinds and two of the event kinds do not occur.",
     ["src/api/screen.rs", "src/api/component.rs"], [("Screen::from_parsed, Event, MoreBlock", "src/api/screen.rs"), ("component table", "src/api/component.rs")],
     note=" One known finding (target type of view events) is masked by its exact signature.", technique=T_MODEL)

prop("C18", "A whole project goes through parser and API and back without loss",
     "For every valid project (any screens, custom views, drawers, libraries, resources, icon, code), loading its six data files into the API and writing it out again gives data files with the same content in every member the API models, with resource files present exactly if they were given; custom views are written with the fixed values of the format (keyboard setting 0, no options, orientation 2, theme -1) and libraries that are off with empty members. Loading the output again gives an equal API project, a project built by hand survives writing and loading, and nothing of one screen, section or resource kind turns up in another.",
     ["inputs"], "all projects within the domain of DESIGN.md",
     "Two sample projects are converted one way; the conversion of an API project to data files is not compared with anything.",
     ["src/api/mod.rs", "src/parser/mod.rs"], [("TryFrom/From between raw, parsed and API project", "src/api/mod.rs, src/parser/mod.rs")],
     note=" One known finding (target type of view events) is masked by its exact signature.", technique=T_MODEL)

prop("C19", "Edits through the API are saved exactly, and nothing else changes",
     "After any history of edits through the public API (metadata, colors, libraries, screens, variables, components, events, code, more blocks, names, views, fabs, custom views, resources, icon), with saves and reloads in between, every save describes exactly the project as edited: each edit is there and everything not edited is unchanged.",
     ["histories"], "all edit histories over all projects",
     "No test edits a project and saves it.",
     ["src/api/", "src/parser/mod.rs"], [("From<api::SketchwareProject> for parser::SketchwareProject", "src/api/mod.rs")],
     note=" One known finding (target type of view events) is masked by its exact signature.", technique="runtime monitoring: history plus executable model, every save read by an independent reader")

prop("C20", "Resource files are recognised by kind and name and matched to the resource list",
     "Given resource files by path or by id, each is filed under its kind (for paths: the folder two levels up) and its full name, the icon separately; missing files and paths outside the resources layout are refused, naming the path. Loading a project attaches to every listed image, sound and font exactly the file of that kind with its file name and takes the icon that is given even if the record says there is none, and refuses a project whose listed resource has none; writing gives all files back.",
     ["inputs", "configurations"], "all sets of resource files and lists, same names in different kinds included",
     "One list is tested.", ["src/parser/mod.rs", "src/api/mod.rs"], [("ResourceFiles::try_from, get_full_name", "src/parser/mod.rs"), ("resources_conv", "src/api/mod.rs")], technique=T_MODEL)

prop("C21", "The resource registry behaves as one map from id to file and kind",
     "After any sequence of put, get and remove, a resource is found exactly if it was put and not removed, with the file and kind it was put with; putting an id that is taken, in any kind, or a path that does not exist is refused with an error that says which id or path and changes nothing, and a file given by id takes on the kind it is put under. The three listings together show exactly the present resources of each kind.",
     ["histories"], "all operation sequences", "The registry is not tested.", ["src/api/mod.rs"], [("Resources::put_resource, get_resource, remove_resource", "src/api/mod.rs")], technique="runtime monitoring: history plus executable map model")

prop("C22", "Encrypted projects load exactly like plain ones, and failures name the file",
     "Loading the six encrypted data files gives exactly the project that loading their plain texts gives, with each text in its own place. If one of them cannot be decrypted or is not UTF-8, or its text is malformed, loading fails and the error is the one for that kind of failure, and for malformed text names the data file at fault.",
     ["inputs", "fault_sequences"], "all projects and all single corruptions of their encrypted files",
     "No test loads an encrypted project.", ["src/parser/mod.rs", "src/lib.rs"], [("RawSketchwareProject::from_encrypted*", "src/parser/mod.rs")], technique="runtime monitoring: differential monitor with fault injection")

prop("C23", "Parsing and writing are deterministic and safe to run from many threads",
     "Loading, converting and writing the same project gives equal results each time, no matter how many threads work on the same or other projects at the same time, in what order, and what was processed before. Resource file lists and generated random ids are compared without regard to order and id.",
     ["schedules", "inputs"], "all interleavings of independent work, all projects",
     "The tests call each function once.", ["src/"], [("no shared mutable state; values are owned", "src/")], technique="runtime monitoring: concurrent executions compared with a sequential reference")

prop("C24", "Errors identify the record at fault",
     "The error for one malformed record names where it is: the data file, the section or library header, the screen and container, the 0-based index of the record in its pool or layout (for file and resource lists and library items the 0-based line; for sections of the logic file also the 1-based line of the header), and where the error carries it, the offending content and the view before. Invalid view headers are named with content and 1-based line, and errors of the conversion to the API name the screen, container, custom view, view, more block, library, value or resource at fault; for code, the malformed id, type, reference, argument or parameter, the block that is not found (or the argument whose code is at fault), and the blocks whose substacks lead to it. The printed text of the error and its causes says these names too.",
     ["inputs"], "all single defects, at every position, in files of any length",
     "No test looks into an error.", ["src/parser/", "src/api/"], [("fields of the error enums", "src/parser/*.rs, src/api/*.rs"), ("line counting", "src/util.rs, src/parser/view.rs")], technique="runtime monitoring: single-fault injection, reported location compared with the injected one")

prop("C25", "Memory use is proportional to the input and nothing is leaked",
     "Parsing, writing and converting never hold more than a fixed multiple of the size of their input (100 bytes per byte plus one megabyte), whether the input is accepted or refused, and when the results are dropped all memory is released.",
     ["inputs"], "all inputs, valid or not", "No test measures memory.", ["src/"], [("owned values, no caches", "src/")], technique="runtime monitoring: counting allocator around every operation")

prop("C26", "Constructors and builders hold what they were given, and documented defaults",
     "Every public constructor, builder and Default gives a value that holds exactly its arguments, and for the rest nothing or the documented default: new views (alpha and scale 1, enabled, clickable, padding 8, margins 0, max 100, text size 12, font default_font, hint color -10453621, text color black, background 16777215, vertical), components with zero to three parameters, empty screen logic, pools and resources, the default palette (ff008dcd, ff0084c2, ff008dcd, ff57beee, 20008dcd), blocks with none, one or two substacks (types, opaque category color), contents built item by item, raw, parsed and API projects; random resource ids differ from call to call, and different ways to make the same value agree.",
     ["inputs"], "all arguments of the public constructors",
     "The tests use three of the constructors, as test data.", ["src/parser/", "src/api/"],
     [("new, new_empty, new_1param, new_2params, new_1substack, new_2substack, new_wo_res, parse_wo_res, make_random_id, builder", "src/api/*.rs, src/parser/*.rs"), ("Default implementations", "src/parser/view.rs models, src/parser/logic.rs pools")],
     technique="runtime monitoring: member-by-member monitor over generated constructor calls")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")

man = dict(
    version=1, setup_cmd="bash build.sh",
    checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
                 technique=p["_technique"], level="exploration", level_note=ASSUME + p["_note"]) for p in P],
    not_applicable=[],
    notes="All checks observe the public API of the crate; no hooks are needed in /repo.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
