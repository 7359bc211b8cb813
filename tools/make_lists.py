#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after a change here)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "asn1_parser/"
GENERATOR = P + "generators/generator.py"
CFS = P + "generators/cfs/generator.py"
C = P + "generators/c/generator.py"
BIN = P + "generators/binary/generator.py"
COSMOS = P + "generators/cosmos/generator.py"
TEMPL = P + "generators/cosmos/templates.py"
SORTER = P + "generators/cfs/module_sorter.py"
SIZE = P + "utils/size.py"
PROC = P + "asn1/processor.py"
GRAMMAR = P + "asn1/grammar.py"
PARSER = P + "asn1/parser.py"
BUILDER = P + "asn1/asn1_bundle_builder.py"
VALID = P + "asn1/validation/asn1_bundle_validator.py"
PRINTER = P + "c_printer.py"
CDATA = P + "c_data.py"
CLI = P + "cli/cli_arg_parser.py"
MAIN = P + "main.py"
ELEMENTS = P + "asn1/grammar_elements/"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, technique, note,
         level="exploration"):
    PROPS.append({
        "line": {
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "observe_at": observe, "hook_needed": None,
            },
        },
        "technique": technique, "note": note, "level": level,
    })


prop(
    "C01", "Onboard structs and ground packets agree bit for bit",
    "For every accepted bundle, each message has the same items in the same order with the same "
    "widths in the cFS struct and in the COSMOS packet. When every byte-sized item starts on a "
    "byte boundary, the offsets and the total size are the same too, so bytes written by the "
    "spacecraft are read as the same values on the ground.",
    ["inputs"], "all bundles of the supported subset (except arrays of ENUMERATED or SEQUENCE, see "
    "the known findings)",
    "The existing tests compare the two generators' texts with stored examples separately; no test "
    "relates them, and the examples contain few widths and nestings.",
    [GENERATOR, CFS, COSMOS, SIZE],
    [("_map_simple_types_to_c chooses C type and bitfield width", GENERATOR),
     ("_create_telemetry_item_data flattens sequences to items", COSMOS),
     ("get_bit_size, used by both", SIZE)],
    ["generate-cfs *_msg.h compiled with gcc", "generate-cosmos *.txt"],
    "property-based differential testing (struct measured by a compiled probe against the parsed packet)",
    "Sampled bundles; trusts gcc's layout of packed structs and the small COSMOS reader in apg/run.py.",
)
prop(
    "C02", "Generated C code always compiles",
    "For every accepted bundle, each header written by generate-cfs, generate-c and "
    "generate-binary compiles on its own, all headers compile together in any order and "
    "repeatedly, and each .c file compiles. Arrays which C cannot express are reported with an "
    "error instead of being written.",
    ["inputs"], "all bundles of the supported subset, any include order",
    "The tests compare text with stored files and never run a compiler on arbitrary combinations "
    "of types, imports, comments and values.",
    [GENERATOR, CFS, C, BIN, PRINTER, CDATA, SORTER],
    [("definitions are sorted by dependency", SORTER), ("include lists and guards", PRINTER),
     ("stdint/stdbool flags", CDATA)],
    ["generated *.h and *.c compiled with gcc"],
    "property-based testing with the C compiler as the oracle",
    "Sampled bundles; gcc (gnu17) decides. CHOICE of built-in types and CHOICE used as a field are "
    "known findings.",
)
prop(
    "C03", "Struct members keep the order, width, sign and dimensions of the ASN.1 fields",
    "Every SEQUENCE becomes a packed struct whose members are its fields in declaration order, "
    "each with the width and signedness that its range needs, the right floating point type, "
    "character arrays of the given size, nested structs by value, and all array dimensions. This "
    "holds equally for generate-cfs, generate-c and generate-binary.",
    ["inputs"], "all sequences of all accepted bundles",
    "Each test covers one or two hand-written types per construct; the rule is over all ranges, "
    "nestings, import paths and generators.",
    [GENERATOR, SIZE, ELEMENTS + "array.py", ELEMENTS + "key_type_pair.py", PROC],
    [("_convert_sequence_to_c", GENERATOR), ("asn1_type maps ranges to types", PROC),
     ("get_bit_size", SIZE), ("get_dimensions", ELEMENTS + "array.py")],
    ["compiled probe: offsetof, sizeof, bit scans, __builtin_types_compatible_p"],
    "property-based testing against an independent layout model, measured by a compiled probe",
    "Sampled bundles against an independent model; trusts gcc.",
)
prop(
    "C04", "COSMOS packets list every leaf item once, in order, with exact bit sizes",
    "A requested message becomes a packet whose items are the leaves of the SEQUENCE, depth first "
    "in declaration order through nested and imported sequences. Every item has the bit size and "
    "data type of its ASN.1 type, and arrays have the element size and total size.",
    ["inputs"], "all sequences (of scalars, strings, enumerations, nested sequences, arrays of "
    "numbers) of all accepted bundles",
    "Tests compare a few stored files; the statement is about every nesting, import path and range.",
    [COSMOS, TEMPL, SIZE],
    [("_create_telemetry_item_data", COSMOS), ("cosmos_telemetry text template", TEMPL)],
    ["generate-cosmos *.txt"],
    "property-based testing against a reference flattening of the ASN.1 tree",
    "Sampled bundles; trusts the COSMOS reader in apg/run.py.",
)
prop(
    "C05", "COSMOS items carry the states, limits, units, endianness and texts declared",
    "Enumerated and boolean items get exactly their states with the right numbers; items get "
    "limits exactly when their REAL range is narrower than the type, a unit, little-endian mark "
    "and description exactly when the declaration's comment has them. A comment can contain any "
    "character the language allows without damaging the file.",
    ["inputs"], "all items of all packets, all comment texts the grammar accepts",
    "Tests use a handful of tame comments and ranges and never read the file back as COSMOS does.",
    [COSMOS, TEMPL, ELEMENTS + "asn1_comment.py", ELEMENTS + "enumerated.py"],
    [("_range_subrange_data_type", COSMOS), ("quoting of texts", TEMPL),
     ("get_states", ELEMENTS + "enumerated.py")],
    ["generate-cosmos *.txt"],
    "property-based testing with hostile comments, file read back and compared item by item",
    "Sampled; descriptions are compared without quotes, backslashes and white space.",
)
prop(
    "C06", "Message ids follow the CCSDS primary header bit layout",
    "For every message whose header identification is constrained, the generated *_MID constant "
    "has the version in bits 15-13, the type in bit 12, the secondary header flag in bit 11 and "
    "the application process id in bits 10-0, for any order or subset of given values. COSMOS "
    "identifies the packet with the same values.",
    ["inputs"], "all identification values, orders, subsets, header wrappings and module splits",
    "One stored header example is tested; bit positions for other values, orders and partial "
    "identifications are not.",
    [CFS, COSMOS],
    [("_ccsds_primary_header_to_msg_id", CFS), ("APID as hexadecimal ID item", COSMOS)],
    ["*_msgids.h macros evaluated by gcc", "APPEND_ID_ITEM lines"],
    "property-based testing against the CCSDS bit layout computed independently",
    "Sampled over header shapes and values.",
)
prop(
    "C07", "Exactly the WITH COMPONENTS values become message constants and COSMOS ids",
    "Every value given for a component of a message, at any depth, appears once as a constant "
    "named after the message and the component in the msgids header. In COSMOS exactly the "
    "constrained items, including those constrained inside of nested types, become identifying "
    "items with that value, and no message is influenced by another one.",
    ["inputs"], "all WITH COMPONENTS listings over nested and imported sequences",
    "Tests have a few fixed listings; values leaking between types or lost at some depth need "
    "several types which share a nested type.",
    [CFS, COSMOS, PROC],
    [("_process_with_components", CFS), ("with_comp passing in the recursion", COSMOS),
     ("str_to_bool", PROC)],
    ["*_msgids.h", "generate-cosmos *.txt"],
    "property-based testing against values computed from the syntax tree",
    "Sampled listings; one item is not constrained twice.",
)
prop(
    "C08", "generate-c initialises exactly the given values",
    "For every sequence with WITH COMPONENTS, generate-c writes one variable, declared in the "
    "header and defined in the .c file, whose listed members have exactly the given values and "
    "whose other members are zero. Sequences without values get no variable.",
    ["inputs"], "all WITH COMPONENTS listings over several fields, any depth, order and value",
    "Tests compare two stored initialisers and never compile or run them.",
    [C, PRINTER, CDATA],
    [("_with_components_handling", C), ("init lists of CData", CDATA), ("print_to_file", PRINTER)],
    ["compiled *.c, memory of the variables"],
    "property-based testing: compiled initialisers compared byte for byte with a reference struct",
    "Sampled; the probe includes the .c files in one translation unit.",
)
prop(
    "C09", "Binary files hold the values in struct order, width and requested byte order",
    "For every completely specified sequence, the .bin file is the concatenation of all values in "
    "the order of the C struct, each with its exact width and the byte order given by "
    "--endianness; read through the generated struct it gives the values back. Incomplete or too "
    "large values, and types without a binary form, are reported, never written shifted.",
    ["inputs", "configurations"], "all sequences of 8/16/32/64-bit integers and reals, nested and "
    "imported, values in any order, both byte orders",
    "Tests use one stored example; order, width and nesting combinations are not covered.",
    [BIN, ELEMENTS + "key_type_pair.py", SIZE],
    [("_values_to_bytes_list, _component_to_bytes", BIN), ("FORMAT table", BIN)],
    ["*.bin bytes", "the generated struct compiled by gcc"],
    "property-based round trip (independent encoding, and reading through the compiled struct)",
    "Sampled; booleans, strings, enumerations and arrays are not supported by the generator.",
)
prop(
    "C10", "Enumerated numbers are the same in C, in COSMOS and in the ASN.1 text",
    "Every ENUMERATED maps its keys to 0..n-1, by position in the text or by the given numbers, "
    "and C constants and COSMOS states use this mapping. The member or item is wide enough for "
    "every key, and missing, repeated, negative or out of range numbers are rejected.",
    ["inputs"], "all enumerations of 1 to 300 keys, numberings given in any order",
    "Tests check a few numberings; permutations, large sizes and bad numberings with a plausible "
    "sum are not covered.",
    [PROC, ELEMENTS + "enumerated.py", GENERATOR, COSMOS],
    [("check_enumerated", PROC), ("_convert_enumerated_to_c", GENERATOR)],
    ["C constants evaluated by gcc", "STATE lines"],
    "property-based testing with valid and invalid numberings against the ASN.1 rule",
    "Sampled; mixed numberings (some keys with a number) are outside, the tests pin their handling.",
)
prop(
    "C11", "Reading a module gives back what was written, independent of layout",
    "Parsing the text of any module of the supported subset gives exactly its names, types, "
    "ranges, sizes, values and comments. White space and line breaks between tokens do not "
    "influence the result or the generated files.",
    ["inputs"], "all modules of the subset, all white space layouts the grammar allows",
    "Tests parse fixed texts in one layout.",
    [GRAMMAR, PARSER, PROC, ELEMENTS + "key_type_pair.py"],
    [("textX grammar", GRAMMAR), ("object processors", PROC)],
    ["Asn1Parser.parse_from_text_multimodule", "generated files"],
    "property-based round trip (print, parse, compare), metamorphic over layouts",
    "Sampled; the tree is read through the getters which the repository's tests use.",
)
prop(
    "C12", "Comments never change generated code and stay with their element",
    "Adding, changing or removing comments in the ASN.1 text never changes the code, constants, "
    "values or items generated, whatever characters the comments have. The comments of modules, "
    "types, fields, enumeration keys and alternatives appear next to the generated counterpart "
    "and nowhere else.",
    ["inputs"], "all comment texts the grammar accepts, at all places",
    "Tests use comments without characters which mean something in C or COSMOS.",
    [GENERATOR, PRINTER, CFS, C, BIN, TEMPL],
    [("comment_text", PRINTER), ("LineComment/Comment use", GENERATOR)],
    ["generated files with comments removed as a compiler does"],
    "metamorphic property-based testing (with and without comments) and comment placement oracle",
    "Sampled; texts compared without quotes, backslashes, '*', '/' and white space.",
)
prop(
    "C13", "The order of files, arguments, definitions and imports does not matter",
    "The order of the input files and of --asn1-modules never changes any output. The order of "
    "definitions, of imports and of imported names changes at most the order of things in the "
    "headers, never their content, the binary files or the COSMOS packets.",
    ["inputs", "configurations"], "all permutations of files, arguments, definitions and imports",
    "Each test uses one order.",
    [SORTER, BUILDER, CFS, C, BIN, COSMOS],
    [("create_ordered_import_list, get_definitions_sorted_by_dependency", SORTER),
     ("_resolve_types", BUILDER)],
    ["generated files"],
    "metamorphic property-based testing over permutations",
    "Sampled permutations.",
)
prop(
    "C14", "Output depends only on the inputs, for any history of commands",
    "Running a command gives the same bytes whatever ran before, whatever is in the output folder "
    "and in whatever environment: headers, C and binary files are replaced completely, COSMOS "
    "files grow by exactly the new content, and no other file (inputs included) is touched. A "
    "command which is refused changes nothing.",
    ["histories", "configurations"], "all sequences of commands in shared output folders, stale and "
    "foreign files, hash seeds, locales, working folders, path forms",
    "Each test runs one command in its own folder with one hash seed.",
    [PRINTER, COSMOS, CFS, C, BIN, SORTER, MAIN],
    [("print_to_file opens with mode w", PRINTER), ("COSMOS file opened with mode a", COSMOS),
     ("output folder creation", CFS)],
    ["complete folder content after every operation"],
    "stateful property-based testing against a model of the output folders",
    "Sampled histories of up to 8 operations; one process at a time.",
)
prop(
    "C15", "Inconsistent bundles are rejected before anything is written",
    "A bundle or command line with an undefined, unimported, duplicate or NULL type, an import of "
    "a type or module which does not exist, an unknown component key, a key used twice in a type or "
    "a WITH COMPONENTS, an unknown message, or a "
    "wrong, missing or repeated module or file ends with a failing exit status. Nothing is written or "
    "changed in the output folder.",
    ["inputs", "fault_sequences"], "every single fault of the listed kinds at every place of every "
    "consistent bundle, all four commands",
    "Tests inject a fault of some kinds at one place for one command and do not look at the output "
    "folder.",
    [VALID, BUILDER, PROC, MAIN, COSMOS],
    [("validate_bundle_from_config", VALID), ("_validate_unique_module_names", BUILDER),
     ("model processors", PROC), ("undefined message check", COSMOS)],
    ["exit status", "output folder content"],
    "fault injection into generated bundles, with a control run",
    "Sampled places; 27 kinds of faults enumerated for all commands on a fixed bundle.",
    "fault_enumeration",
)
prop(
    "C16", "Malformed text is rejected and nothing is written",
    "A module text which does not follow the documented grammar (truncated, with missing, doubled "
    "or stray tokens, wrong case, illegal names, forbidden characters in comments, malformed types "
    "or values, empty blocks) makes every command fail, and no file is written.",
    ["inputs", "fault_sequences"], "every single malforming change of every valid module text",
    "Tests try a few malformed texts; acceptance of a truncated or misspelled module needs the "
    "right place.",
    [GRAMMAR, PROC, PARSER],
    [("textX grammar", GRAMMAR), ("check_comment", PROC)],
    ["exit status", "output folder content"],
    "grammar-based mutation fuzzing with constructed invalid texts",
    "Sampled changes of 17 kinds.",
    "fault_enumeration",
)
prop(
    "C17", "Dependency order always works, cycles end with an error",
    "Types and modules may be given in any order: as long as their use is acyclic, generation "
    "succeeds and every definition comes before its use. Circular imports and types which contain "
    "themselves, directly or through others, end with an error in bounded time and without output.",
    ["inputs"], "all dependency graphs of types and modules, cycles of any length through fields, "
    "arrays and choices",
    "Tests sort two or three definitions and have no cycles.",
    [SORTER, VALID, BUILDER],
    [("get_definitions_sorted_by_dependency, create_ordered_import_list", SORTER),
     ("_check_bundle_for_circular_dependencies", VALID)],
    ["exit status within a CPU limit", "generated headers compiled"],
    "property-based testing over random graphs, acyclic and with one closing edge",
    "Sampled graphs up to 30 types or 7 modules; more than 20 s of CPU time counts as endless.",
)
prop(
    "C18", "Ranges decide the encoding exactly, and impossible ranges are rejected",
    "A range which fits into 64 bits (or a double) is encoded with exactly the bits it needs and "
    "can hold all its values, in C and in COSMOS. Reversed ranges, ranges beyond 64 bits or double "
    "and POSIX type names with another than their own range are rejected wherever they stand.",
    ["inputs"], "all integer and real ranges, all places of a type",
    "Tests sample a few ranges; off-by-one errors at a power of two need that power.",
    [SIZE, PROC, GENERATOR, COSMOS],
    [("get_bit_size", SIZE), ("asn1_type, check_posix", PROC)],
    ["compiled structs", "COSMOS bit sizes", "exit status"],
    "property-based boundary testing; all unsigned widths and signed boundaries enumerated",
    "Sampled, with all boundaries of widths 1-64 as directed cases.",
)
prop(
    "C19", "Output for one type depends only on that type and what it uses",
    "Adding, removing or changing modules and types which a module, type or message does not use "
    "leaves its struct, constants, values, binary file and packet as they are. Several messages in "
    "one command give the same packets as one command per message.",
    ["inputs", "configurations"], "all pairs of bundles which differ in an unrelated part",
    "Tests never compare two runs.",
    [COSMOS, BUILDER, CFS, C, BIN],
    [("lookup of definitions by name", COSMOS), ("_resolve_types over all modules", BUILDER)],
    ["generated files"],
    "metamorphic property-based testing",
    "Sampled; comments (notes on where a simple type is used) are not compared.",
)
prop(
    "C20", "Every command writes exactly the files and definitions its input asks for",
    "Each command writes exactly the documented files for the modules of the bundle, or the one "
    "COSMOS file with exactly the requested packets in order, in the given or default folder. Each "
    "header holds exactly the definitions of its module, includes exactly the headers of the "
    "imported modules, and has an include guard of its own.",
    ["inputs", "configurations"], "all accepted bundles, commands and output folders",
    "Tests compare single files, not the complete set of files and definitions.",
    [CFS, C, BIN, COSMOS, PRINTER, CLI],
    [("generation loops over modules and definitions", CFS), ("print_to_file", PRINTER),
     ("default folders", CLI)],
    ["output folder content", "definitions and includes of the headers"],
    "property-based testing against the file and definition sets computed from the syntax tree",
    "Sampled bundles.",
)
prop(
    "C21", "A CHOICE becomes a union of exactly its alternatives",
    "Every CHOICE becomes a C union whose members are exactly the alternatives in order, with the "
    "C types of the alternatives, in all C generators; its size is that of the largest "
    "alternative. COSMOS generation of a CHOICE fails instead of writing a wrong packet.",
    ["inputs"], "all CHOICE types of sequences and enumerations, local and imported",
    "Tests compare one stored union.",
    [GENERATOR, COSMOS, ELEMENTS + "choice.py"],
    [("_convert_choice_to_c", GENERATOR)],
    ["compiled union", "exit status of generate-cosmos"],
    "property-based testing with a compiled probe",
    "Sampled; alternatives of built-in types are a known finding of C02.",
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in PROPS:
            f.write(json.dumps(p["line"]) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B tools/setup_check.py",
        "checks": [
            {
                "property": p["line"]["id"],
                "quick_cmd": "./check.py " + p["line"]["id"],
                "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p["line"]["id"],
                "evidence_file": "evidence/%s.json" % p["line"]["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"],
            }
            for p in PROPS
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo. Known and fixed defects: known_findings.jsonl. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
