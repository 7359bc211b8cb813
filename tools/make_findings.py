#!/usr/bin/env python3
"""Writes known_findings.jsonl (run by hand after a change here)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

KNOWN = [
    ("C01", "C01-array-of-enumerated",
     "a SEQUENCE OF an ENUMERATED has a byte per element in the C struct but only the bits of the "
     "ENUMERATED per element in the COSMOS packet (Pkt { a SEQUENCE (SIZE (3)) OF En })"),
    ("C01", "C01-array-of-sequence",
     "a SEQUENCE OF another SEQUENCE is flattened once in the COSMOS packet, the array size is "
     "lost (Pkt { a SEQUENCE (SIZE (3)) OF Inner })"),
    ("C02", "C02-choice-of-builtin",
     "a CHOICE alternative of a built-in or simple type is written with its ASN.1 name, which is "
     "no C type (Ch ::= CHOICE { a INTEGER(0..7) })"),
    ("C02", "C02-choice-as-field",
     "a field whose type is a CHOICE is written as 'Ch x;', but only 'union Ch' is defined "
     "(Pkt { x Ch })"),
    ("C02", "C02-enum-keys-shared",
     "the keys of all ENUMERATED types are constants of one name space in C, so two types with a "
     "common key do not compile (Ea ::= ENUMERATED { on, off }, Eb ::= ENUMERATED { on, unknown })"),
    ("C02", "C02-c-keyword",
     "names which are words of C are written as they are (Pkt { int INTEGER(0..255) })"),
]

FIXED = [
    ("C03", "1191cf1", "signed INTEGER fields got 'int' instead of a type of their encoded width"),
    ("C01", "b68b7cd", "fields of a BOOLEAN simple definition were a whole 'bool' instead of 1 bit"),
    ("C02", "a8a0e67", "generate-c and generate-binary included no headers of imported modules"),
    ("C02", "5514cc9", "the .c file lost its #include when a later type had no values"),
    ("C07", "3791255", "COSMOS booleans without a value became ID items"),
    ("C06", "98d34af", "COSMOS generation crashed for an application process id without a value"),
    ("C19", "b0b5ba2", "inherited COSMOS values were added to the model and leaked into later packets"),
    ("C17", "d5d5509", "circular imports and recursive types made the generators loop forever"),
    ("C10", "4aa7cd8", "enumerations with negative or repeated numbers were accepted"),
    ("C02", "ea70285", "types with the single value 0 and enumerations of one key gave 0 bit fields"),
    ("C18", "dd01330", "unsigned ranges beyond 64 bits gave invalid or truncating C code"),
    ("C15", "bf6eee9", "a simple definition which uses an undefined type was accepted"),
    ("C12", "8af8d4a", "'*/' or a backslash at the end of a comment changed the generated C code"),
    ("C05", "aa5a9b5", "quotes and backslashes in comments damaged the COSMOS descriptions"),
    ("C05", "0dafb7f", "items of BOOLEAN simple definitions had no COSMOS states"),
    ("C03", "0616222", "inner dimensions of arrays of arrays and arrays of strings were lost"),
    ("C02", "a169731", "arrays of bitfields gave invalid C code"),
    ("C21", "a486b30", "a commented CHOICE alternative hid the following one in its line comment"),
    ("C08", "85b9568", "several WITH COMPONENTS of one sequence gave several definitions of its variable"),
    ("C09", "a528bf5", "generate-binary crashed for values of imported nested sequences"),
    ("C09", "1f7d280", "binary values were written in the order of the listing instead of the struct, "
     "also incomplete ones"),
    ("C17", "c0b7edb", "the search for a type through densely connected imports took exponential "
     "time in COSMOS generation"),
    ("C15", "6f36c18", "two modules of the same name were accepted by generate-cosmos, the first file won"),
    ("C03", "e5b5ec0", "items of a simple string definition (Name ::= IA5String (SIZE (8))) crashed "
     "every generator"),
    ("C15", "47756b4", "two items of the same name in one SEQUENCE, CHOICE or ENUMERATED were accepted"),
    ("C15", "d8a8724", "a key listed twice in WITH COMPONENTS was accepted"),
    ("C14", "a18cb5d", "a command which failed in a later module left the files of the earlier ones"),
]


def main():
    with open(os.path.join(HERE, "known_findings.jsonl"), "w", encoding="utf-8") as f:
        for p, i, w in KNOWN:
            f.write(json.dumps({"status": "known", "property": p, "finding": i, "what": w}) + "\n")
        for p, c, w in FIXED:
            f.write(json.dumps({
                "status": "fixed", "property": p, "commit": c, "what": w,
                "entry": "fixed: property=%s %s %s" % (p, c, w),
            }) + "\n")


if __name__ == "__main__":
    main()
