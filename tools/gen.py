#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the Go SSA of the code under test, assertions decided by z3, counterexamples replayed natively"
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, claimed=True, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, claimed=claimed, na=na))


BND = "Bounded: holds for every value within the bounds the evidence file states; nothing is claimed beyond them. Trusts the engine's models of standard-library leaf functions; path witnesses and every counterexample are re-run on the compiled code."

ENC = "sequel/encoding/"
prop("E01", "Integer columns are read exactly or refused",
     "Reading an integer column into a Go integer field (of any width, signed or unsigned, named or not, plain or pointer) yields exactly the number the driver delivered, whether it came as an integer or as decimal text. A value that does not fit the field, or text that is not a decimal integer, is an error and leaves the field as it was; it is never wrapped, truncated or read as something else.",
     ["inputs"], "every 64-bit integer and every short text or limit-sized decimal, for each integer kind, with plain and pointer destinations in any prior state",
     "The tests read a few small numbers; wrapping and range edges live at values they do not sample.",
     [ENC + "int.go", ENC + "uint.go"], [("signed integer scanner", ENC + "int.go"), ("unsigned integer scanner", ENC + "uint.go")], BND)
prop("E02", "NULL resets every kind of field",
     "Reading NULL into a field succeeds for every field kind the library reads: a plain field becomes its zero value, a pointer field becomes nil and the value it pointed to before is untouched, and a list becomes nil. Nothing of an earlier row is left behind.",
     ["inputs"], "every field kind the library has a reader for, plain and pointer, strict or not, in any prior state",
     "Stale state after NULL depends on the prior content and on each kind's own branch; tests read NULL into fresh zero variables for a few kinds.",
     [ENC + "int.go", ENC + "uint.go", ENC + "float.go", ENC + "bool.go", ENC + "string.go", ENC + "time.go", ENC + "text.go", ENC + "pointer.go", ENC + "json.go", ENC + "byte_array.go", ENC + "rune_array.go", "sequel/sqltype/", "sequel/driver/postgres/pgtype/"],
     [("NULL branch of each reader", ENC)], BND)
prop("E03", "Values read never share memory with the driver",
     "A value read from a row stays what it was when the driver reuses or overwrites its row buffer for later rows, for strings, byte slices, fixed-size arrays and list elements, plain or pointer. Reading a later row never changes a value taken from an earlier one.",
     ["inputs", "histories"], "every text up to the stated length and every destination kind, with the buffer overwritten after the read",
     "Sharing only shows when the buffer is overwritten afterwards; tests hand in buffers nobody touches again.",
     [ENC + "string.go", ENC + "byte_array.go", ENC + "rune_array.go", "sequel/sqltype/string_slice.go", "sequel/driver/postgres/pgtype/"],
     [("text reader copies the driver's bytes", ENC + "string.go"), ("list readers copy elements", "sequel/driver/postgres/pgtype/array.go")], BND)
prop("E04", "Fixed-size arrays hold exactly what was read",
     "After reading text or bytes into a fixed-size byte or character array, the array holds exactly the delivered bytes or characters followed by zeros. A value longer than the array is an error that changes nothing, and nothing outside the array is ever written.",
     ["inputs", "histories"], "every byte string up to the stated length, every array size up to the bound, any prior array content, delivered as string or as bytes",
     "Needs every combination of length, prior content and multi-byte characters; tests use one exact-length example.",
     [ENC + "byte_array.go", ENC + "rune_array.go"], [("byte array reader", ENC + "byte_array.go"), ("rune array reader", ENC + "rune_array.go")], BND)
prop("E05", "Text, booleans, floats and custom values are read faithfully",
     "Reading into string, byte-slice, boolean, floating-point, time, self-decoding and pointer fields yields the value the driver delivered, in its canonical text form where a conversion to text is involved. A value that cannot be represented is an error that leaves the field unchanged, and with strict reading enabled values of another type are refused instead of converted.",
     ["inputs"], "every driver value of every kind within the stated sizes, strict and lenient, plain and pointer destinations",
     "Tests check single examples per kind and never the state of the destination after a failure.",
     [ENC + "string.go", ENC + "bool.go", ENC + "float.go", ENC + "text.go", ENC + "pointer.go", ENC + "time.go"],
     [("string reader", ENC + "string.go"), ("boolean reader", ENC + "bool.go"), ("float readers", ENC + "float.go"), ("text unmarshaler reader", ENC + "text.go"), ("pointer reader", ENC + "pointer.go")], BND)
prop("E06", "Lists are written as JSON arrays of the same elements",
     "Writing a list of strings, byte strings, integers, unsigned integers, booleans or floats as text produces a valid JSON array that has the same elements in the same order, whatever bytes the strings contain and however large the numbers are. Text produced earlier is not affected by later writes.",
     ["inputs", "histories"], "every list up to the stated length with arbitrary elements up to the stated size",
     "Escaping and number formatting must hold for every byte and every number; tests write a few plain words and small integers.",
     [ENC + "marshaler.go", "sequel/strpool/pool.go"], [("list writers", ENC + "marshaler.go"), ("shared builders", "sequel/strpool/pool.go")], BND)
prop("E07", "Textual times are read as the instant they denote",
     "Reading a time column delivered as a date, a date and time, a date and time with a fraction of up to nine digits, or an RFC 3339 timestamp yields exactly that instant. Impossible dates or clock times and text in any other form are errors, and a failed read leaves the field unchanged.",
     ["inputs"], "every date of the stated centuries, every clock time, every fraction up to nine digits, and short junk texts, for plain and pointer destinations",
     "Leap days, fraction widths and out-of-range parts form a space the single sampled timestamps do not touch.",
     [ENC + "time.go"], [("time reader", ENC + "time.go")], BND)
PG = "sequel/driver/postgres/pgtype/"
prop("P01", "PostgreSQL arrays survive a write and read round trip",
     "A list of any supported element type written as a PostgreSQL array is a well-formed array literal with the same elements, and reading it back, as string or bytes and into a destination in any prior state, gives the same list. A nil list is written as NULL and reads back as nil.",
     ["inputs"], "every list up to the stated length with arbitrary elements, for all element types",
     "There are no tests for these types, and quoting must hold for every byte an element can contain.",
     [PG], [("array writers and readers", PG + "array.go")], BND)
prop("P02", "PostgreSQL array text is read exactly or refused",
     "Reading text as a PostgreSQL array gives exactly the elements a well-formed one-dimensional literal denotes, including quoted elements and numbers up to the limits of the element type. Malformed literals, NULL or out-of-range elements and multidimensional arrays are errors, save that words of text are taken as they stand and braces around nothing are an empty array. Nothing makes the reader crash or hang.",
     ["inputs"], "every text up to the stated length between and around the braces, for all element types, and numbers around the limits of each type",
     "The space of malformed literals and range edges is not sampled at all by the tests.",
     [PG], [("array parser", PG + "array.go"), ("element conversion", PG + "int_array.go")], BND)
prop("P03", "Quoted text is one PostgreSQL literal denoting that text",
     "Turning a string into a PostgreSQL string literal yields exactly one literal that denotes the same string, whatever characters it contains, so it can never end the literal early and inject other SQL.",
     ["inputs"], "every byte string up to the stated length, and longer strings with arbitrary bytes at any two positions",
     "Injection needs one unlucky combination of quote and backslash; no test quotes anything.",
     ["sequel/driver/postgres/pgutil/pgutil.go"], [("literal quoting", "sequel/driver/postgres/pgutil/pgutil.go")], BND)
SL = "sequel/sqltype/"
prop("S01", "JSON list columns survive a write and read round trip",
     "A list column kept as JSON is written as a valid JSON array with the same elements, and reading it back, as string or bytes and into a destination in any prior state, gives the same list. A nil list is written as NULL and reads back as nil.",
     ["inputs"], "every list up to the stated length with arbitrary elements, for all element types",
     "There are no tests for these types, and escaping must hold for every byte an element can contain.",
     [SL], [("list writers and readers", SL + "string_slice.go")], BND)
prop("S02", "JSON list text is read exactly or refused",
     "Reading JSON array text gives exactly the elements it denotes, whatever insignificant white space and escapes it is written with. Text that is no such list, because elements are missing, run together, nested, unfinished or not of the element type, and numbers outside the element type's range, are errors; only words and escapes may be other than JSON allows, and brackets around nothing are an empty list. Nothing makes the reader crash or hang.",
     ["inputs"], "every text up to the stated length between and around the brackets, for all element types, and numbers around the limits of each type",
     "The space of renderings and malformed texts is not sampled at all by the tests.",
     [SL], [("array parser", SL + "string_slice.go"), ("element conversion", SL + "int_slice.go")], BND)

exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
m = dict(version=1, setup_cmd="./run.sh",
         checks=[dict(property=p["id"], quick_cmd="./run.sh check " + p["id"], thorough_cmd="VERIF_TIER=thorough ./run.sh check " + p["id"], technique=TECH, level="model_checking", level_note=p["note"]) for p in P if p["claimed"]],
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if not p["claimed"]],
         notes="Every check symbolically executes the SSA of /repo's current source (gosym/), with harnesses laid over the tree as virtual files; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(P), "properties")
