package main

var groups = []*Group{
	{Name: "enc"},
	{Name: "jsn"},
	{Name: "arr"},
	{Name: "comp", Cmd: true},
	{Name: "src", Cmd: true},
	{Name: "dbmysql", Dirs: []string{"dbx"}, Prepare: generate("model", "mysql", "plain")},
	{Name: "dbpg", Dirs: []string{"dbx"}, Prepare: generate("model", "postgres", "quote")},
	{Name: "dbsqlite", Dirs: []string{"dbx"}, Prepare: generate("model", "sqlite", "plain")},
	{Name: "typmysql", Dirs: []string{"typ"}, Prepare: generate("types", "mysql", "plain")},
	{Name: "typpg", Dirs: []string{"typ"}, Prepare: generate("types", "postgres", "plain")},
	{Name: "typsqlite", Dirs: []string{"typ"}, Prepare: generate("types", "sqlite", "plain")},
}

var checks = []*Check{
	{Prop: "E01", Groups: []string{"enc"}, Bounds: "all 2^64 driver integers; arbitrary text of 0..4 bytes (thorough 6) and decimals of limit length with 3..5 (thorough 6) symbolic trailing digits; prior destination values symbolic; *T, **T and nil **T"},
	{Prop: "E02", Groups: []string{"enc"}, Bounds: "every scanner kind; prior values symbolic (text 0..2 bytes, arrays of 4 or 6)"},
	{Prop: "E03", Groups: []string{"enc"}, Bounds: "driver text of 0..3 (thorough 6) arbitrary bytes; list elements of 1..2 letters; buffer overwritten after the read"},
	{Prop: "E04", Groups: []string{"enc"}, Bounds: "arrays of 0..3 bytes/0..2 runes (thorough 5/3) with symbolic prior content, input of 0..5 (thorough 8) arbitrary bytes; rune input 0..4 (thorough 5) bytes"},
	{Prop: "E05", Groups: []string{"enc"}, Bounds: "all bool/int64/float64 driver values, text of 0..4 (thorough 8) arbitrary bytes, decimals of 6..9 (thorough 8..15) digits, a fixed time rendered as text", Assumes: []string{"strconv.ParseFloat and FormatFloat on symbolic operands are uninterpreted except that parsing a shortest rendering returns the float and that decimal integers up to 15 digits are exact"}},
	{Prop: "E06", Groups: []string{"enc"}, Bounds: "lists of 0..3 strings of 0..2 (thorough 3) arbitrary bytes, 0..3 small integers, 0..2 64-bit integers, 0..4 booleans, 0..3 finite floats"},
	{Prop: "E07", Groups: []string{"enc"}, Bounds: "dates: all years of 2 (thorough 4) centuries, months 0..13, days 0..99; all clock digits; 1..9 fraction digits; zone Z and three offsets; junk over the digits 0,1 and separators up to 10 (thorough 12) bytes"},
	{Prop: "J01", Groups: []string{"jsn"}, Bounds: "numbers of -9..19 (thorough all of 8 bits), text of 0..1 letters, maps of 0..2 keys, lists of 0..2 elements (of structs 0..1, thorough 2), nil; a tail of 0..1 (thorough 2) arbitrary bytes; arbitrary ASCII text of 0..4 (thorough 5) bytes without fractions for a list of numbers", Assumes: []string{"encoding/json behaves as documented: it is replaced by a model which sets values as it does; natively it is used"}},
	{Prop: "P01", Groups: []string{"arr"}, Bounds: "lists of 0..2 (64-bit integers 0..1) symbolic elements, strings of 0..2 (thorough 3) bytes or one of 0..4 bytes; destination nil, empty or holding three elements"},
	{Prop: "P02", Groups: []string{"arr"}, Bounds: "arbitrary text of 0..4 (thorough 5) bytes, and 4..7 arbitrary bytes between braces; decimals at the limits with 2..4 symbolic digits"},
	{Prop: "P03", Groups: []string{"arr"}, Bounds: "all strings of 0..5 (thorough 7) bytes; strings of 12 (thorough 20) letters with two arbitrary bytes anywhere"},
	{Prop: "S01", Groups: []string{"arr"}, Bounds: "lists of 0..2 (64-bit integers 0..1) symbolic elements, strings of 0..2 (thorough 3) bytes or one of 0..4 bytes; destination nil, empty or holding three elements"},
	{Prop: "S02", Groups: []string{"arr"}, Bounds: "arbitrary text of 0..4 (thorough 5) bytes, and 4..7 arbitrary bytes between brackets; decimals at the limits with 2..4 symbolic digits; escapes of up to 6 (thorough 7) bytes"},
	{Prop: "C01", Groups: dbs, Bounds: "one or 0..3 records into a table of 0..1 rows, text of 0..2 bytes, 64-bit numbers", Assumes: []string{"database/sql and the driver behave as documented: they are replaced by a SQL interpreter over symbolic rows"}},
	{Prop: "C02", Groups: dbs, Bounds: "tables of 0..2 (thorough 0..3) rows, text of 0..2 bytes, 64-bit numbers; 12 key layouts", Assumes: []string{"database/sql and the driver behave as documented: they are replaced by a SQL interpreter over symbolic rows"}},
	{Prop: "C03", Groups: dbs, Bounds: "tables of 0..2 (thorough 0..3) rows, text of 0..2 bytes, 64-bit numbers; 11 key layouts; statement error, broken result, text as bytes, every lock mode", Assumes: []string{"database/sql and the driver behave as documented: they are replaced by a SQL interpreter over symbolic rows"}},
	{Prop: "C04", Groups: dbs, Bounds: "one or 0..2 (thorough 0..3) records into a table of 0..1 rows (0..2 for one record, thorough), text of 0..2 bytes, 64-bit numbers; 13 key layouts, nothing, the last or every column omitted; statement error, broken result", Assumes: []string{"database/sql and the driver behave as documented: they are replaced by a SQL interpreter over symbolic rows"}},
	{Prop: "C05", Groups: dbs, Bounds: "tables of 0..3 (thorough 0..4) rows, text of 1 byte, limits and offsets to one beyond the rows, 7 orders; statement error, broken result", Assumes: []string{"database/sql and the driver behave as documented: they are replaced by a SQL interpreter over symbolic rows"}},
	{Prop: "C06", Groups: dbs, Bounds: "tables of 2..3 rows, text of 1 byte, 64-bit numbers, every combination of condition, order and limit the statement has", Assumes: []string{"database/sql and the driver behave as documented: they are replaced by a SQL interpreter over symbolic rows"}},
	{Prop: "C07", Groups: dbs, Bounds: "tables of 2..3 rows, pages of 1..3 records, 4 orders forward and backward from each record or the beginning, 3 conditions, 3 key layouts; error at each statement, broken result; ordering columns not NULL", Assumes: []string{"database/sql and the driver behave as documented: they are replaced by a SQL interpreter over symbolic rows"}},
	{Prop: "G01", Groups: typs, Bounds: "one or two records of each of 26 models; text of 0..2 bytes, all numbers of the field types, lists of 0..2 elements, arrays of 2 and 4 elements, times of any second of 136 years", Assumes: []string{"database/sql and the driver behave as documented: they are replaced by a SQL interpreter over symbolic rows; not-a-numbers are left out"}},
	{Prop: "T01", Groups: dbs, Bounds: "one to three records and tables of 0..2 (thorough 0..3) rows, 64-bit numbers, text of 0..1 bytes; 4 models with converted columns, pointers, single keys and parts of keys", Assumes: []string{"database/sql and the driver behave as documented: they are replaced by a SQL interpreter over symbolic rows, which has a function and its inverse"}},
	{Prop: "K01", Groups: []string{"comp"}, Bounds: "tags of 0..5 (thorough 6) arbitrary printable characters, two names of 0..2 (thorough 3), options in any case, three fields with eight mixtures of options each, embedding up to four deep, 19..29 fields, three types of seven kinds, alone or in a group", Assumes: []string{"go/parser, go/types and go/packages deliver the syntax and types of the source: the harness builds them for the solver; natively they are used"}},
	{Prop: "K02", Groups: []string{"comp"}, Bounds: "names of 1..6 (thorough 8) bytes of letters, accented letters, digits and underscores"},
	{Prop: "K03", Groups: []string{"src"}, Bounds: "each of seven options not set, set in the file, by the caller or by both, with the others likewise; two mapped types; the six options of database code in every combination of unset, file and caller (thorough: and both); the four of the migration; texts with 1 (thorough 2) arbitrary letters; four names of the file, empty or of comments only", Assumes: []string{"the YAML decoder sets what the file sets and nothing else, reports EOF for an empty file and clears everything for a file of comments: natively it is used"}},
	{Prop: "K04", Groups: []string{"src"}, Bounds: "ten directory names, three working directories, eight ways to name a directory, six files, seven wildcards and five patterns below a directory, one to three of nine sources together, file and directory names with 1 (thorough 2) arbitrary letters, digits, _ or -", Assumes: []string{"the file system, writing the code and the compiler are stand-ins which record what is asked for; natively the generator itself runs on real files"}},
	{Prop: "Q01", Groups: dbs, Bounds: "every operator with arbitrary operands on one row of arbitrary fields, 1-byte text, lists of 0..2; pairs and triples of conditions with and, or, nesting", Assumes: []string{"database/sql and the driver behave as documented: they are replaced by a SQL interpreter over symbolic rows"}},
}

var typs = []string{"typmysql", "typpg", "typsqlite"}

var dbs = []string{"dbmysql", "dbpg", "dbsqlite"}
