TPL = "cmd/sqlgen/codegen/templates/db.go.tpl"
GENGO = "cmd/sqlgen/codegen/generate.go"
DBB = BND + " The generator runs once per check on models written by hand and what it writes is what is executed; the database is a SQL interpreter over symbolic rows, written for this purpose, which refuses what the dialect does not accept."
DBO = "tables of the stated number of rows with arbitrary distinct keys and arbitrary field values, database errors at each point, for mysql, postgres and sqlite"
prop("C01", "Insert stores exactly the records passed",
     "Inserting one or several records with the generated functions adds exactly one row per record, every column holding the value of its own field, whatever the column order, key kind or dialect; read-only columns and database-assigned keys are left to the database. After inserting one record its assigned key is in the struct, and where the database returns rows so are all other values, each in its own record. An error the database reports, at any point, reaches the caller.",
     ["inputs", "faults"], DBO,
     "Column, placeholder and argument order must agree for every mix of keys, read-only and custom columns; the tests compare generated text with golden files and never execute a statement.",
     [TPL, GENGO], [("insert functions", TPL), ("generated insert statements", GENGO)], DBB)
prop("C02", "Update by key changes exactly the record with that key",
     "Updating a record by its key sets every updatable column of the row with exactly that key to the record's values and leaves every other row, and read-only columns, as they were, for single, automatic and composite keys in any column position, for generated and for hand-written models. The error of a failing statement reaches the caller.",
     ["inputs", "faults"], DBO,
     "A shifted placeholder or argument only shows when the statement is executed with values; tests compare text.",
     [TPL, GENGO], [("UpdateByPK", TPL), ("generated update statements", GENGO)], DBB)
prop("C03", "Find, lock and delete by key touch exactly that record",
     "Finding or locking a record by its key fills every field from the row with exactly that key, or reports that there is none; deleting by key removes that row and no other. Single, automatic and composite keys in any column position behave alike, for generated and for hand-written models. Errors, also those that break off a result, reach the caller and no result stays open.",
     ["inputs", "faults"], DBO,
     "A shifted placeholder, argument or scan target only shows when the statement is executed on rows; tests compare text.",
     [TPL, GENGO], [("FindByPK, LockByPK, DeleteByPK", TPL), ("generated find and delete statements", GENGO)], DBB)
OPS = "cmd/sqlgen/codegen/templates/operator.go.tpl"
prop("C04", "Upsert adds new records and updates or ignores existing ones exactly",
     "Upserting one or several records adds those whose key is not in the table; for those whose key (or, where the dialect reports it, unique column) is, it either leaves the row alone or sets exactly the columns that were not omitted, as asked. No other row changes. Afterwards a record holds what was passed, its own assigned key or its own row as stored: never that of another record. An error the database reports reaches the caller and nothing is stored.",
     ["inputs", "faults"], DBO,
     "What an upsert does depends on the rows already there, the key layout and the dialect's conflict clause; tests only compare texts.",
     [TPL], [("UpsertOne and Upsert", TPL)], DBB + " On sqlite an upsert updates on a duplicate key only; on postgres an ignored single record is reported as not found.")
prop("C05", "Queries return exactly the selected rows, ordered and limited",
     "A query with a condition, order, limit, offset, chosen columns or other table returns exactly the rows of that table which meet the condition, in the order asked for, from the offset on, at most limit of them, every column in its own field; asking for one row gives the first or reports that there is none. An error the database reports, also one that breaks off the result, reaches the caller, and no result stays open.",
     ["inputs", "faults"], DBO,
     "Combinations of optional parts, their argument order and each dialect's demands only show when executed on rows; no test runs a query.",
     [TPL, OPS], [("QueryStmt, QueryOneStmt", TPL)], DBB)
prop("C06", "Updates and deletes by condition touch exactly the selected rows",
     "An update statement sets the listed columns to the given values in exactly the rows which meet its condition, a delete statement removes exactly those, where the dialect has it restricted to the first rows in the given order up to the limit; every other row and column stays. The error of a failing statement reaches the caller.",
     ["inputs", "faults"], DBO,
     "The order of assignments, condition and limit arguments and the parts each dialect accepts matter only on execution; no test executes the statements.",
     [TPL, OPS], [("ExecStmt", TPL)], DBB)
prop("C07", "Paging visits every selected record once, in order",
     "Walking the pages of a table forward or backward yields each record that meets the condition exactly once, in the order asked for with the key breaking ties, every page within the limit and only the last one shorter, beginning with the given record where there is one. A record to begin with that is not in the table is reported. Stopping early stops, and an error ends the walk after complete pages.",
     ["inputs", "histories", "faults"], DBO,
     "Whether pages skip or repeat records depends on ties, mixed directions and page borders across a sequence of statements; no test pages through rows.",
     [TPL], [("Pager", TPL)], DBB + " Columns ordered by hold no NULL.")
prop("Q01", "Conditions select exactly the rows they describe",
     "Each comparison, list, range, pattern and null condition, for any operands including an empty list, selects the rows whose column stands in that relation to the operand, with the database's treatment of NULL; and, or and their nesting combine conditions as written, whatever follows in the statement.",
     ["inputs"], "one row of arbitrary field values and arbitrary operands, for every operator, pair and nesting of up to four conditions, for mysql, postgres and sqlite",
     "Missing brackets, wrong operators and swapped arguments give valid SQL that selects other rows; tests cover no operator.",
     [OPS, TPL], [("operators", OPS), ("statement builder", TPL)], DBB)
prop("G01", "A field of every supported type survives storage",
     "Whatever type a field has (basic, named, pointer, time, bytes, slice, array, list, embedded, text or binary marshaler, custom scanner), a record inserted with the generated code and read back by key or by query is equal to what was passed, nil included, unless inserting it was refused; nothing of another record or of an earlier value of the destination shows. Finding by the value of a column finds the record.",
     ["inputs"], "one or two records of models with each field kind, arbitrary field values, for mysql, postgres and sqlite",
     "The value written, the column type and the scanner are picked by separate tables per dialect, so a mismatch only shows when a value makes the round trip; the tests compare generated text only.",
     [GENGO, "cmd/sqlgen/codegen/dialect", "sequel/encoding"], [("generated Values, Addrs and Column methods", GENGO), ("column types of the dialects", "cmd/sqlgen/codegen/dialect")], DBB)
CMP = "cmd/sqlgen/internal/compiler/"
prop("J01", "Columns kept as JSON hold what was stored",
     "A value without a representation of its own (struct, map, slice, array, pointers to them, types with their own JSON methods, also methods of the pointer) is written as JSON which reads back as an equal value, whatever the destination held before. NULL gives the zero value or nil. A value whose own method fails is refused. Text is read if it is one whole JSON value of the type and refused otherwise, leaving the destination as it was.",
     ["inputs"], "values of nine types, previous values of the destination, texts",
     "What remains of an earlier value depends on both values; the only test reads a NULL.",
     ["sequel/encoding/json.go"], [("JSON scanner and valuer", "sequel/encoding/json.go")],
     BND + " encoding/json is replaced by a model which parses and writes the same texts and sets fields, elements and entries as encoding/json does, earlier values included; natively encoding/json runs, and every validated path agrees.")

prop("T01", "Configured conversions are applied wherever a column is written or read",
     "A field whose type has conversions configured, in Go, in SQL or both, is written through them by every insert, upsert and update and read back through them by every query, whether it is an ordinary column, an automatic key's neighbour, a single key or part of one that is found, updated, locked or deleted by, nil or not, wherever it stands; other columns are not affected.",
     ["inputs", "faults"], "arbitrary records of types with Go conversions, SQL conversions and both, as columns, pointers, keys and parts of keys, in every kind of statement, for mysql, postgres and sqlite",
     "A statement that misses one conversion stores or compares another value and still is valid SQL; the tests compare the text of three statements.",
     ["cmd/sqlgen/codegen/generate.go", TPL], [("statements", "cmd/sqlgen/codegen/generate.go"), ("database functions", TPL)],
     DBB + " Conditions made by hand on such columns are left out; a pointer's Go conversion is configured under the pointer type.")
prop("K01", "Models are read field by field as declared",
     "From every struct type the compiler makes a table with one column for each exported field, embedded structs included at any depth and from any file or package, in the order of declaration, with the name its tag gives or the naming rule makes, and the documented options in any case of letters. What is left out by tag, comment or visibility leaves no trace; invalid names, duplicate columns, two automatic keys, read-only keys and pointers of pointers are refused.",
     ["inputs"], "struct types with symbolic tags, every mixture of options, field kinds, comments and embedding up to four deep, up to 30 fields, declarations alone and in groups over several files and packages",
     "Tag text, nesting and grouping combine freely; the golden files hold one model for each feature.",
     [CMP], [("Parse", CMP + "parser.go"), ("tag options", CMP + "tag.go"), ("column sets of a table", CMP + "compiler.go")],
     BND + " The syntax tree and types of a package are built by the harness instead of go/packages; natively the same source is written to files and loaded.")
prop("K02", "Derived names spell the field name",
     "A snake-case name has the letters and digits of the field name in order, in small letters, with an underscore exactly where a new word or number begins; a camel- or Pascal-case name has them with capitals exactly where words begin. Letters beyond ASCII are kept.",
     ["inputs"], "every field name up to the stated length of ASCII and accented letters, digits and underscores",
     "Acronyms, digits and underscores meet in many ways; five names are tested.",
     ["cmd/sqlgen/internal/strfmt/"], [("name conversion", "cmd/sqlgen/internal/strfmt/strfmt.go")], BND)
prop("K03", "Options are as the caller says, else the file, else the default",
     "Every option of the generator (sources, driver, naming, struct tag, getter prefix, names of generated files, strictness, what is skipped, package, directory and file of the database code and of the operators, types mapped, migration) is what the caller sets; what the caller leaves unset is what the configuration file of the working directory sets, under any of its names, also when the file sets only part of a group of options or nothing; what neither sets is the default. The operators go into the package and directory of the database code unless they have their own. Running with these options writes exactly the files they name and removes no other.",
     ["inputs"], "which options are set, in the file, by the caller or by both, with arbitrary texts",
     "Options combine freely; the tests load one file and the defaults.",
     ["cmd/sqlgen/codegen/config.go", "cmd/sqlgen/codegen/codegen.go"], [("merging of options", "cmd/sqlgen/codegen/config.go"), ("placement of the database code", "cmd/sqlgen/codegen/codegen.go")],
     BND + " Reading YAML and writing code are stand-ins in the symbolic run; natively a configuration file is read and the code is written. quote_identifier has no unset state: it is the caller's, and is left out.")

prop("K04", "Code is made for exactly the files the sources name",
     "Every source, be it a directory, a file, a wildcard of file names or everything below a directory, relative, absolute or by way of the parent, gives code for the structs of exactly the Go files it names, whatever the directories are called; several sources give code for all of theirs, also in one directory. A source that is not there is passed over; the directories the database code goes to and generated files are no sources, and no other file is removed.",
     ["inputs"], "every form of source over directory and file names with arbitrary letters, digits, underscores and dashes, in several working directories and combinations",
     "Which files a pattern catches depends on the letters in names and on the place of the tree; the tests use one pattern on one tree.",
     ["cmd/sqlgen/codegen/codegen.go", "cmd/sqlgen/codegen/path_matcher.go"], [("resolution of sources", "cmd/sqlgen/codegen/codegen.go"), ("matchers", "cmd/sqlgen/codegen/path_matcher.go")],
     BND + " The file system, the compiler and the writing of code are stand-ins in the symbolic run; natively the generator runs on real files.")
