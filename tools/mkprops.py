#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["public API return values, exceptions and resulting data"],
                          "hook_needed": None}})
T, PA, U = "ticdat/ticdatfactory.py", "ticdat/pandatfactory.py", "ticdat/utils.py"

prop("C01", "Foreign key failures are reported exactly",
 "For every schema, set of foreign keys and data set, searching for foreign key failures reports, for each declared foreign key, exactly the child rows whose mapped values match no parent row - no failing row is omitted and no matching row is listed - together with the offending values. Foreign keys without failures do not appear in the result, and simple, compound, self-referential, circular and non-primary-key mappings all obey the same rule, for dict-of-rows data and for data-frame data.",
 ["inputs", "configurations"], "all schemas, foreign key graphs (simple/compound, self-referential, to non-key fields, several keys between the same two tables) and table contents",
 "Tests check a handful of hand-built diet/netflow data sets; the combinations of mapping shape, field order, table shape and contents are never enumerated.",
 [T, PA, U], [("find_foreign_key_failures", T), ("find_foreign_key_failures/_find_foreign_key_failure_rows", PA), ("ForeignKey mapping helpers", U)])

prop("C02", "Removing foreign key failures leaves the largest consistent subset",
 "Removing foreign key failures with cascading leaves exactly the largest subset of the original rows that has no foreign key failure: afterwards no failure remains, every deleted row was unsalvageable, and all surviving rows are unchanged. Without cascading, exactly the rows that were failing before the call are deleted.",
 ["inputs", "histories"], "all foreign key graphs, all contents, cascades of any depth, cyclic and self-referential keys, tables without primary key",
 "Tests exercise one- or two-level cascades on fixed data; a fix-point over all graphs and depths cannot be sampled.",
 [T, PA], [("remove_foreign_key_failures", T), ("remove_foreign_key_failures", PA)])

prop("C03", "Data type failures are reported exactly",
 "Searching for data type failures reports exactly the cells that violate the declared type of their field (number bounds with their inclusivity, integrality, permitted strings, nullability, date-times) and, for primary key fields without declared type, exactly the null cells. Fields without a declared type are otherwise never reported, each reported entry lists exactly the offending rows and the offending values, and declaring, redeclaring or clearing a type takes effect for exactly that field.",
 ["inputs", "configurations"], "all data type declarations and all cell values (numbers, booleans, strings, nulls, infinities, dates)",
 "Tests use a few types and values; the boundary conditions are a large cross product.",
 [T, PA, U], [("find_data_type_failures", T), ("find_data_type_failures", PA), ("TypeDictionary.valid_data/safe_creator", U)])

prop("C04", "Replacing data type failures changes exactly the failing cells",
 "Replacing data type failures overwrites exactly the failing cells of typed fields with the explicitly supplied replacement for that field or else that field's default, and changes nothing else; afterwards the replaced fields have no data type failure. A replacement value that is itself invalid is refused while there is something to replace, and a refused call changes no data.",
 ["inputs", "configurations"], "all types, defaults, replacement maps and data contents",
 "Tests replace a handful of values on one schema; the frame condition (nothing else changes) and refusal atomicity are not checked over inputs.",
 [T, PA], [("replace_data_type_failures", T), ("replace_data_type_failures", PA)])

prop("C05", "Row predicates are evaluated on every row and reported exactly",
 "Searching for data row failures evaluates every registered predicate on every row of its table, and only there, and reports exactly the rows for which it is falsey (or, in error message mode, everything other than literal True with its message). Exceptions from predicates or from the argument-preparation function are failures or propagate as selected by the exception handling mode, the argument-preparation function runs exactly once per search on the data set being checked (or on its conversion, when one was configured), and illegal parameter names or values are reported as row failures of the parameters table.",
 ["inputs", "configurations"], "all predicate sets, failure modes, exception modes and data contents",
 "Tests check a few predicates; combinations of exception mode, message mode, shared argument makers and parameters are not covered.",
 [T, PA], [("find_data_row_failures", T), ("find_data_row_failures", PA), ("add_data_row_predicate", T)])

prop("C06", "Limiting the number of failures yields a correctly sized true subset",
 "A failure search (foreign key, data type or row predicate) limited to n failures never reports anything the unlimited search would not report, and reports min(n, total) failures for dict-of-rows data; for data-frame data it reports at least min(n, total) and stops adding failing categories once n is reached. It reports nothing only when there is nothing to report.",
 ["inputs", "configurations"], "all data sets, all limits, all three searches",
 "Tests only try a couple of limits on one data set.",
 [T, PA], [("max_failures handling in the three find_* routines", T), ("max_failures handling", PA)])

prop("C07", "Duplicate primary keys are found and handled as configured",
 "The duplicate search reports exactly the primary keys that occur more than once (dict-of-rows readers: with their multiplicity; data frames: the duplicated rows, honouring the keep-first / keep-last / keep-none choice), for in-memory frames and for every file format. Constructing a data set from a row listing that repeats a primary key is refused, announced or silently accepted precisely as configured.",
 ["inputs", "configurations"], "all tables, all key multiplicities, all keep modes, all file formats",
 "Tests check one or two duplicated keys per format.",
 [T, PA, U, "ticdat/csvtd.py", "ticdat/jsontd.py", "ticdat/sqlitetd.py", "ticdat/xls.py"],
 [("find_duplicates", PA), ("find_duplicates", U), ("TicDat.__init__ duplicates check", T)])

prop("C08", "Diagnostics, copies, conversions and writes never alter their input",
 "Searching for failures or duplicates, copying, converting between representations, computing the full parameters, obfuscating, slicing and writing to any file format leave the data set they are given exactly as it was (values, rows, order, columns, row labels), leave the schema's declared content exactly as it was, and give the same answer when repeated.",
 ["inputs", "histories"], "all data sets, all schemas, all interleavings of such calls",
 "Tests almost never compare the input before and after a call.",
 [T, PA, U], [("find_* / copy_* / write_* routines", T), ("find_* / copy routines", PA)])

prop("C09", "Frozen data never changes",
 "Once a data set has been frozen, no operation available on it, its tables, its rows or its foreign-key links (assignment, deletion, update, pop, clear, default-creation by lookup, append, attribute assignment) changes it: every attempt raises and the content stays identical, and looking up a missing key does not create a row.",
 ["histories"], "all sequences of mutation attempts on all parts of a frozen data set",
 "Tests try a handful of item assignments; other mutators are not tried.",
 [T, U], [("freeze_me/_freeze", T), ("FreezeableDict, freezable_factory, td_row_factory", U)])

prop("C10", "Data sets always conform to their schema",
 "However a data set is built or edited - from dictionaries, lists of rows, row dictionaries, data frames or cell by cell - every table holds exactly the rows supplied, under the supplied primary keys, every row has exactly the declared data fields, and fields that were not supplied hold the declared default (zero if none; null for missing primary keys of frames). Input that cannot conform (unknown tables or fields, wrong key or row length) is refused and leaves the data set as it was.",
 ["inputs", "histories"], "all schemas, defaults, accepted input shapes and edit sequences",
 "Tests cover favourite shapes with one schema; the cross product of shapes, missing fields and defaults is unexplored.",
 [T, PA, U], [("TicDat.__init__, TicDatDict, TicDatDataList", T), ("td_row_factory", U), ("PanDat.__init__", PA)])

prop("C11", "Object checks accept exactly what fits the schema",
 "The object check accepts an object exactly when it has every table of the schema in the proper representation with the proper keys and fields (strict checking: rows carrying precisely the declared fields; generous: rows giving any subset of the declared fields, or the data values in order, or a single value), and whatever it accepts can be copied into an equivalent data set. When it refuses, it reports a reason.",
 ["inputs", "configurations"], "all objects near the accept/reject boundary for all schemas",
 "Tests try a few bad objects.",
 [T, PA], [("good_tic_dat_object/good_tic_dat_table", T), ("good_pan_dat_object", PA)])

prop("C12", "Foreign key links equal the relational join",
 "With foreign key links enabled, every parent row gives access to exactly the child rows that refer to it, by the very same row objects, under the key fields not fixed by the link; one-to-one children are linked directly, and rows without children have empty links. Links appear for every linkable key and never change table contents.",
 ["inputs", "configurations"], "all schemas with simple (primary-key) foreign keys and all contents",
 "Tests walk the links of two sample data sets.",
 [T], [("_try_make_foreign_links, _trigger_has_been_used", T)])

prop("C13", "Copies are equal and independent",
 "A copy or conversion equals the original at the moment it is made, and afterwards no edit of either one (cells, rows, tables, freezing) is visible in the other. Freezing a copy does not freeze the original and editing a copy does not edit the arguments a data set was built from.",
 ["histories"], "all data sets and all edit sequences on original and copies",
 "Tests mutate one cell of one copy.",
 [T, PA], [("copy_tic_dat, copy_to_pandas, as_dict", T), ("copy_pan_dat, copy_to_tic_dat", PA)])

prop("C14", "Dict and data-frame representations convert without loss",
 "Converting a data set to its data-frame, plain-dictionary or JSON-ready form and back yields the same tables, keys and values (nulls becoming null), for every schema including tables without primary key, single and compound keys and empty tables, and regardless of whether key columns are kept, dropped or turned into index.",
 ["inputs", "configurations"], "all schemas and contents, all conversion options",
 "Tests convert the diet and netflow samples.",
 [T, PA], [("copy_to_pandas, as_dict", T), ("copy_to_tic_dat", PA)])

prop("C15", "A schema survives export, re-import and cloning",
 "Exporting the full schema (also through JSON) and recreating a factory from it, or cloning a factory (also across the dict and data-frame flavours), yields a factory with the same tables, fields and their order, defaults, data types, foreign keys, parameters, tooltips and settings, which behaves identically; later changes to either factory never affect the other.",
 ["configurations", "histories"], "all schemas and all sequences of schema declarations",
 "Tests round-trip a few schemas.",
 [T, PA, U], [("schema, create_from_full_schema, clone", T), ("schema, create_from_full_schema, clone", PA)])

prop("C16", "Schema edits change exactly what was asked",
 "Adding a table, adding, removing or renaming a column, or restricting the tables produces a factory in which exactly that has changed: everything declared about other tables and fields is retained, what refers to removed things disappears, what refers to renamed things follows, and the original factory is unchanged.",
 ["configurations", "histories"], "all schemas with all kinds of declarations, all edits and edit sequences",
 "Tests apply a few edits to one schema.",
 [T, PA, U], [("clone_add_a_table/clone_add_a_column/clone_remove_a_column/clone_rename_a_column/clone_a_anchillary_info_schema", U), ("clone", T), ("clone", PA)])

prop("C17", "Semantic declarations lock once a factory has been used",
 "From the moment a factory has produced its first data set, its defaults, data types, row predicates, foreign keys, generator tables and parameter additions can no longer be changed; a frame-based factory locks the same way. Each attempt raises and the declarations stay the same, while before that moment the same declarations succeed. Settings that only concern reading, writing and presentation stay changeable, and a clone of a used factory starts out unlocked.",
 ["histories"], "all interleavings of declarations, uses and clones",
 "Tests check one or two setters after use.",
 [T], [("_has_been_used checks, _trigger_has_been_used", T)])

prop("C18", "Implied foreign keys are the transitive closure and change no verdict",
 "Adding implied foreign keys adds exactly the keys derivable by chaining declared keys (to a parent's primary key) through shared fields, always terminates (also on cyclic graphs), is idempotent, and never changes whether any data set has foreign key failures nor what cascading removal leaves.",
 ["configurations", "inputs"], "all foreign key graphs (chains, diamonds, cycles, compound keys) and data sets",
 "Tests check two chains.",
 [T], [("add_implied_foreign_keys", T)])

prop("C19", "Ill-formed schemas and declarations are refused and have no effect",
 "A factory can only be built from well-formed schemas (distinct table names and fields irrespective of case, at least one field per table), and declarations naming unknown tables or fields or with malformed arguments raise and leave the schema unchanged. Declared foreign keys are listed exactly once with the correct cardinality.",
 ["inputs", "configurations", "histories"], "all schema descriptions and all declaration sequences with valid and invalid arguments",
 "Tests try a few invalid arguments.",
 [T, PA, U], [("__init__, set_*, add_* verify checks", T), ("__init__, set_*, add_* checks", PA)])

prop("C20", "Dict-flavoured data survives writing to and reading from files",
 "Writing a data set to CSV, JSON, SQLite (database or SQL text) or Excel and reading it back with the same schema yields the same tables, keys and values, for every content the format can represent under the declared types (text with quotes, separators and line breaks, numbers, nulls, booleans and dates where supported, empty tables), including when written with case/space-adjusted names. (SQL text files are documented not to hold text that starts or ends with, or repeats, a quote.)",
 ["inputs", "configurations"], "all schemas and representable contents, all formats and writer options",
 "Tests round-trip sample data sets with benign strings.",
 ["ticdat/csvtd.py", "ticdat/jsontd.py", "ticdat/sqlitetd.py", "ticdat/xls.py"], [("write_*/create_tic_dat", "ticdat/csvtd.py"), ("write_file/create_tic_dat", "ticdat/jsontd.py"), ("write_db_data/write_sql_file/create_tic_dat", "ticdat/sqlitetd.py"), ("write_file/create_tic_dat", "ticdat/xls.py")])

prop("C21", "Data-frame data survives writing to and reading from files",
 "Writing frame-based data to CSV, JSON, SQLite or Excel and reading it back with the same schema yields the same rows in the same order with the same values, also with duplicated keys, nulls, empty tables and case/space-adjusted names; files written by one flavour are read by the other like files of its own.",
 ["inputs", "configurations"], "all schemas and representable contents, all formats and options, both flavours",
 "Tests round-trip sample data sets.",
 ["ticdat/pandatio.py"], [("writers and create_pan_dat of each format", "ticdat/pandatio.py")])

prop("C22", "Infinity flags are an exact encoding in every format",
 "With a numeric infinity flag, writing replaces infinities by plus or minus the flag (and clamps larger numbers), reading turns every number at or beyond the flag into the corresponding infinity, and nothing else is altered; with a null flag, exactly the infinities of fields whose type permits that infinity but not null are exchanged with null. The in-memory data being written is not altered and the parameters table is exempt.",
 ["inputs", "configurations"], "all flags, types, values and formats",
 "Tests use one flag value with one data set.",
 [T, PA, "ticdat/pandatio.py"], [("_general_read_cell, _infinity_flag_write_cell", T), ("_infinity_flag_pre_write_adjustment, _general_post_read_adjustment", PA)])

prop("C23", "Existing files are never overwritten without permission",
 "Writers that take an overwrite permission (all dict-flavoured ones; for frames, SQLite's if_exists) raise without it when any of the files to be written already exists (or the database already holds data), and every pre-existing file or table keeps its content. With permission, the outcome equals writing to a fresh target as far as the data set is concerned.",
 ["histories", "configurations"], "all formats, all writer options, all prior states of the target",
 "Tests check the default options only.",
 ["ticdat/csvtd.py", "ticdat/jsontd.py", "ticdat/sqlitetd.py", "ticdat/xls.py", "ticdat/pandatio.py"], [("allow_overwrite checks", "ticdat/csvtd.py"), ("allow_overwrite checks", "ticdat/pandatio.py")])

prop("C24", "Reading matches names leniently but unambiguously",
 "A reader finds a table under any spelling that differs from its declared name only by case or by spaces in place of underscores (and the dict-flavoured readers of headed formats a field under any spelling that differs by case only), refuses input in which two spellings match the same table or field, ignores undeclared tables and fields, and gives empty tables for missing ones. A field missing from a table with rows is refused unless filling with defaults was requested, and then holds its default.",
 ["inputs", "configurations"], "all name spellings, subsets of present tables and fields, all formats and flavours",
 "Tests try a couple of spellings.",
 ["ticdat/csvtd.py", "ticdat/jsontd.py", "ticdat/sqlitetd.py", "ticdat/xls.py", "ticdat/pandatio.py", U], [("table/field name matching", "ticdat/csvtd.py"), ("table/field name matching", "ticdat/pandatio.py")])

prop("C25", "Parameters resolve to stored value or default, with declared typing",
 "The full parameters dictionary contains every declared parameter and every stored one, mapping each to the stored value if present and to its default otherwise; defaults must be legal for their declared type. Parameter values written to and read back from any file format have the same value and the type their declaration calls for.",
 ["inputs", "configurations"], "all parameter declarations, stored subsets and file formats",
 "Tests use a few parameters.",
 [T, PA], [("add_parameter, create_full_parameters_dict, _parameter_table_post_read_adjustment", T), ("create_full_parameters_dict", PA)])

prop("C26", "Obfuscation is a structure-preserving, invertible renaming",
 "Obfuscating a data set yields a copy that differs only by a one-to-one renaming of entity keys, consistently applied to every field that refers to them; the returned table of renamings maps each new name back to its origin. Skipped tables and all unrelated values are untouched, and foreign key integrity is retained.",
 ["inputs", "configurations"], "all schemas, foreign key graphs, skip sets, prefix choices and contents",
 "Tests check one or two schemas.",
 [T, U], [("obfusimplify", T), ("baseConverter", U)])

prop("C27", "Slicing equals filtering",
 "Slicing an index collection by any combination of fixed values and wildcards returns exactly the matching tuples (each as often as it occurs), whether or not the optimised back end is in use and however many slices were taken before.",
 ["inputs", "histories"], "all index collections, all slice patterns, all slice sequences",
 "Tests compare a few random slices.",
 [U], [("Slicer", U)])

prop("C28", "The command line runner reads, checks, solves and writes exactly once",
 "The command line runner reads the input named on the command line, passes it to the solve function exactly once and writes its result to the named output; missing input, duplicate rows or an empty result produce no output file. When an error report is requested, it lists exactly the duplicate, data type, data row and foreign key failures, and solve runs only if there are none.",
 ["histories", "configurations"], "all combinations of formats, flags, data with and without errors, and solve results",
 "Tests run a few command lines.",
 [U], [("standard_main, _integrity_solve", U)])

prop("C29", "Generator and generic tables carry the same data as ordinary ones",
 "Tables declared as generators can be iterated any number of times and always deliver exactly the supplied rows with declared fields and defaults, also when read from and written to files. Tables without declared fields carry arbitrary frames through construction, copying, conversion and files unchanged.",
 ["inputs", "configurations", "histories"], "all contents, all formats, repeated iteration",
 "Tests iterate one or two such tables.",
 [T, "ticdat/csvtd.py", "ticdat/jsontd.py", "ticdat/sqlitetd.py", "ticdat/xls.py"], [("set_generator_tables, generatorfactory, generic tables", T)])

prop("C30", "PostgreSQL stores round-trip and honour pre-existing row policy",
 "Writing a data set to PostgreSQL tables created from the schema and reading it back yields the same data, under any foreign key order and infinity flag; writing over pre-existing rows deletes or keeps them precisely as requested. A call that is refused (names, tables or policies that do not fit) leaves the database unchanged; a call that fails midway leaves no row that was neither there before nor to be written. Rows marked as inactive are not read, duplicates are counted exactly, and written schemas have the columns, types, keys and defaults the factory stands for.",
 ["histories", "configurations"], "all schemas, contents, and sequences of writes with all policies",
 "Tests write sample data sets once or twice.",
 ["ticdat/pgtd.py"], [("write_data, write_schema, create_tic_dat, create_pan_dat", "ticdat/pgtd.py")])

prop("C31", "Trailing empty spreadsheet rows are pruned exactly when configured",
 "Reading a spreadsheet whose last rows are empty in all declared columns yields the data without those rows under the pruning setting and with them under the ignoring setting; empty rows followed by non-empty ones and partially empty rows are always retained.",
 ["inputs", "configurations"], "all placements of empty rows and cells, both settings, both flavours",
 "Tests check one sheet.",
 ["ticdat/xls.py", "ticdat/pandatio.py"], [("xlsx_trailing_empty_rows handling", "ticdat/xls.py"), ("xlsx_trailing_empty_rows handling", "ticdat/pandatio.py")])

prop("C32", "The optimisation wrapper solves the model that was stated",
 "A model built through the optimisation wrapper has, with every supported solver that is present, the same feasibility, optimal objective value and a feasible optimal assignment as the stated variables, bounds, constraints and objective imply; parameters are passed through and unsupported ones refused.",
 ["programs", "inputs"], "all small mixed-integer programs and all supported solvers",
 "Tests solve two sample models.",
 ["ticdat/model.py"], [("Model", "ticdat/model.py")])

prop("C33", "AMPL receives exactly the data set and its solution is read back intact",
 "Copying a data set to AMPL gives one data frame per ordinary keyed table, keyed by the primary key fields and holding exactly the rows of the table (infinities replaced as requested, fields and tables renamed or excluded as requested, generic tables left out), without altering the original; anything that cannot be copied is refused. Copying from AMPL variables yields a data set with exactly the rows and values of the variables, and formatting a model file replaces exactly the named placeholders.",
 ["inputs", "configurations"], "all schemas, contents, renamings, exclusions and infinity replacements, both flavours",
 "Tests need AMPL installed and solve two sample models.",
 [T, PA, U], [("copy_to_ampl, copy_from_ampl_variables", T), ("copy_to_ampl, copy_from_ampl_variables", PA), ("ampl_format", U)])

prop("C34", "Log files, progress reports, series slicing and frame helpers are exact",
 "A log file holds exactly the text written to it, in order, with tables truncated at the requested length and nothing after closing; a progress reporter prints one line per accepted report, refuses inconsistent ones, and its solver callbacks report the solver's bounds the right way round and stop the solver exactly when told to. Slicing a series or frame by its index with wildcards gives exactly the matching rows in order, for sorted and unsorted indexes alike, and the column-mapping helpers apply a function to each row exactly once in order.",
 ["inputs", "histories"], "all write sequences, all progress reports, all indexes and slice patterns",
 "Tests write one log and slice a few series.",
 [U], [("LogFile, Progress, Sloc, faster_df_apply", U)])

prop("C35", "Access files round-trip, refuse before writing, and get the declared schema",
 "Writing a data set to an Access file with the factory's schema and reading it back (frozen or not) yields the same data, infinities included under the infinity flag, whatever the table and field names; a write that cannot be honoured (rows present without permission to overwrite, tables missing) is refused before anything is written. A written schema has exactly the declared tables, keys and column types, and duplicates are counted exactly as they appear in the file.",
 ["inputs", "configurations", "histories"], "all schemas, names, contents, declared field types, infinity flags and overwrite sequences",
 "Tests need the Access driver and round-trip a few samples.",
 ["ticdat/mdb.py"], [("MdbTicFactory: write_schema, write_file, create_tic_dat, find_duplicates", "ticdat/mdb.py")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
