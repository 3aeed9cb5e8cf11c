#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Failures are reported, never swallowed",
  "Whenever a database statement, a result iteration, a transaction boundary, a file read or write, or an output write performed on behalf of a command or an exported operation fails, that operation returns a non-nil error. The only exceptions are failures the operation is documented to absorb: a lock timeout that is retried, and a file or history table that is allowed to be absent.",
  ["fault_sequences", "inputs"],
  "every command and exported operation, every position at which a database, file or stream operation can fail, every sequence of such failures",
  "Existing tests run against a working in-memory SQLite and never inject a failure, so no error path behind a database or file operation is executed.",
  ["ddl/migrate_cmd.go", "ddl/load_cmd.go", "ddl/dump_cmd.go", "ddl/ls_cmd.go", "ddl/mv_cmd.go", "ddl/rm_cmd.go", "ddl/touch_cmd.go", "ddl/wipe_cmd.go", "ddl/generate_cmd.go", "ddl/automigrate_cmd.go", "ddl/database_introspector.go", "ddl/batch_insert.go", "ddl/subsetter.go", "ddl/tables_cmd.go", "ddl/views_cmd.go", "ddl/struct_parser.go"],
  [("err != nil checks after every database, file and stream call", "every *_cmd.go Run method and its helpers"), ("closing rows and reporting the iteration error", "ddl/database_introspector.go closeRows and every rows loop")],
  ["error returned by each exported operation", "calls made on the database connection and on the output streams"])
p("C02", "Transactions are all-or-nothing and always finished",
  "Every transaction an operation begins is, on every path out of that operation, finished: committed at most once and only if every statement issued in it succeeded, otherwise rolled back. Statements that belong to the transaction are issued through it and never on the bare connection while it is open.",
  ["fault_sequences", "inputs", "crash_points"],
  "every failure position, migration content, dialect and set of options",
  "Tests only exercise the successful path, where commit is reached; the paths on which a transaction could leak, be committed half-done or be bypassed need failing statements.",
  ["ddl/migrate_cmd.go", "ddl/load_cmd.go", "ddl/rm_cmd.go", "ddl/mv_cmd.go", "ddl/touch_cmd.go", "ddl/wipe_cmd.go"],
  [("BeginTx / deferred Rollback / Commit pairing", "Run methods of migrate, load, touch, rm, mv, wipe")],
  ["sequence of begin/exec/commit/rollback calls on the connection"])
p("C03", "Dry run changes nothing",
  "When a command that supports it is asked for a dry run, it sends no data- or schema-changing statement to the database, opens no transaction and creates, writes or deletes no file; it only writes to its output streams.",
  ["inputs", "configurations"],
  "every command with a dry-run option, every dialect, every other option combination, every catalog",
  "Tests check the text printed by a dry run on SQLite; they do not observe that nothing else happened for other dialects and option combinations.",
  ["ddl/generate_cmd.go", "ddl/automigrate_cmd.go", "ddl/wipe_cmd.go"],
  [("early return on the DryRun branch", "ddl/generate_cmd.go, ddl/automigrate_cmd.go, ddl/wipe_cmd.go")],
  ["statements received by the database", "files opened for writing"])
p("C04", "Migrate runs exactly the pending migrations, in order",
  "A migrate run executes each selected migration file at most once per attempt and in the selected order, stops at the first one that fails, and never executes a file that the history already records as successful unless it is a repeatable file whose content has changed. A selected file that is not recorded as successful (or is a changed repeatable) is never skipped without an error.",
  ["histories", "inputs", "fault_sequences"],
  "every set of files, every prior content of the history table, every failure position",
  "Tests use a handful of files and prior histories; which files run depends on every combination of history rows, file contents and failures.",
  ["ddl/migrate_cmd.go", "ddl/touch_cmd.go"],
  [("history lookup by filename into the pending list", "ddl/migrate_cmd.go MigrateCmd.Run"), ("grouping of pending files into transactional and non-transactional runs", "ddl/migrate_cmd.go MigrateCmd.Run/run")],
  ["order of file contents executed on the database"])
p("C05", "Migration history never claims a success that did not happen",
  "A migration is recorded as successful only if its content was executed without error through the same connection or transaction that the record is written through, so a record of success that stays implies that the migration's effects stay; a migration that failed or was rolled back is never recorded as successful. When the history table is to be skipped, it is never written.",
  ["fault_sequences", "histories", "inputs"],
  "every position of a failing statement or commit, every grouping of migrations, every prior history",
  "Tests only check history after complete success or one simple failure; the record written after each failure position is not observed.",
  ["ddl/migrate_cmd.go"],
  [("success flag set after the script ran, history rows written inside the same transaction", "ddl/migrate_cmd.go run / updateHistory")],
  ["history rows written, relative to commits"])
p("C06", "Retries happen only on lock timeouts and within the limits",
  "A migration attempt is repeated only when it failed with a lock timeout and nothing of it can have taken effect (it ran in a transaction that was rolled back, or it is a single statement); any other failure is returned at once. The number of attempts never exceeds the configured maximum, and computing the delay never crashes and yields, for non-negative settings, a delay between zero and the configured maximum delay.",
  ["fault_sequences", "configurations"],
  "every combination of maximum attempts, base delay and maximum delay, every sequence of lock timeouts and other failures",
  "No test provokes a lock timeout or uses unusual delay settings.",
  ["ddl/migrate_cmd.go"],
  [("bounded retry loop with exponential backoff", "ddl/migrate_cmd.go runWithRetry")],
  ["number of begin calls, time slept"])
p("C07", "Quoting is exact and can be undone",
  "For every dialect and every text, the quoted form of an identifier and the escaped form of a string literal are read back by that dialect's lexer as exactly the original text and as a single token, so no content can end the token early. A name is left without quotes only when it is a plain lowercase word or one of the pseudo-table names EXCLUDED, INSERTED, DELETED, NEW and OLD. String literals are read with the standard rule that a quote is written twice.",
  ["inputs"],
  "all strings, including ones containing quotes, doubled quotes, brackets and backquotes; all four dialects",
  "Tests quote a few ordinary names; the claim is over all strings.",
  ["ddl/sq.go"],
  [("doubling the closing quote", "ddl/sq.go EscapeQuote, QuoteIdentifier")],
  ["text of the generated SQL"])
p("C08", "Every object name in generated SQL is quoted or escaped",
  "In every statement generated from a catalog (migrations, dumps, wipes, batch inserts, history updates), each schema, table, column, constraint, index, routine and file name is placed inside quotes appropriate to its dialect or passed as a bound parameter. No name is ever spliced in raw where it could change the structure of the statement.",
  ["inputs", "programs"],
  "every catalog and every name in it, each dialect, each generator",
  "Tests use names that need no quoting, so a raw name goes unnoticed.",
  ["ddl/sqlite_migration.go", "ddl/postgres_migration.go", "ddl/mysql_migration.go", "ddl/sqlserver_migration.go", "ddl/dump_cmd.go", "ddl/wipe_cmd.go", "ddl/batch_insert.go", "ddl/migrate_cmd.go"],
  [("QuoteIdentifier / EscapeQuote at every splice point", "all SQL generators")],
  ["text of the generated SQL"])
p("C09", "No data is dropped unless dropping was requested",
  "Without the drop-objects option, generated migrations never drop a table or a column, and never drop an index or constraint that is not re-created (or replaced by the desired definition of the same object) in the same migration.",
  ["inputs", "configurations"],
  "every pair of current and desired catalogs, each dialect",
  "Golden tests cover a few catalog pairs, mostly with dropping enabled.",
  ["ddl/sqlite_migration.go", "ddl/postgres_migration.go", "ddl/mysql_migration.go", "ddl/sqlserver_migration.go", "ddl/generate_cmd.go", "ddl/automigrate_cmd.go"],
  [("dropObjects guard at each place an object is scheduled for dropping", "new*Migration constructors")],
  ["DROP statements in the generated files"])
p("C10", "The computed difference is complete and minimal",
  "For every object that the desired catalog has and the current one lacks the generated migration creates it, and with drop-objects every object the current catalog has and the desired one lacks is dropped; objects marked as ignored are left alone. Two identical catalogs produce no migration at all.",
  ["inputs"],
  "every pair of catalogs, each dialect",
  "Golden tests fix a few pairs; completeness quantifies over all pairs and object kinds.",
  ["ddl/sqlite_migration.go", "ddl/postgres_migration.go", "ddl/mysql_migration.go", "ddl/sqlserver_migration.go"],
  [("matching by schema/table/column/index/constraint name through the catalog cache", "new*Migration constructors"), ("rendering of the collected work lists", "(*xMigration).sql")],
  ["generated migration files"])
p("C11", "Catalog lookups agree with the catalog",
  "Looking up a schema, table, column, index, constraint, view, routine or other object by name returns the live object of that name in the catalog if and only if one exists. Get-or-create and add-or-update never produce a second object with an existing name, never lose or move an existing object, and change only the object they name.",
  ["histories", "inputs"],
  "every sequence of get, get-or-create and add-or-update operations on every catalog and every object kind",
  "Tests build catalogs in one fixed order; slices are re-allocated as they grow, so index/pointer confusion appears only for some histories.",
  ["ddl/catalog_cache.go"],
  [("position maps next to append-only slices", "ddl/catalog_cache.go CatalogCache")],
  ["exported cache methods and the catalog's slices"],
  [{"name": "position maps", "meaning": "name to slice index for every object kind", "where": "ddl/catalog_cache.go CatalogCache fields"}])
p("C12", "Copying a catalog is complete and independent",
  "Copying a catalog into another carries over every object with every property it has (schemas, tables, columns, constraints, indexes, triggers, views, routines, enums, domains, extensions). Afterwards the copy shares no list with the original, so changing one never changes the other.",
  ["inputs", "histories"],
  "every catalog, every object and every attribute of it",
  "Tests never copy a catalog containing every attribute nor mutate the copy.",
  ["ddl/catalog_cache.go", "ddl/ddl.go"],
  [("field-by-field copy through the cache", "ddl/catalog_cache.go (*Catalog).WriteCatalog")],
  ["resulting catalog value"])
p("C13", "Batch insert sends every row once, in order, within limits",
  "A batch insert sends each row supplied by its source exactly once and in order, split into statements each of whose number of bound parameters equals its number of placeholders, is a whole number of rows, and stays within the configured batch size and, whenever a single row does, within the dialect's parameter limit. Numbered placeholders are numbered 1, 2, 3, and so on. It never crashes, whatever the batch size, column list or key columns.",
  ["inputs", "configurations", "fault_sequences"],
  "every number of rows, columns and key columns, every batch size, each dialect, every failure position",
  "Tests insert a few rows with default settings.",
  ["ddl/batch_insert.go"],
  [("maxBatchsize computation and row accumulation loop", "ddl/batch_insert.go BatchInsert.ExecContext")],
  ["statements and argument lists received by the database"])
p("C14", "Parsing user text never crashes",
  "Whatever text the user supplies - struct tags, modifiers, column types, defaults, subset queries, database URLs, query templates with parameters, migration file names - the parsing operation returns a result or an error; it never panics or reads outside the text.",
  ["inputs"],
  "all strings",
  "Tests use a fixed list of well-formed inputs; the crashing inputs are malformed ones.",
  ["ddl/modifier.go", "ddl/ddl.go", "ddl/sq.go", "ddl/subsetter.go", "ddl/struct_parser.go", "ddl/touch_cmd.go", "internal/pqarray/pqarray.go"],
  [("explicit bounds checks before each index or slice expression", "parsing helpers in ddl/*.go")],
  ["panic or normal return"])
p("C15", "Version comparison is a total order on version numbers",
  "Comparing two database version numbers gives the numeric, component-by-component order with missing components read as zero: exactly one of 'lower' and 'greater or equal' holds, equal versions are never lower than each other, and lower-than is transitive. An unknown version (no components) counts as newer than any version it is compared with.",
  ["inputs"],
  "all version numbers of any length",
  "Tests compare a handful of versions.",
  ["ddl/ddl.go"],
  [("LowerThan / GreaterOrEqualTo", "ddl/ddl.go VersionNums")],
  ["boolean results"])
p("C16", "Generated names are bounded, deterministic and typed",
  "The generated default name of an index or constraint is never longer than the identifier limit of 63 bytes, depends only on the table, the columns and the kind, and always ends in the suffix of its kind.",
  ["inputs"],
  "all table names and column lists, all kinds",
  "Tests check a few short and one long name.",
  ["ddl/ddl.go"],
  [("truncation before the suffix is added", "ddl/ddl.go GenerateName")],
  ["returned name"])
p("C17", "Migration file selection keeps exactly the migration scripts, in order",
  "From a list of files, selection keeps exactly the migration scripts (never undo scripts, dump files or files of other kinds) in the given order and each only once, with all repeatable scripts after all versioned ones. A file name given with the migration directory in front, or relative to the current directory, becomes the name inside that directory; only a whole leading directory is removed from it, never a part of the name.",
  ["inputs"],
  "every list of file names in every order, every spelling of a directory",
  "Tests use one directory with a few files.",
  ["ddl/touch_cmd.go", "ddl/migrate_cmd.go", "ddl/ls_cmd.go"],
  [("sortAndFilterFilenames, normalizeFilename", "ddl/touch_cmd.go")],
  ["list of files run or listed"])
p("C18", "Loading restores session settings exactly once and in order",
  "A load turns off constraint checking only on its own connection and restores the previous setting exactly once on every path, successful or not, after all data is loaded. Schema files are run before data files, which precede index and constraint files.",
  ["fault_sequences", "inputs"],
  "every list of files and every failure position",
  "Tests load successfully on SQLite only.",
  ["ddl/load_cmd.go", "ddl/migrate_cmd.go"],
  [("setSessionValue returning a restore function that is deferred", "ddl/load_cmd.go, ddl/migrate_cmd.go")],
  ["statements received by the database"])
p("C19", "Generated files have unique, ordered names matching their contents",
  "A generated migration yields as many names as contents, each content non-empty, all names distinct and starting with the requested prefix, and the order of names is the order in which the contents must run: foreign keys are dropped before and added after the table changes they depend on.",
  ["inputs"],
  "every pair of catalogs, each dialect",
  "Golden tests fix a few migrations with few files.",
  ["ddl/sqlite_migration.go", "ddl/postgres_migration.go", "ddl/mysql_migration.go", "ddl/sqlserver_migration.go", "ddl/generate_cmd.go"],
  [("paired appends to the name and content lists", "(*xMigration).sql")],
  ["returned name and content lists, files written"])
p("C20", "Rows, statements, files and connections are always released",
  "Every result set, prepared statement, connection and file that an operation opens is closed by the time the operation returns, on every path including every failure. A command made from arguments owns the database handle it opens: it is closed when the command has run, or at once if the command cannot be made. An operation never closes a handle it was merely lent.",
  ["fault_sequences", "inputs"],
  "every operation, every failure position",
  "Tests neither inject failures nor count open handles.",
  ["ddl/database_introspector.go", "ddl/migrate_cmd.go", "ddl/load_cmd.go", "ddl/dump_cmd.go", "ddl/ls_cmd.go", "ddl/subsetter.go", "ddl/wipe_cmd.go", "ddl/generate_cmd.go"],
  [("defer Close after each successful open", "all commands")],
  ["open handles after return"])
p("C21", "Wipe drops every object, once, in dependency order",
  "A wipe asks the database for all of its objects, with no filter other than the kind of constraint, and issues exactly one DROP for each object reported, naming that object, with its schema unless that is the current one: views first, then foreign keys, tables, routines and finally enums, domains and extensions. The extension plpgsql is kept; SQLite has only views and tables, and enums, domains and extensions are Postgres. Nothing else is dropped. The statements are run once as one text, or shown in a dry run, whenever a wipe with anything to drop succeeds.",
  ["inputs"],
  "every catalog, each dialect, dry run or not",
  "Tests wipe one SQLite database.",
  ["ddl/wipe_cmd.go"],
  [("one loop per object kind in a fixed order", "ddl/wipe_cmd.go WipeCmd.Run")],
  ["statements received by the database or written out"])
p("C22", "Modifier text survives parsing and printing",
  "Rendering a parsed list of modifiers as text and parsing it again gives the same modifiers: same names, values, dialects, exclusions and nested modifiers in the same order.",
  ["inputs"],
  "all well-formed modifier texts, arbitrarily nested",
  "Tests parse a fixed list of tags and never print them back.",
  ["ddl/modifier.go"],
  [("NewModifiers / String / writeBuf", "ddl/modifier.go")],
  ["parsed modifier values"])
p("C23", "Dumped data loads back unchanged",
  "Every row of every dumped table appears exactly once in the dump with every column value represented so that loading it restores an equal value; null, empty text and empty binary stay distinguishable.",
  ["inputs"],
  "all column types and values, each dialect",
  "Tests dump one sample database.",
  ["ddl/dump_cmd.go", "ddl/load_cmd.go"],
  [("CSV encoding of column values and the matching decoder", "ddl/dump_cmd.go dumpCSV, ddl/load_cmd.go loadCSV")],
  ["dump files, rows loaded"])
p("C24", "A subset dump is closed under foreign keys",
  "A subset of the data contains, for every row it includes, every row that it references through a foreign key, and no row outside the requested closure.",
  ["inputs"],
  "all schemas (including reference cycles) and subset queries",
  "Tests use one schema.",
  ["ddl/subsetter.go"],
  [("recursive expansion along foreign keys", "ddl/subsetter.go")],
  ["rows in the dump"])
p("C25", "Structs and catalog describe the same schema",
  "Generating struct definitions from a catalog and parsing them back yields a catalog equal in tables, columns, types, constraints and indexes.",
  ["inputs"],
  "all catalogs",
  "Golden tests cover one sample schema per dialect.",
  ["ddl/table_structs.go", "ddl/struct_parser.go"],
  [("writing and reading of tags", "ddl/table_structs.go, ddl/struct_parser.go")],
  ["parsed catalog"])
p("C26", "Postgres array text converts losslessly",
  "Encoding a list of values as Postgres array text and decoding it gives the same list, including elements with quotes, backslashes, commas, braces, empty and null elements.",
  ["inputs"],
  "all lists of strings, bytes, booleans and numbers",
  "Tests cover fixed examples.",
  ["internal/pqarray/pqarray.go"],
  [("element quoting and the array parser", "internal/pqarray/pqarray.go")],
  ["decoded values"])

ids = [d["id"] for d in P]
assert len(set(ids)) == len(ids)
for d in P:
    assert len(d["title"]) <= 80, d["id"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
