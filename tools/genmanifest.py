#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = "contract-based deductive verification (own VC generator over go/ssa, z3/cvc5)"
CLAIMED = {
    "C01": "Every function of ddl and internal/pqarray: an effect that fails makes the function return an error. Contracts of database/sql, io, os and similar dependencies are assumed.",
    "C02": "Every function of ddl and internal/pqarray: transaction automaton as ghost state; a function that opens a transaction ends it, commits it only when nothing in it failed, and sends every statement through it while it is open.",
    "C03": "Every function of ddl: writing effects are ghost state; the commands with a dry run leave it unchanged when dry run is set, every read-only function always.",
    "C04": "MigrateCmd.Run, runWithRetry, run and sortAndFilterFilenames: every file handed over for execution is due and in order, every due file is executed or an error is returned, one call per file and attempt. The text of a file is a function of its name during a run; the order of the columns read from the history table is assumed.",
    "C05": "MigrateCmd.Run, runWithRetry, run and undo: every row produced for the history table, checked where the row is filled in, against ghost state that records through which handle each script was executed.",
    "C06": "MigrateCmd.runWithRetry and the functions it depends on: retry condition, attempt count, delay range, machine overflow and crash freedom of the delay computation.",
    "C07": "EscapeQuote, QuoteIdentifier and Sprint for texts: exact result for every text; the lemma that a lexer reads exactly the original text back is proved in Lean on every run (contracts/C07.lean).",
    "C09": "The four migration constructors and writers, GenerateCmd.Results and AutomigrateCmd.Run: without the option the lists of tables, schemas and columns to drop are empty for every pair of catalogs, no more indexes and constraints are scheduled for dropping than for creating, no text with a DROP of data is written, and the option passed on is the user's. Indexes and constraints are counted, not matched by name; SQL Server foreign keys dropped and added again around a column change are not counted. Lookups in the catalog cache are assumed to change nothing and to return anything. Undo scripts may drop what the same migration creates.",
    "C13": "BatchInsert.ExecContext and writeRowValues, for every dialect, batch size, column list and source: ghost counts of the values supplied and sent, every statement obliged to carry the next values in order, as many as it has placeholders, within the parameter limit and batch size; no index, slice or make can crash. Machine integers are taken as mathematical; placeholders are counted fragment by fragment.",
    "C14": "Modifier parsing, column types and defaults, argument lists, query templates, database URLs, file names, timestamps, array texts and the struct parser, function by function: no index, slice, make, type assertion or explicit panic can fail for any text. In the text parsers nil pointers are included; in the struct parser, subset queries and array texts they are not. For subset queries only accesses to texts are obligations. Catalog lookups called by the struct parser are assumed not to crash, the remainder by an array dimension is assumed defined.",
    "C15": "LowerThan and GreaterOrEqualTo for version numbers of any length, against the first differing component.",
    "C16": "GenerateName for all tables, column lists and kinds: length bound, suffix, dependence on the arguments only.",
    "C17": "sortAndFilterFilenames for every list of names (exact position of every selected file), normalizeFilename for every name and directory. filepath.ToSlash, Base and path.Clean are uninterpreted functions.",
    "C20": "Every function of ddl and internal/pqarray: the set of open handles is ghost state and is the same after as before, except in the functions whose contract hands a handle over. Concurrent loads and dumps are verified one goroutine after another.",
    "C21": "WipeCmd.Run for every dialect and catalog: counts of statements per kind, order of the kinds, name and schema of every object in order, no filter on the introspector, statements run or shown once. The introspector is assumed to report the objects its filter lets through; keywords are counted fragment by fragment; the table of a dropped foreign key and the words MATERIALIZED and CASCADE are not checked.",
}
PENDING = "No check registered: contracts for this property are not finished yet."
NA = {
    "C08": "Needs the lexical state of partly written SQL in the contract of every writer, including fragments that the catalog supplies as raw SQL (defaults, check expressions, predicates), whose lexical effect has no contract. The quoting functions themselves are proved in C07.",
    "C10": "Needs the cache invariant of C11 and nested quantifiers over slices of structs in slices of structs; the solvers do not find the instances within the time of a check.",
    "C11": "The invariant relates map contents to elements of slices that append re-allocates, reached through pointers to elements that outlive the re-allocation; such pointers are outside the memory model of the engine, so no sound contract can be stated.",
    "C12": "Rests on the cache operations of C11, whose contracts cannot be stated soundly in the engine's memory model.",
    "C18": "The functions that restore settings are closures kept in variables that differ by branch and run by defer; the engine resolves a call of such a variable only when it has one value.",
    "C19": "Needs the pairing of two growing lists and the order of numbers formatted by fmt.Sprintf as texts, which the contracts cannot express (fmt is assumed, its result is unknown).",
    "C22": "Needs an inductive lemma relating two recursive functions over nested texts; the engine proves contracts of single functions and has no induction over recursive data.",
    "C23": "The way back runs inside the database, its driver and encoding/csv, whose assumed contract would have to be the property itself.",
    "C24": "Which rows are included is decided by the database when it runs the generated queries; a contract would need the semantics of SQL.",
    "C25": "The way back runs through go/parser and go/ast on generated source text, whose assumed contract would have to be the property itself.",
    "C26": "Encoding and decoding are loops over escaped texts; the lemma that one inverts the other needs induction over the text across both functions, which the engine does not have. Crash freedom of the decoder is proved in C14.",
}

ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": "bash check.sh " + p,
            "technique": TECH,
            "level": "proof",
            "level_note": CLAIMED[p],
        }
        for p in ids if p in CLAIMED
    ],
    "not_applicable": [
        {"property": p, "reason": NA.get(p, PENDING)} for p in ids if p not in CLAIMED
    ],
    "notes": "One engine (govc) for all checks; contracts in contracts/, replay harnesses in replay/, known findings in known-findings.txt.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
