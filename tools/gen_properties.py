#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Placeholders and returned args correspond one to one",
  "Every well-formed fragment tree builds, and the placeholders in the built query and the returned args correspond exactly: with question style the n-th placeholder in text order belongs to the n-th arg and the counts are equal; with dollar style every placeholder names an existing arg, every arg is named by some placeholder, and equal args (same dynamic type and equal under ==) appear once. The arg bound at a place is always the value that the referencing fragment supplied for that reference, for every kind of Go value (including byte slices and other values that cannot be map keys) and for any number of args.",
  ["inputs","configurations"], "all fragment trees (raw texts, args, nested fragments, custom builders), both placeholder styles, all arg value types, any sequence of builds sharing one build context",
  "Tests build about 20 hand-written trees with small ints; the correspondence must hold for every tree shape, list length, arg type and re-reference.",
  ["context_args.go","build.go","properties.go","func_builtin.go"],
  [("CommitArg appends or deduplicates an arg and returns its placeholder","context_args.go"),("left-to-right evaluation of the parsed clause","build.go buildClause"),("a #join pass that runs past the end is rolled back","func_builtin.go funcJoin")],
  [("args","args collected so far by the root context","context_args.go")], ["(*Fragment).BuildQuery","(*Fragment).BuildFragment + Context.Args"])

p("C02", "Literal SQL text survives a build byte for byte",
  "All text of a raw fragment that is not a reference (?, $n, #name...) appears in the built query unchanged, in order and complete, except that leading and trailing white space of a fragment's body is trimmed. Text inside '...', \"...\" or `...` (with '' as an escaped quote) is never interpreted, the doubled forms $$ and ?? are literal text, and multi-byte, control, NUL and invalid UTF-8 bytes are preserved. Prefix, suffix and join separators are reproduced the same way and never interpreted.",
  ["inputs"], "all raw strings, prefixes, suffixes and separators over arbitrary bytes",
  "The scanner tests pin 7 short ASCII strings; losing or altering a byte on some other string silently changes the SQL that runs.",
  ["syntax/scanner.go","syntax/lexer.go","syntax/parser.go","build.go"],
  [("scanPlain / scanQuotedPlain delimit plain text","syntax/scanner.go"),("rune decoding and offsets","syntax/lexer.go"),("plain expressions are copied to the output","build.go buildClause")],
  [], ["(*Fragment).BuildQuery","syntax.Parse"])

p("C03", "Fragments compose by substituting local references only",
  "A fragment's built text is its raw text with each reference replaced by the build of the arg or fragment at that index of the same fragment, however deeply it is nested and however often it is referenced; nothing outside that fragment changes what its references mean. ? references take the fragment's args in order of appearance, $n, #argN, #fN and #fragmentN (and the call forms with parentheses) take the N-th. Prefix and suffix appear, separated by one space, exactly when the trimmed body is not empty, and a nil fragment builds to nothing.",
  ["inputs"], "all fragment trees, nesting depths, shared sub-fragments, indexes and reference forms",
  "Tests cover a handful of two- and three-level trees; substitution has to hold for every combination of depth, sharing, index and emptiness.",
  ["build.go","context_fragment.go","properties.go","func_builtin.go","fragment.go"],
  [("each BuildFragment pushes its own fragment context","build.go BuildFragment, context_fragment.go"),("index lookup","properties.go Build"),("prefix/suffix only when the body is not empty","build.go BuildFragment")],
  [], ["(*Fragment).BuildQuery","(*Fragment).BuildFragment"])

p("C04", "#join expands its template exactly over its range",
  "#join(template, separator[, from[, to]]) yields the template once for each index from 'from' (default 1) to 'to' (default: the last index valid for all functions of the template), in ascending order, with every function value in the template called with that index and everything else in the template built as usual. Empty results are skipped and the separator stands exactly between the results kept. An index outside the valid range (of the list, or of the number type that a custom function takes) is an error when it was asked for explicitly and otherwise just ends the list, and the pass that discovered the end leaves no trace in the query, in the args, or in which items count as used.",
  ["inputs"], "all templates (mixing #f, #arg, fixed references, bind vars, custom functions), separators, ranges and list lengths",
  "Five tests use short lists and aligned lengths; unequal lists, fixed references in templates, empty items, bounds and errors inside items are untested.",
  ["func_builtin.go","func.go","context_args.go"],
  [("iteration until an invalid index","func_builtin.go funcJoin"),("function compatibility test","func.go joinCompatibility")],
  [], ["(*Fragment).BuildQuery"])

p("C05", "Bad or unused references are errors, never silent loss",
  "A build fails with an error, an empty query and nil args whenever any fragment reached by the build has an out-of-range reference, an arg or sub-fragment that is never used, a call of an undefined or wrongly called function, mixed ? and $n placeholders, a function value outside a #join template, or malformed syntax, at any nesting depth and also inside #join; the fault is never swallowed, and no condition, column or list item disappears from the query because of it. A build without such a fault does not fail.",
  ["inputs"], "all fragment trees with at least one fault at any position, and all trees without",
  "Only one negative test exists (mixed styles in one order); each kind of fault must be reported from every position, in particular from inside #join, which uses an error to find the end of its list.",
  ["build.go","context_fragment.go","properties.go","func_builtin.go","func_exec.go","syntax/parser.go"],
  [("usage check after each fragment","context_fragment.go checkUsage"),("index errors","properties.go Build, build.go buildClause"),("mixed style check","syntax/parser.go bindVarExpr")],
  [], ["(*Fragment).BuildQuery"])

p("C06", "No input makes parsing or building panic or hang",
  "For every raw text, argument list, argument value, interpolation query and supported builder call sequence, parsing, building and interpolating return, with a result or an error, in time that stays small for inputs of any practical size; they never panic, exhaust the stack or loop forever. A panic inside a custom function surfaces as the build's error.",
  ["inputs"], "all byte strings up to the explored length as raw text, #join template and interpolation query; all arg value types; all builder call sequences",
  "Tests feed only well-formed or mildly malformed input; absence of panics and termination are claims about all inputs.",
  ["syntax/lexer.go","syntax/scanner.go","syntax/parser.go","func_exec.go","context_args.go","util/interpolate.go","sqlb/query_builder_dependecy.go"],
  [("state-function scanner always advances or stops","syntax/scanner.go"),("safeCall recovers panics of functions","func_exec.go"),("bounds checks before indexing","build.go, properties.go, util/interpolate.go")],
  [], ["syntax.Parse","(*Fragment).BuildQuery","util.Interpolate","(*sqlb.QueryBuilder).BuildQuery"])

p("C07", "Building is repeatable and changes nothing it was given",
  "Building a fragment or query builder any number of times, in any mix of placeholder styles and also after failed builds, gives the same result as the first build of an identical fresh object, and leaves every fragment, column, arg slice and fragment slice that the caller supplied unchanged. Using a fragment in one place (as join condition, where condition, sub-fragment) does not change what it builds to elsewhere, and appending to one fragment never alters another that was created by a constructor or With method from the same slice.",
  ["histories","inputs"], "all histories of construction, append, build (either style, failing or not) and reuse steps over shared objects",
  "One example builds the same query builder twice; no test compares caller-owned objects before and after or reuses one object in several places.",
  ["build.go","fragment.go","shortcut.go","context_fragment.go","sqlb/query_builder_build.go","sqlb/query_builder_join.go","sqlb/query_builder_order.go"],
  [("per-build context holds all mutable build state","context.go, context_fragment.go"),("order columns are computed per build","sqlb/query_builder_order.go")],
  [], ["BuildQuery results over repeated builds","exported fields of fragments before and after"])

p("C08", "Concurrent builds of shared objects are race free",
  "Any number of goroutines may at the same time build the same fragments, columns and query builders (each build with its own context), parse, interpolate and flatten args, without data races; each obtains exactly the result a lone build gives.",
  ["schedules","inputs"], "all interleavings of concurrent builds over shared, no longer modified objects and package state",
  "Tests never build one object from two goroutines and are not run under the race detector.",
  ["build.go","context.go","func.go","sqlb/query_builder_build.go","sqlb/query_builder_order.go","syntax/parser.go"],
  [("all build state lives in the context created per build","context.go"),("package-level tables are read-only","func_builtin.go, sqlb/query_builder_order.go")],
  [], ["Go race detector reports","results of concurrent builds"])

p("C09", "Both placeholder styles denote the same statement",
  "Building the same fragment or query builder with dollar and with question style yields the same statement: replacing every placeholder by the value bound to it gives identical text. Whether the raw texts use ? or $n for their own references makes no difference to the result.",
  ["inputs","configurations"], "all fragments and query builders, both output styles, both input styles",
  "One example builds one query in both styles; a misordered positional arg shows up only when args occur in clauses that are built out of text order.",
  ["context_args.go","build.go","sqlb/query_builder_build.go"],
  [("positional args committed in text order","sqlb/query_builder_build.go buildInternal, build.go buildClause"),("deduplicated numbered args","context_args.go")],
  [], ["BuildQuery(Dollar) vs BuildQuery(Question)"])

p("C10", "Custom functions are checked and called with exact arguments",
  "Registering functions succeeds exactly for names of ASCII letters and underscores and for functions that take an optional leading build context, then numbers, strings or bools (possibly variadic), and return nothing, a string, or a string and an error; anything else is rejected with an error. A call in a template passes each written literal with its exact value, converted to the parameter's type, passes the context of the calling fragment, and inserts the returned string unchanged; a wrong number or type of arguments, a number that does not fit the parameter's type (float parameters take the nearest value), a returned error, or a panic makes the build fail.",
  ["inputs","programs"], "all function names and signatures; all literal argument lists",
  "Tests register two functions with one signature each and call them with small integers.",
  ["func.go","func_exec.go","syntax/scanner.go","syntax/parser.go"],
  [("goodName, goodFunc","func.go"),("evalCall, evalArg, safeCall","func_exec.go"),("literal parsing","syntax/parser.go funcExpr")],
  [], ["ContextWithFuncs","arguments recorded by registered functions"])

p("C11", "Contexts scope functions and accumulate args",
  "A function registered on a derived context is visible to every build using that context or one derived from it, overrides a function of the same name of an outer context or a built-in there, and is invisible to the context it was derived from and to siblings. All contexts derived from one root share one arg list: successive builds continue it, so the concatenated queries correspond to the args of the root, which every derived context reports alike. Args and fragments exposed through shared properties and a custom function resolve by index like local ones, and an index outside them ends a #join.",
  ["histories","inputs"], "all trees of derived contexts, registrations with shadowing, and sequences of builds on them",
  "One example derives one context and builds one fragment; shadowing, siblings, depth and interleaved builds are untested.",
  ["context.go","contex_with.go","context_func.go","context_args.go","properties.go"],
  [("lookup walks from the derived context to the root","contex_with.go contextValue, context_func.go fn"),("args live at the root","context_args.go"),],
  [], ["ContextWithFuncs","Context.Args","BuildFragment"])

p("C12", "A query builder renders exactly the clauses requested",
  "For every history of builder calls the built SQL is WITH, SELECT [DISTINCT], FROM with joins, WHERE, GROUP BY, ORDER BY, LIMIT, OFFSET, UNION in this order, each present exactly when requested: Select and From replace, joining an applied name again replaces that join in place, conditions are all ANDed, group columns, orders and unions accumulate in call order, Limit and Offset keep the last positive value. With DISTINCT the i-th order column is added to the select list as _order_i and ordered by that name. No requested column, condition, join, order or union is missing, duplicated or reordered; sub-queries, CTEs, unions and fragments take part as they are when the build happens, whenever they were given to the builder.",
  ["histories","inputs"], "all histories of builder calls and builds, with nested builders as sub-queries, CTEs and unions",
  "Five examples each build one fixed query.",
  ["sqlb/query_builder.go","sqlb/query_builder_build.go","sqlb/query_builder_join.go","sqlb/query_builder_order.go","sqlb/query_builder_where.go","sqlb/table.go","sqlb/table_aliased.go","sqlb/table_column.go"],
  [("clause assembly","sqlb/query_builder_build.go buildInternal"),("join replacement by applied name","sqlb/query_builder_join.go join")],
  [("tables","FROM table and joins in order","sqlb/query_builder.go")], ["(*sqlb.QueryBuilder).BuildQuery"])

p("C13", "Query builder args bind where they were given",
  "In the SQL built by a query builder every placeholder is bound to the value supplied for exactly that spot, whichever clause it is in (CTE, select list, join condition, WHERE, GROUP BY, ORDER BY, union member, nested sub-query) and in both placeholder styles; the number of positional args equals the number of placeholders, and no arg of an omitted clause is returned.",
  ["inputs","configurations","histories"], "all query builders with args in any combination of clauses, both styles",
  "Examples bind args only in CTE, WHERE and UNION, whose build order happens to equal their text order.",
  ["sqlb/query_builder_build.go","sqlb/query_builder_order.go","context_args.go"],
  [("clauses are built in text order","sqlb/query_builder_build.go buildInternal")],
  [], ["(*sqlb.QueryBuilder).BuildQuery"])

p("C14", "Join elimination drops only unreferenced optional joins",
  "With DISTINCT an optional left join is omitted exactly when nothing that is built refers to its table: not the select list, conditions, grouping or ordering, and not, transitively, the ON clause of a join that is kept. Without DISTINCT, and for joins not declared optional, nothing is ever omitted, so no table that the built query references through column or table values is missing from its FROM clause.",
  ["inputs","histories"], "all join graphs (optional and not, chains, diamonds, cycles) and all sets of references",
  "Two tests have one or two optional joins referenced directly or not at all; transitive and cyclic references are untested.",
  ["sqlb/query_builder_dependecy.go","sqlb/query_builder_build.go"],
  [("collectDependencies / extractTables","sqlb/query_builder_dependecy.go"),("skip in buildFrom","sqlb/query_builder_build.go")],
  [("deps","tables that must be kept","sqlb/query_builder_dependecy.go")], ["FROM clause of the built SQL"])

p("C15", "A CTE is included exactly when a kept table needs it",
  "The WITH clause lists, in declaration order and once each, exactly the CTEs that are the FROM table or a kept join (with or without an alias) or that such a CTE needs through its declared dependencies, transitively; cycles in the declared dependencies do no harm. All other CTEs, and CTEs that build to nothing, leave no text and no args.",
  ["inputs","histories"], "all sets of CTEs, dependency graphs, FROM/JOIN uses with and without aliases, optional joins",
  "One test has one used and one unused CTE and no test declares a dependency.",
  ["sqlb/query_builder_dependecy.go","sqlb/query_builder_build.go","sqlb/query_builder_with.go"],
  [("collectDepsFromCTE","sqlb/query_builder_dependecy.go"),("buildCTEs","sqlb/query_builder_build.go")],
  [], ["WITH clause of the built SQL"])

p("C16", "Builder misuse is reported on every build",
  "If a query builder has an empty table name, no FROM table, no selected column, an order outside the defined ones, a join that reuses the FROM table's applied name (or a FROM that reuses a join's), or a reference in its select list, conditions, grouping or ordering (or, transitively, in the join clauses these need) to a table that is neither the FROM table nor joined, then every build of it fails with an error and no SQL. A builder without such misuse and whose fragments are well formed builds without error.",
  ["histories","inputs"], "all histories of builder calls with at least one misuse at any point, and all without; first and repeated builds",
  "No negative test of the query builder exists.",
  ["sqlb/query_builder_errors.go","sqlb/query_builder_join.go","sqlb/query_builder_order.go","sqlb/query_builder_dependecy.go","sqlb/query_builder_build.go"],
  [("collected errors fail the build","sqlb/query_builder_errors.go"),("undefined table check","sqlb/query_builder_dependecy.go")],
  [], ["(*sqlb.QueryBuilder).BuildQuery"])

p("C17", "Interpolation shows the statement with its true arg values",
  "Interpolating a query replaces each placeholder, and nothing else, by an SQL literal that reads back as the arg's value wherever it stands (a negative number behind a minus sign does not start a comment, and a value next to a word, a number or a quoted text stays a literal of its own): NULL, TRUE/FALSE, a number equal to the arg, a quoted string with quotes doubled so that no arg can end its literal, a quoted time in the requested format, the quoted text of a Stringer, or the literal of what a driver Valuer returns. A placeholder without an arg, an unsupported value or a failing Valuer is an error, and interpolating never panics. Turning on debug mode logs the built query that way and never changes the result of a build.",
  ["inputs"], "all queries and arg values of the supported kinds, both placeholder styles",
  "One example interpolates a string and a time.",
  ["util/interpolate.go","sqlb/query_builder_build.go"],
  [("encodeValue, quoteStringValue","util/interpolate.go"),("debug logging after the build","sqlb/query_builder_build.go")],
  [], ["util.Interpolate"])

p("C18", "Scan and Count return all rows or an error",
  "Scan returns one value per row of the result, in row order, with the extra trailing columns dropped, or an error if querying, iterating or converting fails at any point; it never returns a shortened result as success. Count returns the number the database reports for the counted query. The row set is always released, the exact query and args of the builder are sent to the database once, and nothing is sent when building fails; the caller's destination slice is not modified.",
  ["fault_sequences","inputs"], "all row sets, column counts and value types, and faults at every step of the query and iteration",
  "The repository's tests of these functions are skipped without a database; nothing is executed.",
  ["util/scan.go"],
  [("rows.Next loop, rows.Err, deferred Close","util/scan.go Scan"),("black hole destinations for extra columns","util/scan.go ScanRow")],
  [], ["a recording database/sql driver with injected faults"])

p("C19", "Flattening args keeps every value, type and order",
  "ArgsFlatted concatenates its inputs in order, replacing each slice, array, or non-nil pointer to one by its elements (one level only), and keeps every other value as it is, with dynamic types and nils preserved and inputs unmodified. WhereIn and WhereNotIn bind exactly the flattened list, in order, between the parentheses.",
  ["inputs"], "all argument lists over all element types, named types, pointers, nils, nested and empty slices",
  "The test table has 8 rows; most of the 25 type-specific branches are never executed.",
  ["util/args.go","sqlb/query_builder_where.go"],
  [("typed fast paths and the reflect path","util/args.go"),("IN list template","sqlb/query_builder_where.go")],
  [], ["util.ArgsFlatted","sqlb WhereIn / WhereNotIn"])

p("C20", "Parsing reports the exact references and their positions",
  "Parsing a raw text returns, in order, its plain text pieces, bind variables (with style and index: n for $n, running count for ?), function calls (name and literal arguments: numbers, unescaped strings, bools, nil) and function values, losing, inventing and merging nothing, or fails for malformed text. Each reference's position is the 1-based line and rune column at which it starts in the text.",
  ["inputs"], "all strings up to the explored length over a representative alphabet and random longer ones",
  "Parser and scanner tests pin 14 short strings; two of the negative ones are never actually checked.",
  ["syntax/parser.go","syntax/scanner.go","syntax/lexer.go","syntax/nodes.go","syntax/pos.go"],
  [("state-function scanner","syntax/scanner.go"),("parser","syntax/parser.go"),("line/column tracking","syntax/lexer.go Next")],
  [], ["syntax.Parse"])

p("C21", "Failures keep their cause",
  "When a build, interpolation, scan or count fails because something of the caller failed (a custom function that returns an error or panics with one, a custom fragment builder, a query builder given to ScanBuilder or CountBuilder, a driver.Valuer, a Scanner, the database while connecting, preparing, querying or reading rows), the returned error wraps that very error: errors.Is and errors.As find it, however deeply the failing component is nested and in whichever clause, template or row it stands. References with an invalid index to #arg, #f, #fragment or Properties are reported as ErrInvalidIndex the same way, and a failure of another cause is not.",
  ["inputs","fault_sequences"], "all fragment trees, query builders and scans with one failing component at any place, all kinds of error values",
  "No test looks at the cause of an error. Callers who tell a cancelled context, a missing row or a failure of their own from others need it at every depth and fault point.",
  ["build.go","func_exec.go","func_builtin.go","errors.go","properties.go","sqlb/query_builder_build.go","util/scan.go","util/interpolate.go"],
  [("nestedError marks errors of nested fragments and unwraps","errors.go"),("errors and panics of functions","func_exec.go safeCall"),("errors of the database","util/scan.go")],
  [], ["errors returned by BuildQuery / BuildFragment","util.Interpolate","util.Scan, util.Count, util.ScanBuilder, util.CountBuilder"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
