#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long strings stay editable)."""
import json, os
API = "ddlparse.go"; LEX = "internal/lexer/lexer.go"; CONV = "internal/converter/converter.go"
VAL = "internal/validator/validator.go"; VS = "internal/validator/validator_sqlite.go"
VP = "internal/validator/validator_postgresql.go"; VM = "internal/validator/validator_mysql.go"
TYP = "internal/types/types.go"; ERR = "internal/common/errors.go"; UT = "internal/common/utils.go"
VALS = [VAL, VS, VP, VM]
T = ("The tests parse a few dozen fixed DDL texts; ")
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mech, where=', '.join(files))])))

p("C01", "Every call returns: no input panics, hangs or exhausts the stack",
  "For every string passed as DDL and every supported dialect, each parsing function returns normally: it neither panics, nor loops forever, nor allocates without bound, nor overflows the stack. This holds for truncated, malformed, deeply nested and very large input just as for valid DDL.",
  ["inputs"], "all strings (any bytes, any length up to memory), the three dialects, all five entry points",
  T + "a crash or endless loop hides in an input nobody wrote down, e.g. one ending in the middle of any construct.",
  [API, LEX, CONV] + VALS, "Every cursor movement in lexer, validator and converter is bounded by the token count; end of input is a sentinel token that no loop may treat as ordinary content.")
p("C02", "Either all tables or one ValidateError, never both, never neither",
  "Every call returns either a nil error together with the complete list of tables, or a ValidateError with a line of at least 1 and a non-empty near text together with no tables at all. In particular one bad statement anywhere in the input means that no table of the input is returned, and input without any statement (empty, only white space or comments) is accepted with zero tables.",
  ["inputs"], "all strings, the three dialects, all five entry points",
  T + "the error path is asserted only for `err != nil` on a few inputs, and never for position, mixed input or ParseForce.",
  [API, ERR] + VALS, "Lex, validate and convert run in sequence and only a fully validated token list is converted; errors are built in one place.")
p("C03", "Results depend only on the arguments: no shared state, races or aliasing",
  "The result of a call is a function of the DDL text and the dialect alone: it is the same on every repetition, whatever was parsed before and whatever other goroutines parse at the same time. Concurrent calls have no data races, and a returned result never changes because of later calls, nor does changing it affect them.",
  ["schedules", "histories", "inputs"], "all interleavings of concurrent calls, all histories of earlier calls, all inputs",
  "The tests call the parser sequentially, once per input, and never keep a result.",
  [API, LEX, VAL, CONV, UT], "Each call builds its own lexer, validator and converter; package level data (type and reserved word lists) is only read.")
p("C04", "One Table per CREATE TABLE, in order, with schema, name and IF NOT EXISTS",
  "For every accepted DDL text the result has exactly one table per CREATE TABLE statement, in statement order, with the schema (empty when absent), table name and if-not-exists flag that the statement wrote, quoted names without their quotes. Every other supported CREATE statement (views, indexes, triggers and functions with BEGIN ... END bodies, ...) is skipped as a whole, whatever its body contains, and DDL of this kind is not rejected.",
  ["inputs"], "all sequences of CREATE TABLE and other CREATE statements of the three dialects",
  T + "few have more than one statement, and bodies of skipped statements are trivial.",
  [VAL, VS, VP, VM, CONV], "The validator drops everything that is not a table from the token list and the converter turns each remaining CREATE TABLE group into one Table.")
p("C05", "Columns correspond one to one, in order, to the column definitions",
  "Each table of a valid DDL text has exactly one column per column definition, in definition order and under the written name (without quotes). No table constraint, index definition, option, comma or comment ever adds, removes, renames or reorders a column.",
  ["inputs"], "all valid CREATE TABLE statements: any mix and order of columns, constraints and index definitions",
  T + "the combinations of dropped definitions, quoted names and options between columns are unbounded.",
  [CONV, VS, VP, VM], "The converter splits the definition list at commas; the validators must remove unsupported definitions without leaving tokens behind.")
p("C06", "Each column's data type and digits are reported as declared",
  "For every column of a valid DDL text the data type name is the declared type in upper case (BIT VARYING is VARBIT, CHARACTER VARYING is VARCHAR, DOUBLE PRECISION is DOUBLE, a time zone clause is dropped) and the two digits are the declared length or precision and scale, 0 where absent. Every supported type of the dialect is accepted with and without the digits it may have.",
  ["inputs"], "all types of the three dialects, all digits representable as a positive int, upper and lower case",
  T + "only some types and digits occur in them.",
  [CONV, VP, VM, VS], "Type lists and digit rules per dialect in the validators, normalisation in the converter.")
p("C07", "Column constraints: flags, constraint name and collation are exact",
  "For every column of a valid DDL text the primary key, unique, not null and autoincrement flags are true exactly when that column's own definition states them, the collation is the one written (else empty), and the constraint name is the first name given by a CONSTRAINT clause in the column's definition (else empty). This holds for every set of column constraints in every order, and nothing leaks from one column, table or option to another.",
  ["inputs"], "all sets and orders of column constraints of the three dialects",
  T + "only a handful of the constraint permutations occur, mostly in one order.",
  [CONV, VS, VP, VM], "Order-independent loop over constraints in the validators, mirrored by the converter, which sees only the tokens the validator kept.")
p("C08", "DEFAULT values keep their kind and exact value",
  "For every column of a valid DDL text the default is: a float64 equal to the number written (integers, decimals, signs, exponents), the exact text between the quotes of a string, a bool for TRUE or FALSE, nil for NULL or when there is no DEFAULT, the keyword as written for CURRENT_TIME, CURRENT_DATE and CURRENT_TIMESTAMP, and the expression text for a bracketed expression. An ON UPDATE clause or a neighbouring constraint never changes it.",
  ["inputs"], "all literals and bracketed expressions, in all dialects, next to all other constraints",
  T + "the literals in them are a few integers, strings and keywords.",
  [CONV, UT, LEX], "Literal classification of the token after DEFAULT in validator and converter; numbers must survive the lexer as one token.")
p("C09", "CHECK and DEFAULT expressions keep every token, in order, with brackets",
  "The text reported for a CHECK (of a column or of the table) or for a bracketed DEFAULT is exactly the written expression from its opening to its matching closing bracket with white space and comments outside quotes removed. No token is lost, added, altered or reordered for any nesting depth, length or content, including commas, semicolons, keywords, brackets in quotes and quoted white space.",
  ["inputs"], "all balanced bracketed token sequences in CHECK and DEFAULT position",
  T + "the expressions in them are short and one or two brackets deep.",
  [VAL, CONV, LEX], "Balanced-bracket scan in the validator and concatenation of the same tokens in the converter.")
p("C10", "Table constraints are reported completely, in order and under their name",
  "For every table of a valid DDL text the primary key, unique, check and foreign key lists contain exactly the table-level constraints of that kind, in the order written, each with its own constraint name (empty if none) and with the column list as written and in order. Index definitions, exclusion constraints and other definitions that the result does not represent add nothing to these lists.",
  ["inputs"], "all lists of table constraints of the three dialects, interleaved with columns in any order",
  T + "most have at most one constraint of a kind.",
  [CONV, VS, VP, VM], "The converter appends one entry per constraint; validators strip key lengths, sort orders, index names and options.")
p("C11", "References name the right table and columns, for columns and foreign keys",
  "For every REFERENCES clause of a valid DDL text, of a column or of a foreign key, the reported reference has the referenced table's own name (without schema and quotes) and exactly the referenced columns in order, none if not given. Referential actions, MATCH and DEFERRABLE clauses are accepted in any supported combination and change nothing, and a column or foreign key never carries another one's reference.",
  ["inputs"], "all REFERENCES clauses of the three dialects in all positions and combinations of actions",
  T + "only a few action clauses and no schema qualified references occur.",
  [CONV, VS, VP, VM], "Reference clause parsing in the validators (actions dropped) and in the converter.")
p("C12", "White space, line breaks and comments outside quotes change nothing",
  "Replacing the space between two tokens by any mix of blanks, tabs, CR, LF and comments of the dialect (-- to end of line, /* ... */, in MySQL also # to end of line), or adding such layout where none is needed, changes neither acceptance nor any part of the result. For rejected input the near text stays the same too, and only the line follows the token.",
  ["inputs"], "all token sequences, all layouts between the tokens, the three dialects",
  T + "layout in them is conventional; adjacent comments, comments at odd places and CRLF do not occur.",
  [LEX, VAL], "The lexer removes comments and blanks and keeps line breaks only as markers that the validator skips.")
p("C13", "Quoted names and strings are opaque and keep their exact content",
  "Whatever stands between the quotes of a quoted name or string (keywords, brackets, commas, semicolons, comment marks, line breaks, other quote characters, doubled quotes, MySQL backslash escapes, any Unicode text) is a single token that never affects the rest of the parse. Names and default strings are reported as exactly the characters between their quotes, and in expressions and column lists the quoted token appears unchanged with its quotes.",
  ["inputs"], "all contents of quoted tokens, in every position and dialect",
  T + "quoted content in them is harmless words.",
  [LEX, CONV], "The lexer reads up to the closing quote of the same kind; names are recognised by their first character and unquoted in the converter.")
p("C14", "Keywords mean the same in upper and lower case",
  "Every keyword of the supported DDL is recognised both in upper and in lower case, independently for each occurrence. Changing the case of keywords between the two changes neither acceptance nor any part of the result, except in text that is reported as written (CURRENT_* defaults, collations, expressions) where only the case of the text follows.",
  ["inputs"], "all assignments of upper or lower case to the keyword occurrences of all DDL texts",
  T + "each of them is written in one case throughout, and not every keyword occurs in both.",
  [VAL, CONV, VS, VP, VM], "Case-insensitive keyword comparison in validator and converter, upper-casing of type names.")
p("C15", "All DDL of the documented grammar is accepted",
  "Every DDL text that follows the grammar documented for a dialect (CREATE TABLE with all column constraints, table constraints and table options in all documented combinations, and the other CREATE statements) is accepted by that dialect without error. Unquoted names that are not reserved words and quoted names are accepted in every name position.",
  ["inputs"], "all sentences of the documented grammar of the three dialects",
  T + "many alternatives of the grammar occur in none of them, and combinations are rare.",
  [VS, VP, VM, VAL], "Hand-written recursive descent validators, one per dialect.")
p("C16", "DDL outside the grammar is rejected",
  "Every text that is not a sentence of the dialect's grammar is rejected with a ValidateError instead of being partly understood: missing, surplus, misplaced or unknown tokens, unknown types or options, digits that are not positive integers, reserved words as unquoted names, a repeated column constraint, unbalanced brackets, unclosed quotes or comments, missing statement ends. No unquoted reserved word of the dialect is accepted as a table, column, constraint or referenced name.",
  ["inputs"], "all token sequences and texts outside the grammar; all reserved words of each dialect in all name positions",
  T + "rejection is tested on a few hand-made inputs; the set of wrong inputs is unbounded.",
  [VS, VP, VM, VAL, LEX, UT], "Every construct checks its next token and reports a syntax error; reserved word lists and name pattern per dialect.")
p("C17", "Errors point at the first offending token and its line",
  "For rejected input the error's near text is the first token at which the input leaves the grammar, exactly as written (or <EOF> at the end of input), and its line is the 1-based line on which that token ends, counting every line break before it, including those in comments and quoted strings. Characters that can never be lexed (a stray end of comment, an ideographic space, a backquote in PostgreSQL, an unclosed quote or comment) are reported first, in the same way, and the message is ValidateError: Syntax error: near '<near>' at line <line>.",
  ["inputs"], "all rejected inputs, all layouts, the three dialects",
  "The tests hardly look at the line or near text of an error.",
  [VAL, LEX, ERR], "Line counters in lexer and validator driven by line break markers; syntax errors are built from the current token.")
p("C18", "Statements compose: parsing a concatenation is concatenating the parses",
  "If two texts that end at a statement boundary are accepted separately, their concatenation is accepted and yields the tables of the first followed by those of the second. If the first is accepted and the second rejected, the concatenation is rejected with the second's near text and its line shifted by the line breaks of the first; an error in the first is reported unchanged whatever statements follow. A statement of a kind that is skipped (view, index, trigger, ...) ends exactly at its own semicolon and changes nothing about the statements around it.",
  ["inputs", "histories"], "all pairs and sequences of DDL texts, in each dialect",
  T + "each statement mix is a fixed sample; interference between statements needs particular pairs.",
  [VAL, CONV, VS, VP, VM], "One loop over statements in validator and converter with no state carried between statements except position and line.")
p("C19", "Entry points agree; ParseForce returns the first dialect that accepts",
  "The dialect specific functions return exactly what the general function returns for that dialect. ParseForce returns exactly the result of the first of SQLite, PostgreSQL and MySQL (in this order) that accepts the text, and if none accepts it, it returns no tables and an error that one of the three reports.",
  ["inputs", "configurations"], "all strings, all entry points",
  T + "ParseForce is run on very few texts and never on one that no dialect accepts.",
  [API], "Thin wrappers around one pipeline; ParseForce tries the dialects in a fixed order.")
p("C20", "Options that the result does not represent leave no trace in it",
  "Adding or removing, anywhere it is allowed, a clause that the result does not represent (table options, conflict clauses, sort orders, key lengths, index parameters and options, index definitions, exclusion constraints, referential actions, generated column and identity clauses, comments on columns, storage attributes, enforcement, TEMP and the like) changes nothing else in the result.",
  ["inputs"], "all valid DDL texts and all subsets of their unrepresented clauses",
  T + "options occur one at a time and the rest of the table is not compared with the table without them.",
  [VS, VP, VM, CONV], "The validators consume such clauses without passing them on to the converter.")
p("C21", "Results have plain value types and survive a JSON round trip",
  "Every returned result can be encoded as JSON, has exactly the documented JSON keys at every level, and decodes back to an equal value. A default is always nil, a bool, a finite float64 or a string, digits are never negative, and every text in it is valid UTF-8 for valid UTF-8 input.",
  ["inputs"], "all accepted inputs of the three dialects",
  T + "none of them encodes a result.",
  [TYP, CONV, UT], "Struct tags of the result types; the converter chooses the dynamic type of the default.")
p("C22", "Dialects stay separate: each accepts exactly its own grammar",
  "A text written for one dialect and parsed as another is accepted exactly when it is also a sentence of the other's grammar, and then means what that grammar says: dialect specific types, keywords, reserved words, quote characters, comment styles, table options and statement ends of one dialect have no effect in another.",
  ["inputs", "configurations"], "all DDL texts of each dialect under each other dialect",
  T + "no text is parsed under a dialect other than its own, except through ParseForce.",
  [LEX, CONV, VS, VP, VM], "Per-dialect validators, quote and comment handling switched on the dialect in lexer and converter.")
p("C23", "Results do not depend on size: no limits, truncation or drift",
  "All of the result is exact at every size: any number of statements, columns, constraints and names in a list, names, strings, comments and expressions of any length, any nesting depth and any number of lines. Nothing is truncated, dropped or miscounted because some count or length is large.",
  ["inputs"], "all sizes that fit in memory, in every dimension",
  T + "all of them are small.",
  [LEX, VAL, CONV], "Token lists and cursors without fixed capacities.")
p("C24", "Cost grows in proportion to the text, never with its square",
  "The memory a call allocates and the CPU time it takes are bounded by a constant times the length of the text, whatever the text consists of and whether it is accepted or not: ten times as many statements, columns, constraints, options, names, tokens, lines or characters in a word, string, comment or expression, or ten times the nesting depth, cost about ten times as much, not a hundred times.",
  ["inputs"], "all texts, valid or not, in every dimension of growth",
  T + "all of them are small, and none measures anything.",
  [LEX, VAL, CONV], "Single pass over characters and tokens; buffers that grow by doubling.")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
