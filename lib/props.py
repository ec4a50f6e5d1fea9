"""Texts of the properties: lib/mkdocs.py turns them into properties.jsonl, MANIFEST.json and the table in DESIGN.md;
check.py copies bounds and outside into the evidence."""
PROPS = {}
def P(id, title, statement, over, qtext, why, files, mechanism, bounds, outside, state=(), observe=(), note=""):
    PROPS[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, bounds=bounds, outside=outside, state=state, observe=observe, note=note)

P("C02", "DELETE removes exactly the rows its condition selects",
  "A DELETE removes every row for which its WHERE condition is true and no other row; without WHERE it removes all rows. The surviving rows keep every value, NULL mark and their order, and the reported affected-row count equals the number of removed rows. A comparison or IN/NOT IN on a NULL column is never true; AND, OR, XOR, parentheses, IS [NOT] NULL and all six comparison operators have their SQL meaning for the full range of each column type.",
  ["inputs", "programs"], "For all contents of the stored rows (every 64-bit integer, every non-NaN double, every short string, NULL or not), all literal values and all condition shapes within the bounds.",
  "Tests delete from a few fixed small integers; they cannot range over every value of every type, every NULL pattern and every operator/operand order together.",
  ["src/engine/executor_delete.c", "src/parser/ast_delete.c", "src/parser/semantic_delete.c", "src/primitive/table.c", "src/primitive/row.c"],
  [("condition evaluation per row", "src/engine/executor_delete.c"), ("row deletion", "src/primitive/row.c: table_delete_row")],
  "Two stored rows (one for VARCHAR with two conditions) with all column contents symbolic (i64, double bit patterns except NaN, strings of up to 2 arbitrary bytes, BOOL, time_t) and all NULL marks symbolic; conditions: one comparison in six operand forms x all operators, IS [NOT] NULL, [NOT] IN with 1-3 values (one may be NULL), two conditions joined by AND/OR/XOR, three conditions with and without parentheses, value-to-value; literals symbolic (dates: six fixed literals). One table of 104+ columns and 6 rows covers several blocks and multi-byte NULL bitmaps.",
  "Longer conditions, more rows, longer strings; NaN; arithmetic and LIKE in WHERE (not part of the grammar for DELETE).",
  observe=["query_execute: n_rows_aff", "stored rows of the table"])
P("C03", "UPDATE changes exactly the selected rows and assigned columns",
  "An UPDATE writes the assigned values into every row for which its WHERE condition is true (all rows without WHERE) and leaves every other row and every unassigned column as it was, values and NULL marks alike. Assigning NULL makes the column NULL, assigning a value to a NULL column clears the mark, and rows are neither added, removed nor reordered. The reported affected-row count equals the number of rows selected.",
  ["inputs", "programs"], "For all contents of the stored rows, all assigned values of every type including NULL, and all condition shapes within the bounds.",
  "Tests update fixed rows with one assignment; the interplay of NULL marks, several assignments, every type and every condition shape is a product they cannot enumerate.",
  ["src/engine/executor_update.c", "src/parser/ast_update.c", "src/parser/semantic_update.c", "src/primitive/row.c"],
  [("condition evaluation per row", "src/engine/executor_update.c"), ("row rewrite", "src/primitive/row.c: table_update_row")],
  "Conditions and contents as for C02, with one INT assignment of any 64-bit value; in addition assignments of 1-3 columns of every type (including NULL) over two rows with symbolic contents and NULL marks.",
  "Longer conditions, more rows, longer strings; NaN; assigned expressions (the grammar takes literals and columns only).",
  observe=["query_execute: n_rows_aff", "stored rows of the table"])
P("C04", "SELECT ... WHERE returns exactly the rows that satisfy the condition",
  "A SELECT over one table returns each row for which the WHERE condition is true exactly once, and no other row, with every selected column's value and NULL mark unchanged; the stored table is not modified. A comparison or IN/NOT IN on a NULL column is never true; AND, OR, XOR, parentheses, IS [NOT] NULL and all six comparison operators have their SQL meaning for the full range of each column type, with bare and with table-qualified column names. When a column list is given, the result has exactly the listed columns.",
  ["inputs", "programs"], "For all contents of the stored rows, all literal values and all condition shapes within the bounds.",
  "Tests select from a few fixed rows; they cannot range over every value of every type, every NULL pattern and every operator/operand order together.",
  ["src/engine/executor_select.c", "src/engine/optimiser_select.c", "src/parser/ast_select.c", "src/parser/semantic_select.c"],
  [("early materialisation and filtering", "src/engine/executor_select.c"), ("condition evaluation", "src/engine/executor_select.c")],
  "As for C02, each with bare and with qualified column names, SELECT * into a result table; column lists by separate jobs.",
  "ORDER BY, LIMIT, HAVING, DISTINCT and LIKE are accepted and ignored by the code (recorded in DESIGN.md); longer conditions, more rows; column order of the result (looked up by name).",
  observe=["query_output results table", "query_column_int64 / query_cur_step"])
P("C13", "Row storage behaves as a list of rows under any history of operations",
  "After any sequence of row insertions, deletions, updates and vacuums the table holds exactly the rows a list would hold, in insertion order, with every value and NULL mark as last written, across block boundaries. Vacuum changes no row and releases the space of deleted rows. Freeing the table releases all memory it owned.",
  ["histories", "inputs"], "For all row contents, all choices of affected rows and all operation sequences within the bounds.",
  "Tests run fixed sequences with fixed contents; block boundaries, every subset of deleted rows and every order of operations are not reachable by samples.",
  ["src/primitive/row.c", "src/primitive/table.c", "src/primitive/datablock.c", "src/primitive/vacuum.c"],
  [("slot allocation", "src/primitive/row.c: table_insert_row"), ("compaction", "src/primitive/vacuum.c")],
  "Rows of 2, 100, 101 or 125 columns (up to four per block), 0-9 rows stored first, with contents and NULL marks symbolic; either an arbitrary subset of the rows deleted followed by vacuum and one operation, or every sequence of 3-4 operations (insert, delete, update, vacuum) with arbitrary rows.",
  "Longer histories; more than three blocks.",
  observe=["stored rows", "heap objects after table_destroy"])
P("C14", "Adding and removing columns preserves every other column of every row",
  "Adding a column keeps all existing values and NULL marks of all rows and gives the new column a well-defined initial value in each; removing a column keeps the values and NULL marks of all remaining columns of all rows. Requests that must be refused (unknown column, too many columns, invalid name, duplicate) are refused and leave the table as it was. Later row operations and freeing the table work as before.",
  ["histories", "inputs"], "For all row contents, all columns chosen and all sequences of column and row operations within the bounds.",
  "Tests add and remove one column of fixed rows; row layout changes interact with NULL bitmaps and block boundaries in ways that need every position and every mark.",
  ["src/primitive/column.c", "src/primitive/table.c", "src/primitive/row.c"],
  [("row rewrite on layout change", "src/primitive/column.c"), ("limits", "include/primitive/table.h")],
  "Tables of 2-100 columns (and exactly 128 for the limit), 0-5 rows of symbolic content; sequences of 2-3 operations out of insert, delete, update, vacuum, add INT column, add VARCHAR column, remove any column, refused request.",
  "Longer sequences; growing beyond the page size.",
  observe=["table columns", "stored rows"])
P("C19", "The B-tree is an ordered map for every key set and operation order",
  "For any sequence of insertions and removals, a lookup finds exactly the keys that are stored, with the value last stored for the key, and no other key; an in-order walk of the nodes visits every stored key once, in ascending order. All leaves stay at the same depth and every node but the root keeps between degree-1 and 2*degree-1 keys. Emptying or destroying the tree releases all its memory.",
  ["histories", "inputs"], "For all key values, all orders of insertion and removal and all shapes of the tree within the bounds.",
  "Split, borrow and merge cases depend on where in which shape a key falls; tests walk a handful of sequences.",
  ["src/datastructure/btree.c", "include/datastructure/btree.h"],
  [("split on insert", "src/datastructure/btree.c"), ("borrow and merge on removal", "src/datastructure/btree.c")],
  "Minimum degree 2-4; trees of 3, 9, 11, 14, 20, 22 and 30 keys built in ascending, descending and mixed order, then 1-2 removals (2 for up to 11 keys, thorough: 14) followed by lookups, an update or an insertion with fully symbolic 64-bit keys; 3 (thorough: 4) keys all symbolic; complete drains of 6 keys; string keys.",
  "Larger trees and degrees; longer sequences of symbolic operations.",
  observe=["btree_lookup, node structure", "heap objects after btree_destroy"])
P("C20", "The hash table is a map for every key set, collision pattern and history",
  "For any sequence of puts, gets and removals, a lookup finds exactly the entries that are stored, with the stored value, and no other, whatever the hash values collide on; iteration visits each entry exactly once and the count is exact. Growing the table keeps all entries. Freeing it releases all memory.",
  ["histories", "inputs"], "For all keys, all collision patterns and all operation sequences within the bounds.",
  "Collision and rehash behaviour depends on the keys' hashes; tests use a few fixed keys.",
  ["src/datastructure/hashtable.c", "include/datastructure/hashtable.h"],
  [("chaining", "src/datastructure/hashtable.c"), ("rehash", "src/datastructure/hashtable.c")],
  "0-63 stored keys (so that the table grows once or twice), then 1-2 operations with fully symbolic 3-byte keys, under the real string hash, a constant hash and a 2-bit hash.",
  "Longer keys and histories.", observe=["hashtable_get / put / remove / foreach"])
P("C21", "Vector, queue, stack and linked list keep every element in order",
  "A vector returns every pushed element at its index, a queue hands elements out first-in first-out, a stack last-in first-out, and a list is traversed in link order, for any sequence of operations and across growth and shrinking. Operations on an empty container are answered without touching memory outside it. Freeing a container releases all its memory.",
  ["histories", "inputs"], "For all element contents and all operation sequences within the bounds.",
  "Growth points, wrap-around and emptiness depend on the sequence of operations; tests walk a few.",
  ["src/datastructure/vector.c", "src/datastructure/queue.c", "src/datastructure/stack.c", "src/datastructure/linkedlist.c"],
  [("growth and shrinking", "src/datastructure/vector.c"), ("fifo and lifo order", "src/datastructure/queue.c, stack.c")],
  "All sequences of 3-6 operations with symbolic element contents and lengths, from empty and from 9 stored elements.", "Longer sequences.", observe=["container API"])
P("C23", "Bit fields: an operation touches exactly its bit",
  "Setting, clearing, toggling or testing a bit of a bit field affects or reports exactly that bit and leaves every other bit of the field, and the bytes around it, as they were.",
  ["inputs"], "For all field contents and all bit numbers within the bounds.", "A test samples a few bits; NULL bitmaps rely on every bit of every byte.",
  ["src/lib/bit.c", "include/lib/bit.h"], [("bit arithmetic", "src/lib/bit.c")], "Fields of 1, 2, 8 and 16 bytes with all contents and all bit numbers symbolic.", "Longer fields.", observe=["bit_set, bit_clear, bit_toggle, bit_test"])
P("C24", "Table and column names are accepted exactly when they are valid",
  "A table or column name is accepted exactly when it is 1 to 127 characters long, starts with an ASCII letter and goes on with letters, digits and underscores. A refused name leaves nothing behind, and an accepted one is stored unchanged.",
  ["inputs"], "For all strings within the bounds.", "Tests try a few names; boundaries of length and character classes need every byte value.",
  ["src/primitive/table.c", "src/primitive/column.c"], [("name validation", "src/primitive/table.c, column.c")],
  "All strings of up to 4 arbitrary bytes; strings of 16, 126, 127, 128 and 255 bytes with one arbitrary byte at an arbitrary position.", "Strings with several unusual bytes beyond length 4.", observe=["table_init, table_add_column"])
P("C01", "INSERT stores exactly the given rows and SELECT returns them unchanged",
  "After a successful INSERT the table holds its previous rows followed by exactly the inserted ones, each column holding the value given for it (or NULL when NULL was given or the column was not listed), whatever the order of the column list, the number of rows in the statement, the column types and the number of columns. The affected-row count is the number of rows given. SELECT * and the result cursor return the same rows, values and NULL marks in insertion order, also after rows were deleted in between and across block boundaries.",
  ["inputs", "programs"], "For all inserted values of every type, all NULL patterns, column orders and statement shapes within the bounds.",
  "Tests insert a few fixed rows; round trips must hold for every value, every NULL pattern, every column order and every row layout.",
  ["src/engine/executor_insert.c", "src/parser/ast_insert.c", "src/parser/semantic_insert.c", "src/engine/executor_select.c", "src/primitive/row.c"],
  [("row building", "src/engine/executor_insert.c"), ("row storage", "src/primitive/row.c: table_insert_row")],
  "All six column types, 1-2 rows with every NULL pattern and every value (i64, all doubles but NaN, strings of up to 3 arbitrary bytes; dates and booleans from fixed literals); column lists of any 1-6 columns in rotated and reversed order with 1-2 rows; 3 statements of 1-4 rows; tables of 60-125 columns over several blocks with deletions in between.",
  "Longer strings and more rows; literals of dates beyond the six used (see C25).", observe=["stored rows", "query_output results table", "query_cur_step / query_column_*"])
P("C07", "INNER JOIN returns every matching combination of rows exactly once",
  "A SELECT over two or three tables, joined with [INNER] JOIN ... ON or listed with commas, returns one row for every combination of rows (one per table) that satisfies all ON conditions and the WHERE condition, and no other row: nothing is lost, duplicated or mixed up when a row matches several rows or none, when a table is empty, or when tables and results span several blocks. Each result row holds the values and NULL marks of the rows it was made of, NULL never matches, table aliases stand for their table, and the joined tables are left unchanged.",
  ["inputs", "programs"], "For all contents of the join columns (any value, NULL or not) of every table within the bounds.",
  "Tests join a few fixed rows; which rows match which is a product over the contents of all tables, and the third table goes through a different code path.",
  ["src/engine/executor_select.c", "src/engine/optimiser_select.c", "src/parser/ast_select.c", "src/parser/semantic_select.c"],
  [("nested loop over two tables", "src/engine/executor_select.c: _join_nested_loop_tbl2tbl"), ("joining a third table to the intermediate result", "src/engine/executor_select.c: _join_nested_loop_tbl2mat"), ("synthetic joins for comma lists", "src/engine/optimiser_select.c: replace_entries_from")],
  "Tables A, B (and C) with an id, a join column of one of the six types with arbitrary content and NULL mark, and a VARCHAR column; 0-3 rows per table (three tables: up to 2 each, at most 5 rows in total). Ten two-table forms (ON with either operand order, parentheses, AND, OR, literal comparison, ON plus WHERE, comma list with and without WHERE, aliases) and six three-table forms, each with every comparison operator, selecting * or the ids. Larger tables (75x2 rows, 18x3x2 rows, 60 columns each) with a few arbitrary values put results in several blocks.",
  "LEFT/RIGHT joins (recognised by the grammar, not implemented), self joins, more than three tables, more arbitrary rows.",
  observe=["query_output.results.table: rows", "stored rows of the joined tables"])
P("C08", "GROUP BY returns each group once and COUNT(*) counts its rows",
  "A SELECT with GROUP BY returns exactly one row per distinct combination of values of the grouping columns among the rows that satisfy the WHERE condition, holding that combination; NULLs form one group; values that differ in any way (however large or small the difference) are different groups, and rows are in one group only if all grouping columns agree. COUNT(*) in such a row is the number of table rows in the group; without GROUP BY, COUNT(*) is a single row with the number of rows that satisfy the condition, 0 included. This holds however the rows are spread over datablocks, and the table is left unchanged.",
  ["inputs", "programs"], "For all contents of the grouped columns (any value, NULL or not) within the bounds.",
  "Which rows fall together is a partition of the table; tests try a handful of partitions of small positive integers in one block.",
  ["src/engine/executor_select.c", "src/parser/semantic_select.c", "src/parser/ast_select.c"],
  [("grouping", "src/engine/executor_select.c: merge_rows_by_group"), ("count columns", "src/engine/executor_select.c: init_count_cols, inc_count_cols")],
  "Up to 4 rows with arbitrary content in one grouping column of each of the six types and in a second INT grouping column; eight statement forms (COUNT(*) alone, one or two grouping columns, with and without COUNT(*) and the columns in the list, qualified names), with and without WHERE. 60 rows over several blocks (and 12 rows of 61 columns) of which three are arbitrary. Non-NaN doubles.",
  "COUNT(column), DISTINCT, HAVING, grouping over joins, more than two grouping columns, NaN.",
  observe=["query_output.results.table: rows and COUNT(*) column"])
P("C09", "The result cursor visits every row exactly once and never runs past the end",
  "Stepping the cursor of a SELECT result yields each row of the result exactly once, in the order of the result table, with the values the result holds, and then reports the end; further steps keep reporting the end and no memory outside the result is touched. This holds for every number of rows, also when the rows fill a block exactly or span several blocks, and for an empty result.",
  ["inputs"], "For all row contents and all row counts within the bounds.", "Tests step over one short result; block boundaries and the step after the last row depend on the number of rows and their size.",
  ["src/engine/query.c", "include/engine/query.h"], [("cursor", "src/engine/query.c: query_cur_step")],
  "Tables of 4-128 columns with 0 to 2 blocks' worth of rows and arbitrary integers; steps beyond the end.", "Larger results.", observe=["query_cur_step", "query_column_int64"])
P("C10", "Arithmetic in INSERT values follows 64-bit integer and IEEE double arithmetic",
  "An expression in the VALUES list of an INSERT (with +, -, *, /, %, unary minus and parentheses, with the usual precedence and left associativity) is stored as the value ordinary 64-bit two's complement arithmetic, or IEEE double arithmetic, gives for it. Division or modulo by zero and arithmetic with NULL give NULL, which a NOT NULL column rejects without storing any row of the statement. No operand values make the database crash.",
  ["inputs", "programs"], "For all operand values and all expression shapes within the bounds.", "Tests evaluate a few small sums; overflow, division corner cases, precedence and NULL propagation need all operand values.",
  ["src/engine/optimiser_insert.c", "src/parser/ast_insert.c", "src/parser/semantic_insert.c", "src/parser/midorisql.y"],
  [("constant folding", "src/engine/optimiser_insert.c"), ("grammar", "src/parser/midorisql.y")],
  "All i64 and non-NaN double operands; one and two operators in every combination and parenthesisation, four unary-minus shapes, NOT NULL columns, several rows and columns. Double modulo and double unary minus: operands from eight values (solver limits).",
  "Longer expressions; NaN; mixed integer/double expressions (rejected by the semantic analysis).", observe=["stored rows", "query_output status"])
P("C17", "Every statement text is executed or rejected; none brings the process down",
  "Any text given to query_execute, valid SQL or not, comes back with an outcome: executed, results, or an error with a non-empty message. It never ends the process, crashes, hangs or touches memory it must not. A rejected statement and a SELECT leave tables and rows exactly as they were and keep no memory. The database works on afterwards: the next statement is executed correctly, and closing the database releases everything.",
  ["inputs", "programs"], "For all contents of the varied part of the statement, within the bounds.",
  "The set of statement texts is unbounded and the outcome depends on every byte; the tests run well-formed statements.",
  ["src/parser/midorisql.l", "src/parser/midorisql.y", "src/parser/syntax.c", "src/parser/ast_create.c", "src/parser/ast_insert.c", "src/parser/ast_delete.c", "src/parser/ast_update.c", "src/parser/ast_select.c", "src/parser/semantic_create.c", "src/parser/semantic_insert.c", "src/parser/semantic_delete.c", "src/parser/semantic_update.c", "src/parser/semantic_select.c", "src/engine/executor_select.c", "src/engine/query.c"],
  [("lexer and grammar", "src/parser/midorisql.l, midorisql.y"), ("tree building", "src/parser/ast_*.c"), ("semantic checks", "src/parser/semantic_*.c"), ("what can be executed", "src/engine/executor_select.c: check_supported")],
  "105 statement templates over all kinds of statements and clauses, each with a hole of 1-2 arbitrary bytes (any byte but NUL) and with one arbitrary word out of 84 (names, literals, operators, keywords); 35 of them with two arbitrary words. Thorough: 3 bytes and 2 words everywhere, 3 words in six templates. The real flex/bison-generated parser is executed.",
  "Texts that differ from a template in several places; failing memory allocation (see C15); statements longer than 400 bytes.",
  observe=["query_output status and error message", "stored rows", "live heap blocks", "the next statement"])
P("C11", "Statements are accepted exactly when names exist and values fit",
  "A statement is accepted exactly when every table and column it names exists, every column reference denotes exactly one column of the listed tables (a table with an alias is known by its alias only), and every value fits its column: NULL only where the column allows it (a NOT NULL column left out of an INSERT counts as NULL), a string only if it fits VARCHAR(n), a literal only of the column's type, and as many values as columns, each column at most once. A rejected statement reports an error with a message and leaves the database exactly as it was, however many of its rows would have fitted; an accepted one carries no error message.",
  ["inputs", "programs"], "For all contents of strings and quoted names, all NULL patterns, all column types against all literal kinds and all statement shapes within the bounds.",
  "Whether a statement is refused depends on the combination of constraint, type, value, place and statement kind; tests check one rejection per rule.",
  ["src/parser/semantic_insert.c", "src/parser/semantic_update.c", "src/parser/semantic_delete.c", "src/parser/semantic_select.c", "src/engine/executor_insert.c", "src/engine/executor_update.c"],
  [("semantic checks before execution", "src/parser/semantic_*.c")],
  "NOT NULL: two columns of each type, all nullability patterns, six column lists, 1-2 rows, NULL in any place, INSERT and UPDATE; VARCHAR(1, 2, 5, 20) with every string of up to two bytes more than fits; every column type against seven literal kinds (integers, doubles, strings, TRUE, NULL, date and datetime texts) in ten statement shapes with all operators; quoted names of 1-3 arbitrary bytes in 19 places; INSERT with 1-3 rows of which one does not fit in five ways; qualified and bare references to eight names in six places of six FROM clauses.",
  "Datetime text for a DATE column (left open); tables joined with themselves (rejected by the code); longer names and lists; wording of messages.",
  observe=["query_execute: status and message", "stored rows", "number of tables"])
P("C18", "Literals mean exactly what they say, wherever they stand",
  "An integer, floating-point, string or boolean literal stands for exactly the value it spells, whether it is inserted, assigned or compared with: every 64-bit integer, the nearest double of a decimal text, and every character of a string, with a doubled quote standing for one quote in both kinds of quotes, the empty string included, however long. A number that its type cannot represent is rejected and the statement changes nothing.",
  ["inputs"], "For all digits, characters, stored values and all places a literal can stand in, within the bounds.",
  "Literals pass through lexer, text queue, syntax tree and executor; loss of a digit or character depends on the value and on the place, of which tests sample a few.",
  ["src/parser/midorisql.l", "src/parser/midorisql.y", "src/parser/ast_insert.c", "src/parser/ast_update.c", "src/parser/ast_delete.c", "src/parser/ast_select.c", "src/engine/executor_insert.c", "src/engine/executor_update.c"],
  [("tokens to queue entries", "src/parser/midorisql.l, midorisql.y: emit"), ("queue entries to values", "src/parser/ast_*.c: build_expr_*"), ("values to rows", "src/engine/executor_insert.c")],
  "Twelve places (INSERT, UPDATE SET, comparisons, IN, NOT IN, JOIN ON) against a stored row of arbitrary content. Integers of 1, 2, 3 and 6 arbitrary digits, of 10 and 18 digits with four arbitrary ones, and of 19 and 20 digits around the limits (four arbitrary ones); strings of 0-3 arbitrary characters (no NUL, newline or backslash) in single and double quotes, and strings of 62-4094 fixed characters followed by an arbitrary one; floats in twelve forms with one or two arbitrary digits; TRUE and FALSE.",
  "Backslashes in strings (kept as they are, but they also hide the quote that follows); hexadecimal and bit literals (rejected by the grammar); more arbitrary digits in floats; UNKNOWN.",
  observe=["stored rows", "rows selected by comparisons"])
P("C12", "CREATE TABLE makes exactly the declared table",
  "CREATE TABLE creates one empty table with the declared name and exactly the declared columns: order, names, types, VARCHAR lengths, nullability, UNIQUE, AUTO_INCREMENT, PRIMARY KEY and INDEX marks, whether a key is declared with its column or as a clause before or after it. Other tables are not touched. An invalid, duplicate or already taken name, a key over an unknown column, a VARCHAR length outside 1 to 65535 or more than 128 columns make the statement fail without a trace; with IF NOT EXISTS an existing table is left as it is.",
  ["inputs", "programs"], "For all names, VARCHAR lengths and all combinations of types, attributes and key clauses within the bounds.",
  "The declaration is a free combination of types, attributes and key clauses; tests create a handful of fixed tables.",
  ["src/parser/midorisql.y", "src/parser/ast_create.c", "src/parser/semantic_create.c", "src/engine/executor_create.c", "src/engine/database.c", "src/primitive/column.c"],
  [("declaration to syntax tree", "src/parser/ast_create.c"), ("syntax tree to table", "src/engine/executor_create.c")],
  "1-2 columns of twelve type spellings with up to two attributes each; PRIMARY KEY and INDEX clauses over one or two of three columns (or an unknown one) at every place of the list; names of 1-3 arbitrary bytes as table, column and key names, names of 126-129 characters; VARCHAR lengths of 1, 2, 5 and 6 arbitrary digits, also negative; 4, 127, 128 and 129 columns; IF NOT EXISTS in four spellings with arbitrary first letter, repeated.",
  "Contradictory attributes (NULL together with NOT NULL or PRIMARY KEY); enforcement of UNIQUE, AUTO_INCREMENT and PRIMARY KEY (not implemented by the code); several INDEX clauses.",
  observe=["catalog: struct table and its columns", "number of tables"])
P("C05", "Keyword case, white space and comments do not change what a statement means",
  "Two statements that differ only in the case of keywords, in the white space between tokens (blanks, tabs, line ends) or in comments (/* */, # and -- to the end of the line) have the same outcome: the same acceptance, affected-row count, results and effect on every table.",
  ["inputs", "programs"], "For all 2^n casings of a statement's keywords, all white space and comment contents in any gap, within the bounds.",
  "The combinations of casing and spacing are unbounded; tests use one spelling of each statement.",
  ["src/parser/midorisql.l", "src/parser/midorisql.y", "src/parser/syntax.c"],
  [("tokens", "src/parser/midorisql.l"), ("comments", "src/parser/midorisql.l: COMMENT state")],
  "16 statements of all kinds (two of them rejected); the case of every keyword letter arbitrary at once; any one gap (also where no gap is needed) replaced by two arbitrary white-space bytes (thorough: 3) or by a comment of any kind with two (thorough: 3) arbitrary bytes.",
  "Several unusual gaps at once; the gap between COUNT and its parenthesis (significant to the lexer); `4-3` and the like, where a blank separates operator from sign.",
  observe=["query_execute: status, affected rows, results", "all stored rows and columns"])
P("C25", "Dates and datetimes keep their value and compare chronologically",
  "A text is accepted for a DATE column exactly when it spells an existing day as YYYY-MM-DD and nothing else, and for a DATETIME column exactly when it spells an existing day and time as YYYY-MM-DD HH:MM:SS; leap years are those of the Gregorian calendar. It is stored as that very instant, and comparisons with =, <>, <, <=, IN and NOT IN, in every kind of statement, order stored and literal dates chronologically. Any other text is rejected and the statement changes nothing.",
  ["inputs"], "For all digits of the dates and times in the stated forms, all stored instants and all places of a literal, within the bounds.",
  "Month lengths, leap years and field limits need every combination of digits; tests use a few fixed dates.",
  ["src/parser/semantic_insert.c", "src/parser/semantic_update.c", "src/parser/semantic_delete.c", "src/parser/semantic_select.c", "src/engine/executor_insert.c", "src/engine/executor_update.c", "src/engine/executor_delete.c", "src/engine/executor_select.c", "include/primitive/column.h"],
  [("validation", "src/parser/semantic_*.c: try_parse_date_type"), ("conversion", "src/engine/executor_*.c: parse_date_type")],
  "Years 0000-9999 with February and any day, 20xx with any month and day, 1xxx with some; any day and time of February 2024, last days of any month in 2xx0, any date with the digits ####-0#-01 and hour 0#; one arbitrary character after a date or datetime; twelve places of the literal against a stored row with any instant. Time zone UTC; strptime and mktime are replaced by C models of glibc's behaviour (validated by native replays).",
  "The instant before 1970-01-01 (its time_t is mktime's error value), leap seconds, fields of fewer digits (accepted by strptime), other time zones.",
  observe=["stored rows", "rows selected by comparisons"])
P("C15", "Running out of memory rejects the statement without effect or damage",
  "Whichever allocations fail while a statement is executed, the statement either does exactly what it does when memory suffices or is rejected with an error message; then every table, the catalog and the amount of memory in use are as before. No crash, no use of memory that is not there, no leak and no lock left behind, and the database can be used afterwards. The same holds for each operation of the containers and of table storage: it takes effect or reports failure and has none.",
  ["inputs", "faults"], "For every allocation that can fail (one at a time; thorough: every pair) in every statement listed, and all literal values in them.",
  "An error path is taken only when one particular allocation fails; no test makes one fail.",
  ["src/parser/midorisql.y", "src/parser/midorisql.l", "src/parser/syntax.c", "src/parser/ast_*.c", "src/parser/semantic_*.c", "src/engine/*.c", "src/primitive/*.c", "src/datastructure/*.c"],
  [("error paths", "all functions that allocate, and their callers up to src/engine/query.c: query_execute"), ("undoing a statement", "src/engine/executor_insert.c, executor_create.c, executor_select.c")],
  "30 statements of all kinds (8 of them rejected in any case) on three tables of 1-4 columns and 2-3 rows, with an arbitrary integer and an arbitrary double among their literals: the number of the failing allocation is symbolic (thorough: two numbers). B-tree of up to 26 keys (insert and remove; two failures), hash table of 20 keys (one failure; thorough two), vector, queue and stack (two or three failures), table storage with rows, columns added and removed and vacuum, in one and in several blocks (two failures; thorough three and four).",
  "Allocations inside flex's yy_scan_string, assumed to succeed: their failure is a known finding, shown by job oom-lexer. An engine-independent limit on memory (large but successful allocations), stack exhaustion.",
  observe=["query_execute: status, message, affected rows, results", "all stored rows, number of tables", "heap objects in use", "locks held"])

P("C27", "After any sequence of statements the tables hold what a table model holds",
  "A database behaves as a collection of tables of rows under every sequence of statements: after each statement every table holds exactly the rows, in insertion order and with the values and NULL marks, that result from applying the statements one after another to lists of rows. An INSERT appends its rows in order, an UPDATE or DELETE acts on exactly the rows its condition is true of at that moment, a rejected statement and a SELECT change nothing, and each statement's affected-row count and result are those of the current content, whatever statements (also failed ones, deletions, vacuums, growth over several blocks) went before.",
  ["histories", "inputs"], "For every sequence of statements of the menu up to the stated length and all literal values in them.",
  "Tests run one or two statements on freshly made tables; what earlier statements leave behind (deleted slots, partly filled blocks, NULL marks, lexer state) shows only in some order of statements with particular values.",
  ["src/engine/query.c", "src/engine/executor_insert.c", "src/engine/executor_update.c", "src/engine/executor_delete.c", "src/engine/executor_select.c", "src/engine/executor_create.c", "src/primitive/row.c", "src/primitive/vacuum.c", "src/engine/database.c"],
  [("statement execution", "src/engine/query.c: query_execute"), ("row slots", "src/primitive/row.c: table_insert_row, table_update_row, table_delete_row")],
  "Two tables (INT, VARCHAR; INT, DOUBLE) and a third created on the way; sequences of 3 statements (thorough: 4) out of 20 - INSERTs of one and several rows, partial column lists and NULLs, UPDATEs and DELETEs with and without conditions, SELECT, GROUP BY, JOIN, CREATE TABLE, vacuum, rejected and malformed statements - each with arbitrary literals (64-bit integers, doubles, strings of three arbitrary characters), from 0, 1 or 2 arbitrary rows; sequences of 2 on tables of 101 and 104 rows (at and beyond the end of a block).",
  "Longer sequences; other column types (C01-C04); strings of other lengths; conditions beyond the eight used (C22).",
  state=[("stored rows", "the rows of every table", "struct table: datablock_head"), ("free offset", "where the next row goes", "struct table: free_dtbkl_offset")], observe=["stored rows after every statement", "n_rows_aff", "SELECT results"])
P("C06", "A result is a snapshot: later statements do not change it",
  "The result of a SELECT belongs to its caller: it keeps the rows, values, strings and NULL marks it had when the query was executed, whatever INSERT, UPDATE, DELETE, CREATE or other statement or vacuum runs afterwards and even after the database is closed, until query_free. Reading or freeing a result changes no table and no other result, and frees everything the result owned exactly once.",
  ["histories", "inputs"], "For every sequence of statements of the menu executed between the query and the look at its result, and all values.",
  "Tests look at a result at once and then free it; a result that shares memory with a table is right at that moment and wrong or dangling only after a later change.",
  ["src/engine/executor_select.c", "src/engine/query.c", "src/primitive/row.c", "src/primitive/table.c"],
  [("result table", "src/engine/executor_select.c: executor_select_run"), ("copy of row content", "src/primitive/row.c: table_insert_row"), ("release", "src/engine/query.c: query_free")],
  "Two results (SELECT * of one table with strings; a combination of two tables) of tables of 0-2 arbitrary rows and of 102 and 104 rows, looked at after 2 statements (one row: 3; large tables: 1; thorough: 3) out of 20, with or without the database closed first.",
  "Results of GROUP BY kept across statements; longer sequences.",
  observe=["result tables after later statements", "table contents after query_free", "heap objects"])
P("C16", "Statements keep no memory beyond what the stored rows need",
  "Memory in use is determined by what is stored: once its result is freed, a query or a rejected statement leaves exactly as much memory in use as before; UPDATE and DELETE never take more; an INSERT takes memory for its rows only; after a vacuum the tables take no more than freshly stored tables of the same rows; and closing the database releases everything.",
  ["histories", "inputs"], "For every sequence of statements of the menu up to the stated length and all literal values in them.",
  "Tests do not look at memory; a leak on one path (an error exit, a NULL, a particular comparison result) needs that path and shows no wrong result.",
  ["src/engine/query.c", "src/engine/executor_insert.c", "src/engine/executor_update.c", "src/engine/executor_delete.c", "src/engine/executor_select.c", "src/engine/optimiser_select.c", "src/parser/ast.c", "src/primitive/vacuum.c", "src/primitive/table.c"],
  [("clean-up of a statement", "src/engine/query.c: query_execute"), ("vacuum", "src/primitive/vacuum.c: table_vacuum")],
  "Sequences of 2 statements (thorough: 3) out of 20 from 0 or 2 arbitrary rows, 1 statement on tables of 103 and 105 rows; memory counted in heap objects. Every other SQL-level harness also ends with closing the database and checks that nothing is left.",
  "Sizes of objects; flex's and bison's static buffers; running out of memory (C15).",
  state=[("heap objects", "what has been allocated and not freed", "every malloc and calloc of the code")], observe=["number of heap objects before and after each statement"])
P("C26", "Databases and tables are isolated from each other",
  "A statement acts on the database it is given and on the tables it names, and on nothing else: two open databases, each with tables of the same names, behave as if each were alone, under every interleaving of statements, and closing one leaves the other intact. Within a database a name denotes exactly the table created with that name, byte for byte (case, prefixes and long names that differ in one character are different names); a second table of the same name is refused; the number of tables does not matter.",
  ["histories", "inputs"], "For every interleaving of statements on two databases within the bounds; for all table names within the bounds.",
  "Tests use one database with one or two tables of clearly different names; global state shared between databases or a name comparison that stops early shows only with several of them.",
  ["src/engine/database.c", "src/engine/query.c", "src/engine/executor_create.c", "src/datastructure/hashtable.c", "src/parser/syntax.c", "src/primitive/table.c"],
  [("table registry", "src/engine/database.c: database_table_add, database_table_get"), ("close", "src/engine/database.c: database_close")],
  "Two databases, sequences of 2 statements (thorough: 3) out of 20, each on either database, then one closed; a registry of 0-8 tables (thorough: 31) plus one of any valid name of 1-2 bytes (thorough: 3 bytes; two names) and a lookup of any such name; eight statement kinds on each of eight tables with similar names; names of 60 and 127 characters that differ at the start, in the middle, at the end or in length; 60 tables.",
  "Databases used from several threads (the code declares no thread safety of query_execute).",
  state=[("registry", "the tables of a database by name", "struct database: tables")], observe=["stored rows of both databases and of every other table", "database_table_get, database_table_exists"])
P("C22", "A condition of any shape is true of the same rows in every statement",
  "In SELECT, UPDATE, DELETE, JOIN ... ON and the WHERE of a join, a condition of several operands joined by AND, OR and XOR selects a row exactly when it is true of it: AND binds tighter than XOR, XOR tighter than OR, parentheses override this and redundant ones change nothing, in any nesting. Equivalent spellings select the same rows: operands of a comparison exchanged with the operator mirrored, IN as equalities joined by OR, NOT IN as inequalities joined by AND.",
  ["programs", "inputs"], "For every combination of operators and every placement of parentheses over the stated number of operands, all contents of the row and all literals.",
  "The number of operator combinations and parenthesisations is exponential and a wrong precedence, a lost parenthesis or a wrong short cut shows only for particular truth values of the operands.",
  ["src/parser/midorisql.y", "src/parser/ast_select.c", "src/parser/ast_update.c", "src/parser/ast_delete.c", "src/engine/executor_select.c", "src/engine/executor_update.c", "src/engine/executor_delete.c", "src/engine/optimiser_select.c"],
  [("precedence", "the grammar's %left lines"), ("evaluation", "src/engine/executor_*.c")],
  "Conditions of 2-4 operands with every operator combination and parentheses in any place, of 3 with doubled parentheses everywhere, of 5 without parentheses (thorough: 5 with, 6 without), out of eight operands on INT, DOUBLE and VARCHAR columns (comparisons in both operand orders, IS [NOT] NULL, [NOT] IN; in joins comparisons between the tables and with literals), in two spellings, in six statement forms, over one row of arbitrary content and NULL marks.",
  "More operands; several rows (C02-C04, C07); IN and IS NULL in JOIN ... ON (rejected by the code).",
  observe=["selected rows", "n_rows_aff"])
P("C28", "The clauses of a SELECT act one after the other",
  "FROM and JOIN, WHERE, GROUP BY and the column list of one SELECT compose: the join condition and WHERE select combinations of rows, GROUP BY forms the groups of the selected combinations only, by the values of its columns wherever they come from (NULLs form one group), and the column list yields one row per combination, or per group with COUNT(*) the number of selected combinations in it; COUNT(*) without GROUP BY is the number of selected combinations, 0 if there is none.",
  ["programs", "inputs"], "For every combination of the clauses within the bounds, all contents and NULL marks of the rows and all literals.",
  "Tests try each clause by itself; their combination, with NULLs and values that meet in only some rows, is a product tests cannot enumerate.",
  ["src/engine/executor_select.c", "src/engine/optimiser_select.c", "src/parser/ast_select.c", "src/parser/semantic_select.c"],
  [("order of clauses", "src/engine/executor_select.c: executor_select_run")],
  "Six FROM clauses (inner join on =, <> and <=, comma list, one table, one table with alias), five WHERE clauses (none, comparison, IS NOT NULL, OR across tables, XOR with parentheses and AND), six groupings (none, one or two columns of either table), with and without COUNT(*); tables A(INT, VARCHAR, INT or TINYINT) and B(INT, VARCHAR, DOUBLE or INT) of 0-2 rows each of arbitrary content (thorough: 3 rows for one table).",
  "More rows; three tables (C07); HAVING, ORDER BY, LIMIT, DISTINCT (accepted and ignored by the code).",
  observe=["rows and columns of the result"])
