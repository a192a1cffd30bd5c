#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  A property with a harness is
claimed; one in NA is listed as not applicable."""
import json, os, glob
V = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ['libmsi public API'], state=state or [], hook_needed=None)))

p('C01', 'Stream names: encoding is lossless and reversible',
  'Encoding a table or stream name for storage in the OLE container and decoding it again yields the same name, for every UTF-8 name. Names that use only the packable alphabet take the documented packed form, and table names carry the table prefix.',
  ['inputs'], 'every well-formed UTF-8 name (up to 6 bytes in the check) without code points reserved for the packed form, as stream and as table name',
  'The tests store a few dozen fixed ASCII names; the packing depends on parity, alphabet membership and UTF-8 length at every position.',
  ['libmsi/table.c'], [('encode_streamname', 'libmsi/table.c'), ('decode_streamname', 'libmsi/table.c')])
p('C02', 'Strings survive storage whatever their content, length or sharing',
  'A string stored in a table is read back byte for byte, before and after commit and reopen, whatever its length (including 64 KiB and more), its content, and however many rows, columns and tables share it. A string stays available as long as any row uses it.',
  ['inputs', 'histories'], 'every short content, lengths around the 64 KiB boundaries, and every short history of inserting, updating and deleting rows that share strings, with commits and reopens in between',
  'Tests store short strings once; sharing histories, the two-entry long-string form and reference counts are never inspected.',
  ['libmsi/string.c', 'libmsi/table.c'], [('string pool refcounts', 'libmsi/string.c:msi_addstring'), ('pool load/save', 'libmsi/string.c:msi_load_string_table,msi_save_string_table')])
p('C03', 'Opening a file with any string pool is safe and faithful',
  'Opening a database whose string pool and string data hold arbitrary bytes never reads outside a stream, never crashes, never hangs, and reports failure through its error result. Where pool and data are consistent, exactly the strings they describe are visible.',
  ['inputs'], 'every pool and data stream content up to the stated number of entries and bytes, including missing streams',
  'Tests only open well-formed files; corrupt lengths, counts and truncated streams are not sampled.',
  ['libmsi/string.c', 'libmsi/libmsi-database.c', 'libmsi/table.c'], [('msi_load_string_table', 'libmsi/string.c'), ('read_stream_data', 'libmsi/table.c')])
p('C04', 'Any table stream or catalog content can be opened and edited safely',
  'Opening, describing, reading, editing and saving a database whose table streams or catalog tables hold arbitrary bytes is memory safe, terminates, and either succeeds or reports an error.',
  ['inputs'], 'every content of _Tables, _Columns and a table stream up to the stated number of rows, including every 16-bit column type, number and name reference',
  'No test opens a database with a damaged catalog; column types, numbers and string references are trusted by many call sites.',
  ['libmsi/table.c', 'libmsi/libmsi-query.c', 'libmsi/libmsi-database.c'], [('table_get_column_info', 'libmsi/table.c'), ('read_table_from_storage', 'libmsi/table.c')])
p('C05', 'Cell values survive commit and reopen',
  'Every value the API accepts into a column - any 16-bit or 32-bit integer of the column\'s range, any string, NULL - is returned unchanged by a query in the same session, after commit, and after reopening the file. A value that is not of the type of its column is refused, not lost.',
  ['inputs'], 'every integer of the column range, NULLs and short strings in two rows over all scalar column types',
  'Tests store a handful of integers; offsets, sign and NULL encodings at the range ends are not sampled.',
  ['libmsi/table.c', 'libmsi/insert.c'], [('table_view_set_row', 'libmsi/table.c'), ('save_table', 'libmsi/table.c'), ('read_table_int', 'libmsi/table.c')])
p('C06', 'The bytes on disk follow the MSI database layout',
  'A database written by an independent implementation of the documented layout (column-major tables, 2- or 3-byte string references, offset integers, catalog tables) is read with exactly its values, and what the library writes decodes to exactly the values stored. Editing a database keeps every table decodable with the reference size recorded in the file. A table stream that is not a whole number of rows is refused, not misread.',
  ['inputs', 'configurations'], 'every cell value in a table of 3 rows, both string reference sizes, every column type',
  'Tests read files the library wrote itself, so a symmetric format error is invisible to them.',
  ['libmsi/table.c', 'libmsi/string.c', 'libmsi/create.c'], [('save_table', 'libmsi/table.c'), ('read_table_from_storage', 'libmsi/table.c'), ('msi_save_string_table', 'libmsi/string.c')])
p('C07', 'INSERT accepts exactly the legal rows and refused rows leave no trace',
  'An INSERT succeeds exactly when every value is in its column\'s range, no NOT NULL column is NULL, and no row with the same primary key exists; a refused INSERT leaves the table exactly as it was. Columns not named become NULL, and values bind to the named columns whatever the order.',
  ['inputs', 'histories'], 'every sequence of 3 inserts with any 32-bit values, NULLs and one-character strings; every column order',
  'Tests insert a few fixed rows; duplicate keys, range ends and cleanup after refusal combine into far more cases.',
  ['libmsi/table.c', 'libmsi/insert.c'], [('table_validate_new', 'libmsi/table.c'), ('table_view_insert_row', 'libmsi/table.c'), ('insert_view_execute', 'libmsi/insert.c')])
p('C08', 'DELETE removes exactly the matching rows',
  'A DELETE removes exactly the rows that satisfy its WHERE clause (all rows without one) and leaves every other row unchanged and in order, also after commit.',
  ['inputs'], 'every content of a 4-row table under several WHERE forms with any parameter',
  'Tests delete one row or all rows; which subset matches and adjacency decide the outcome.',
  ['libmsi/delete.c', 'libmsi/table.c', 'libmsi/where.c'], [('delete_view_execute', 'libmsi/delete.c'), ('table_view_delete_row', 'libmsi/table.c')])
p('C09', 'UPDATE changes exactly the named columns of exactly the matching rows',
  'An UPDATE sets the named columns of the rows that satisfy its WHERE clause to the given values, literal or parameter, and changes nothing else.',
  ['inputs'], 'every content of a 3-row, 4-column table, one or two assigned columns mixing literals and parameters, WHERE on a key, a non-key, or none',
  'Tests update a column or two of a fixed table; the pairing of parameters with assignments and conditions is not sampled.',
  ['libmsi/update.c', 'libmsi/where.c', 'libmsi/table.c'], [('update_view_execute', 'libmsi/update.c'), ('where_view_set_row', 'libmsi/where.c'), ('table_view_set_row', 'libmsi/table.c')])
p('C10', 'SELECT ... WHERE returns exactly the rows that satisfy the condition',
  'A query returns exactly the rows whose values satisfy its WHERE clause under the usual meaning of comparisons, AND, OR, parentheses and IS [NOT] NULL, for literals and for parameters alike.',
  ['inputs'], 'every value of 3 rows of SHORT, LONG and CHAR columns and of the parameters (comparisons on non-NULL integers)',
  'Tests evaluate each operator on a few constants; precedence, parameter order and range ends are not covered.',
  ['libmsi/where.c', 'libmsi/sql-parser.y'], [('where_view_evaluate', 'libmsi/where.c'), ('build_expr_*', 'libmsi/sql-parser.y')])
p('C11', 'Joins and ORDER BY return the right rows in the right order',
  'A query over several tables returns exactly the combinations of their rows that satisfy the WHERE clause, each once, whatever the order in which tables are joined internally. With ORDER BY on integer columns the rows come sorted by the first column, then by each further one.',
  ['inputs'], 'every content of 2 or 3 tables of up to 2 rows, six join conditions with parameters in any position; 3 rows with any integers and NULLs for ORDER BY',
  'Tests join fixed tables; the join reordering and the pairing of parameters depend on the condition\'s shape and on the data.',
  ['libmsi/where.c', 'libmsi/select.c'], [('ordertables / check_condition / reorder', 'libmsi/where.c'), ('compare_entry', 'libmsi/where.c')])
p('C12', 'SELECT returns the named columns, DISTINCT one of each',
  'The columns of a result are those named, in the named order, with repetitions and table-qualified names honoured, and column names and types reported match them. SELECT DISTINCT returns each distinct combination exactly once.',
  ['inputs'], 'seven column lists, two or three rows of any integers, NULLs and short strings',
  'Tests use one or two projections over constant rows; DISTINCT is run once on a fixed table.',
  ['libmsi/select.c', 'libmsi/distinct.c', 'libmsi/libmsi-query.c'], [('select_view_*', 'libmsi/select.c'), ('distinct_insert', 'libmsi/distinct.c')])
p('C13', 'Any SQL text is either executed or refused, safely',
  'Whatever text is given as a query, preparing and executing it never reads or writes outside an object, never hangs, and reports failure through the error result. Integer and string literals have exactly the value written, and an unterminated or out-of-range literal is refused.',
  ['inputs', 'programs'], 'every text of a few arbitrary bytes, and arbitrary bytes in place of a token inside each kind of statement; every short string and integer literal',
  'Tests issue well-formed statements and a few hand-picked malformed ones.',
  ['libmsi/tokenize.c', 'libmsi/sql-parser.y'], [('sql_get_token', 'libmsi/tokenize.c'), ('sql_lex, sql_unescape_string, sql_atoi', 'libmsi/sql-parser.y')])
p('C14', 'A file of SQL statements is split exactly at its statement ends',
  'Splitting a text of SQL statements into statements loses and duplicates nothing: the pieces are exactly the statements between separators that lie outside quotes, in order, and malformed text is never read beyond its end.',
  ['inputs'], 'every text over the characters that matter to the splitter, up to the stated length',
  'No test exercises the splitter on quotes, backquotes and separators in combination.',
  ['tools/sqldelim.c'], [('sql_get_statement', 'tools/sqldelim.c')], ['tools/sqldelim.h'])
p('C15', 'A record field holds the last value written to it',
  'After any sequence of writes to a record, each field holds exactly the last value written to it and no other field changes; reading a field as integer or string converts as documented (decimal text, or NULL), and stream fields return the bytes loaded into them. Out-of-range field numbers are refused without effect.',
  ['inputs', 'histories'], 'every history of 3 operations on a record of 2 fields with any integers and short strings, every field number',
  'Tests call each accessor a few times with constants; conversion boundaries and overwriting histories are not covered.',
  ['libmsi/libmsi-record.c'], [('libmsi_record_set_*, libmsi_record_get_*', 'libmsi/libmsi-record.c'), ('expr_int_from_string', 'libmsi/libmsi-record.c')])
p('C16', 'Any summary-information stream can be opened safely',
  'Opening the summary information of a database whose property stream holds arbitrary bytes never reads outside the stream and never crashes; it yields properties of the declared types or an error. Properties of a well-formed stream written by an independent implementation are read exactly.',
  ['inputs'], 'every stream content up to the stated section size; arbitrary offsets, counts, types, lengths',
  'Tests read only streams the library or well-behaved tools wrote.',
  ['libmsi/libmsi-summary-info.c'], [('load_summary_info, read_properties_from_data', 'libmsi/libmsi-summary-info.c')])
p('C17', 'Summary information survives being written and read back',
  'Every set of summary properties that the API accepts is returned unchanged after persisting, committing and reopening, and the stream written has the documented property-set layout with aligned, non-overlapping values within the declared size.',
  ['inputs', 'histories'], 'every subset of properties with any integers, times and short strings of any length modulo 4; repeated persist and reopen',
  'Tests write one fixed set of properties; sizes, alignment and re-writing depend on the mix of lengths.',
  ['libmsi/libmsi-summary-info.c'], [('suminfo_persist, write_property_to_data', 'libmsi/libmsi-summary-info.c')])
p('C18', 'Summary-information accessors enforce types and limits',
  'Setting a property succeeds exactly when the property accepts that type and the number of distinct properties ever set stays within the update limit; getting it with the matching accessor returns the value set, and with any other accessor reports an error and changes nothing. FILETIME text conversion round-trips.',
  ['inputs', 'histories'], 'every property id and accessor, every history of 3 writes, every value',
  'Tests call the accessors for a few properties; the cross product of ids, types and limits is not covered.',
  ['libmsi/libmsi-summary-info.c'], [('get_type, libmsi_summary_info_set_*', 'libmsi/libmsi-summary-info.c')])
p('C19', 'Importing any table text file is safe and all-or-nothing',
  'Importing a table text file with arbitrary content never reads or writes outside its buffers and never crashes; it either imports every row of the file, replacing the rows of the table, or reports an error and leaves every table as it was.',
  ['inputs'], 'every file of arbitrary bytes of the stated length, and arbitrary bytes in place of each part of a well-formed file',
  'Tests import a handful of well-formed files and a few malformed ones.',
  ['libmsi/libmsi-database.c'], [('msi_read_text_archive, msi_parse_line, _libmsi_database_import', 'libmsi/libmsi-database.c')])
p('C20', 'Export followed by import reproduces a table',
  'A table exported to its text form and imported into an empty database has the same columns, types, keys and rows, with NULLs, integers and strings unchanged, including strings with tabs and line ends; an export that cannot write everything reports an error.',
  ['inputs'], 'every content of a 2-row table over all exportable column types',
  'Tests compare one export against a fixed text; values that need escaping and NULLs in every type are not covered.',
  ['libmsi/libmsi-database.c'], [('libmsi_database_export, msi_export_record', 'libmsi/libmsi-database.c'), ('_libmsi_database_import', 'libmsi/libmsi-database.c')])
p('C21', 'A commit that cannot write reports failure and loses nothing',
  'If any write, stream creation or close fails while a database is committed, the commit reports an error; it never reports success for data that did not reach the file, and the previously committed content of the file is not damaged.',
  ['fault_sequences'], 'every single failing output operation during a commit and the final close',
  'Tests never make the file system fail.',
  ['libmsi/libmsi-database.c', 'libmsi/table.c', 'libmsi/string.c'], [('libmsi_database_commit', 'libmsi/libmsi-database.c'), ('_libmsi_database_close', 'libmsi/libmsi-database.c')])
p('C22', 'A crash never leaves the database without a complete file',
  'At every point at which the process may die while committing or closing a database, the file at the database path holds either the complete previous content or the complete new content.',
  ['crash_points'], 'every point between two changes to the file system during create, commit, and close, in every open mode',
  'Tests run to completion; no test stops the process between the removal of the old file and the arrival of the new one.',
  ['libmsi/libmsi-database.c'], [('_libmsi_database_close', 'libmsi/libmsi-database.c'), ('_libmsi_database_start_transaction', 'libmsi/libmsi-database.c')])
p('C23', 'Uncommitted or read-only work never changes the file',
  'A database opened read-only, or closed without commit, leaves the file byte for byte as it was, whatever was executed in between; operations that would modify a read-only database are refused or have no lasting effect.',
  ['histories'], 'every history of 2 modifying operations followed by closing, in each open mode',
  'Tests check a few refusals, not that the file is unchanged after every operation.',
  ['libmsi/libmsi-database.c'], [('libmsi_database_commit, _libmsi_database_close', 'libmsi/libmsi-database.c')])
p('C24', 'Applying a transform changes exactly what it describes',
  'Applying a transform adds, updates and deletes exactly the rows it lists, with the listed values (strings, integers, streams, NULLs), and creates the tables and columns and drops the tables it lists; every other row and table is left alone, and the result survives commit and reopen. Updating or deleting a row that does not exist, a missing stream, and files that are no transforms are refused. A transform with arbitrary row or column bytes is applied or refused safely.',
  ['inputs'], 'transforms of 1..2 row changes of every kind with symbolic keys and values; 2 and 3 byte string references; added tables and columns of 7 types; dropped tables; 9 arbitrary row bytes; arbitrary column type, number and mask',
  'Tests apply one fixed transform.',
  ['libmsi/table.c', 'libmsi/libmsi-database.c'], [('msi_table_load_transform, msi_table_apply_transform', 'libmsi/table.c')])
p('C25', 'Merging adds the missing rows and reports every conflict',
  'Merging a reference database creates the tables the target lacks and adds to every table without conflicts each row whose key the target lacks (keys of one or two columns, any integers or strings, NULLs included); existing rows are never changed. A row whose key exists with different values is a conflict: its table gets no rows at all, the named error table says how many there are (replacing what an earlier merge said), and the merge reports failure after the other tables were merged. Tables whose column names, types (string widths and localizability aside) or keys differ make the merge fail without changing anything. The reference database is not changed.',
  ['inputs'], 'tables of 0..2 rows on each side with symbolic keys and values; matching and mismatching columns, types and keys; two merges in a row',
  'Tests merge two or three fixed databases.',
  ['libmsi/libmsi-database.c'], [('libmsi_database_merge, merge_diff_row', 'libmsi/libmsi-database.c')])
p('C26', 'Streams, storages and OBJECT columns map names to content',
  'After any history of inserting, replacing, updating and deleting rows of _Streams and _Storages, a query lists exactly the entries that exist and their content is the bytes stored last, before and after commit and reopen. OBJECT cells return the bytes stored in them, and a row without name or usable content is refused without a trace, as is every change to a read-only database. A table file exported from _Streams or _Storages imports back to the same entries.',
  ['inputs', 'histories'], 'every history of 3 operations over 3 names with any content of up to 2 bytes, nested storages, empty storages',
  'Tests store one or two streams and one storage.',
  ['libmsi/streams.c', 'libmsi/storages.c', 'libmsi/libmsi-database.c', 'libmsi/table.c'], [('streams_view_*', 'libmsi/streams.c'), ('storages_view_*', 'libmsi/storages.c'), ('gsf_infile_copy', 'libmsi/libmsi-database.c')])
p('C27', 'Reading a stream in any pattern yields its bytes',
  'A stream obtained from a record yields exactly its bytes in order under any sequence of reads, seeks and size queries; reads never exceed the buffer or the stream, and seeking outside it is refused.',
  ['inputs', 'histories'], 'every content of up to 3 bytes, every sequence of 3 reads and seeks with any sizes and offsets',
  'Tests read each stream once from start to end.',
  ['libmsi/libmsi-istream.c'], [('input_stream_read, libmsi_istream_seek', 'libmsi/libmsi-istream.c')])
p('C28', 'msiinfo exports tables as SQL that recreates them',
  'The SQL that msiinfo export -s prints for a table, executed against an empty database, recreates the table with the same columns, keys and rows, whatever strings, integers and NULLs they hold.',
  ['inputs'], 'every content of a 2-row table with strings over the characters that matter to quoting',
  'Tests compare the output for one fixed table.',
  ['tools/msiinfo.c'], [('export_create_table, export_insert', 'tools/msiinfo.c')], ['stdout of msiinfo export -s'])
p('C29', 'Text is stored in the database code page or refused',
  'Strings are stored in the code page of the database and read back as the same text; a string that code page cannot represent makes commit fail instead of being altered or dropped, and the code page of a database is kept by commit, export and import.',
  ['inputs', 'configurations'], 'every string of up to 2 characters, code pages 0, 1252 and 65001',
  'Tests use ASCII text and one code page file.',
  ['libmsi/string.c', 'libmsi/libmsi-database.c'], [('msi_save_string_table', 'libmsi/string.c'), ('msi_string_get_codepage', 'libmsi/string.c')])
p('C30', 'Tables have exactly the columns they were created with',
  'After CREATE TABLE and ALTER TABLE ADD, the table has the named columns in order with the declared type, width, nullability and key columns, before and after commit and reopen; existing rows keep their values and hold NULL in an added column. A repeated name, a missing key or an unknown key column is refused.',
  ['programs', 'histories'], 'every combination of column types, modifiers and key lists within the bounds, any width digit',
  'Tests create tables with a few fixed definitions.',
  ['libmsi/create.c', 'libmsi/alter.c', 'libmsi/table.c', 'libmsi/sql-parser.y'], [('msi_create_table, libmsi_table_add_column', 'libmsi/table.c'), ('create_view_execute', 'libmsi/create.c'), ('alter_view_execute', 'libmsi/alter.c')])
p('C31', 'Query objects behave consistently under any call order',
  'Executing, fetching from, re-executing and closing queries in any order returns each matching row once per execution and then the end of rows, or an error; queries open at the same time do not disturb each other, and no order of calls touches freed memory.',
  ['histories'], 'every history of 4 calls on 2 queries over one table, including structural changes while a query is open',
  'Tests use each query linearly: execute, fetch to the end, close.',
  ['libmsi/libmsi-query.c', 'libmsi/table.c', 'libmsi/where.c'], [('libmsi_query_fetch, libmsi_query_execute, libmsi_query_close', 'libmsi/libmsi-query.c')])
p('C32', 'A refused definition statement leaves the catalog unchanged',
  'A CREATE, ALTER or DROP statement that fails leaves no trace: _Tables and _Columns, the tables reported, and all rows are as before, and the statement can be corrected and repeated. DROP TABLE removes the table, its columns and its rows, and its name can be reused.',
  ['histories', 'programs'], 'every history of 3 definition statements over two table names, including invalid ones',
  'Tests check return codes of a few failing statements, not the catalog afterwards.',
  ['libmsi/create.c', 'libmsi/drop.c', 'libmsi/alter.c', 'libmsi/table.c'], [('create_view_execute', 'libmsi/create.c'), ('drop_view_execute, table_view_drop', 'libmsi/drop.c, libmsi/table.c')])
p('C33', 'Temporary rows, columns and tables are visible but never saved',
  'Rows inserted as TEMPORARY and tables that are temporary throughout are visible in the session and absent from the file after commit, and their presence never changes what is saved for the persistent rows and strings next to them.',
  ['histories'], 'every interleaving of 3 persistent and temporary rows, with any values and shared strings',
  'Tests insert one temporary row and never commit it next to persistent ones.',
  ['libmsi/table.c', 'libmsi/string.c', 'libmsi/insert.c'], [('save_table, table_view_insert_row, find_insert_index', 'libmsi/table.c'), ('persistent and non-persistent counts', 'libmsi/string.c')])
p('C35', 'msibuild carries out exactly the actions on its command line',
  'msibuild performs the actions named by its options in order and stops with a nonzero status at the first one that fails, is unknown or lacks its arguments; an option consumes exactly its own arguments and nothing beyond the command line is read.',
  ['inputs', 'programs'], 'every command line of up to 4 arguments after the file name, drawn from every option and from operands',
  'The tests run a few fixed command lines that are all complete.',
  ['tools/msibuild.c'], [('main', 'tools/msibuild.c'), ('import_table, add_stream, do_query, init_suminfo', 'tools/msibuild.c')], ['exit status of msibuild', 'the database written'])
p('C36', 'msiinfo prints exactly what the package holds',
  'msiinfo extract writes exactly the bytes of the named stream, msiinfo streams and tables list exactly the streams and tables, and msiinfo suminfo prints exactly the properties set; the exit status is 0 exactly if the command line is complete, what it names exists and everything was written.',
  ['inputs', 'faults'], 'streams of 0..3 and 4095..4099 arbitrary bytes, names of any letters, summary properties of any text, every command line of up to 4 words, any one failing write',
  'Tests print one stream and one table list of a fixed package and never let a write fail.',
  ['tools/msiinfo.c'], [('cmd_extract, cmd_streams, cmd_tables, cmd_suminfo', 'tools/msiinfo.c')], ['stdout and exit status of msiinfo'])
p('C37', 'msiextract puts every file under its directory',
  'msiextract -l lists, for every package it is given, each row of the File table under the long names of its Component\'s Directory and all directories above it, up to a root (no parent, or itself as parent); extracting unpacks each cabinet, embedded or beside the package in any case of letters, into the directory asked for, each member under exactly the path listed for it. A package whose tables refer to directories, components or embedded cabinets that do not exist, or whose directories form a loop, is an error, never a hang or a crash.',
  ['inputs'], 'packages of 3-4 directories in every shape, 3 components, 2 files, names of any ASCII character but | and /, embedded and external cabinets with 3 members',
  'The tests list and extract one or two fixed packages.',
  ['tools/msiextract.vala'], [('extract, get_directory_name, extract_cab, lookup_cab', 'tools/msiextract.vala')], ['stdout, exit status and extraction names of msiextract'])
p('C38', 'wixl replaces exactly the variable references of a source',
  'In every text of a WiX source, $(var.NAME), $(env.NAME) and $(sys.CURRENTDIR | SOURCEFILEPATH | BUILDARCH) stand for the last value defined for the name, the environment variable and the directory, file and architecture of the build; a dollar sign before a reference or among several in a row stands for a dollar sign; everything else, a lone dollar sign included, is kept as it is. A reference to a name never defined or undefined again, of an unknown kind or without an end is an error.',
  ['inputs'], 'texts of up to 3 pieces of 18 kinds or 5 arbitrary characters, variables of any 2-character values',
  'One test preprocesses a fixed source.',
  ['tools/wixl/preprocessor.vala'], [('Preprocessor.eval, eval_variable, define_variable', 'tools/wixl/preprocessor.vala')], ['wixl -E, attribute values of the package'])
p('C39', 'wixl schedules every action once and where it belongs',
  'Each sequence table of a package lists every standard and custom action exactly once; standard actions keep their documented number and condition, actions with a number keep it, and every action scheduled After or Before another, directly or through others, gets a number that Windows Installer runs and that is larger or smaller than the other\'s, in whatever order hash tables are walked.',
  ['inputs', 'schedules'], '2 custom actions with any acyclic constraints among themselves and 3 standard actions; 3 actions with any 16-bit numbers and one placed by them',
  'The tests build a few fixed packages.',
  ['tools/wixl/msi.vala', 'tools/wixl/msi-default.vala'], [('MsiTableSequence.add_sorted_actions, get_action, add_default_action', 'tools/wixl/msi.vala')], ['InstallExecuteSequence and its siblings'])
p('C40', 'wixl writes each row to the columns documented for it',
  'For every table wixl fills, a row recorded with given values is found again in the package by the documented column names, each value in its own column, with absent optional values NULL, however many rows are recorded.',
  ['inputs'], '31 tables, 1-2 rows, any positive integers, optional values all, none or all but one given',
  'The tests compare some exported tables of fixed packages.',
  ['tools/wixl/msi.vala'], [('MsiTable*.add, MsiTable.create', 'tools/wixl/msi.vala')], ['tables of the package'])
p('C34', 'wixl packs every file of an installed component once and describes it where the installer looks',
  'For every source: each file of a component that is in a feature is in the cabinet of its medium exactly once, under its File key and with its source\'s bytes, and no other file is; its File row has its component, name, size, version or companion and its place in the cabinet as Sequence; the medium\'s LastSequence is the last one; the cabinet is in the package under the medium\'s name exactly if it is to be embedded; an installed file without a version has a hash row. A source file that does not exist, and a companion that does not exist or is itself a key path, are errors and no package is built.',
  ['inputs'], '3 files in 2 components, each in 0-2 features by reference or group, Media or MediaTemplate, any first character of file and cabinet names',
  'The tests build a few fixed packages.',
  ['tools/wixl/builder.vala', 'tools/wixl/msi.vala'], [('WixBuilder.build_cabinet, hash_files, visit_file, visit_media, validate_companion_files, find_file', 'tools/wixl/builder.vala')], ['File, Media, MsiFileHash tables, embedded cabinet'])
p('C41', 'wixl turns the elements of a source into the rows documented for them',
  'For every source, each element wixl supports has the rows the Windows Installer and WiX document for it: registry values (root, key, value prefix), components (attributes, GUID, key path), features (attributes, display, parent, components), service control and installation, custom actions (type bits), sequence elements (table, number, condition, order), upgrades (judged by what is detected and removed for an older, the same and a newer version), directories, folders, INI files, registry searches, shortcuts, file associations, icons and binaries, dialogs and controls (attributes, tab order, events, conditions), properties, launch conditions, and the summary information.',
  ['inputs'], '1-3 elements of each kind, every combination of the enumerated attribute values, strings with up to 2 symbolic characters',
  'The tests build a few fixed packages and compare some of their tables.',
  ['tools/wixl/builder.vala', 'tools/wixl/wix.vala', 'tools/wixl/msi.vala', 'tools/wixl/util.vala'], [('WixBuilder.visit_*, sequence_actions, property_update, shortcut_target', 'tools/wixl/builder.vala'), ('WixElement.load, WixNodeVisitor', 'tools/wixl/wix.vala')], ['tables of the package', 'summary information'])
NA = {}
TECH = {'C01': 'CBMC bounded model checking of the real C functions (SAT), counterexamples replayed natively'}
NOTE = 'Exhaustive for all values of the symbolic inputs within the bounds listed per harness in the evidence file; silent outside them. Trusts the engine, z3, the models of glib/GObject/libgsf/libc in model/ and that allocation succeeds. Counterexamples are reported only after native replay under ASan with the real glib.'

def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
    checks, na = [], []
    for x in P:
        i = x['id']
        if i in NA: na.append(dict(property=i, reason=NA[i])); continue
        if not glob.glob(f'{V}/harness/{i}_*.c'):
            na.append(dict(property=i, reason='no check has been built for it yet')); continue
        checks.append(dict(property=i, quick_cmd=f'python3 run.py check {i} --tier quick', thorough_cmd=f'python3 run.py check {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=TECH.get(i, 'path-wise symbolic execution of the LLVM bitcode of the whole library with z3 deciding every branch, bound and assertion; counterexamples replayed natively'),
                           level='other', level_note=NOTE))
    json.dump(dict(version=1, setup_cmd='make -s -C engine -j4', checks=checks, not_applicable=na,
                   notes='No hooks: the checks compile /repo as it is. Properties and this file are generated by props.py; DESIGN.md explains the method.'), open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'not applicable')
main()
