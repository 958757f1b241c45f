# Source of properties.jsonl and of the per-property parts of MANIFEST.json (tools/gen.py).
GC='src/GenericContainer.cc'; HH='include/GenericContainer/GenericContainer.hh'
P=[]
def prop(id,title,statement,over,text,why,files,mech,note,technique):
    P.append(dict(id=id,title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,note=note,technique=technique))

prop('C01','Every way of storing a value gives back exactly that value',
 'Whatever value of any of the 21 supported kinds is stored in a container, by any of the equivalent ways the API offers (constructor, assignment, typed setter, element by element, from raw arrays, into a container that held something else), every accessor returns exactly that value: same kind, same element count, rows and columns, same bits. Storing replaces all that was there before.',
 ['inputs','histories'],'all values of all kinds, including empty vectors, empty matrices, extreme and non-finite numbers and arbitrary byte strings, and all ways to store and to read them',
 'The tests store a few literal values by one path and print them; the kinds x ways of storing x ways of reading x previous content product is never sampled.',
 [HH,GC],[('typed setters and assignment operators','src/GenericContainer.cc set_* and operator='),('tagged storage','include/GenericContainer/GenericContainer.hh m_data, m_data_type'),('views','src/GenericContainer.cc get_*')],
 'Generated trees of all kinds stored through randomly chosen equivalent calls and compared, accessor by accessor, with an independent value model under ASan/UBSan.','model-based property testing (value model, all storage paths x all accessors)')
prop('C02','Access of the wrong type, key or index is refused and changes nothing',
 'Asking a container for a kind it does not hold (and cannot be widened to), for a missing key through a read-only or checked access, or for an index outside the stored range throws an exception, never returns a fabricated value and never touches memory outside the stored data. A refused access, and every read-only access, leaves the container exactly as it was (a widening element access may already have widened the kind of its numbers when it finds the index out of range).',
 ['inputs','histories'],'all kinds of stored value x all accessors x all keys and indices, including indices at the end, far outside and near the unsigned limit',
 'Tests only exercise successful accesses and a couple of caught exceptions; the accessor x kind matrix has several hundred cells.',
 [HH,GC],[('type check','src/GenericContainer.cc ck()'),('range checks','src/GenericContainer.cc get_*_at, operator(), mat_type::operator()'),('checked map access','src/GenericContainer.cc operator()(string)')],
 'Every accessor is tried on every generated value and index; a reference table says refuse or value; contents compared before/after; ASan decides out-of-bounds.','model-based property testing (accessor x kind table, index fuzzing) under ASan')
prop('C03','Copies are complete, exact and independent',
 'Copying a container by construction, assignment, load/from/to or by handing over a part of its contents gives a container equal to the source at the time of the copy, including when source and target are the same container or one is a part of the other. Afterwards no change or destruction of either side is visible in the other.',
 ['histories'],'all histories of copies, partial copies, mutations and destructions among several containers, self and nested-alias copies included',
 'Tests copy once between distinct objects; aliasing and later mutation histories are not explored.',
 [GC,HH],[('deep copy','src/GenericContainer.cc from_gc'),('self-overlap protection','src/GenericContainer.cc from_gc'),('ownership','src/GenericContainer.cc clear, destructor')],
 'Histories over three containers and random node pairs against independent model trees, under ASan (use-after-free, double free).','stateful model-based testing (alias-aware copy histories) under ASan')
prop('C04','Comparison says equal exactly when the contents are equal',
 'Comparing two containers reports no difference exactly when they hold the same kind and the same values at every place of the tree, reports a difference for any single change anywhere, gives a verdict symmetric in its arguments, always ends, and changes neither container.',
 ['inputs'],'all pairs of value trees: equal by construction, differing in one place, unrelated',
 'The tests never compare containers that differ at depth or hold each of the kinds.',
 [GC],[('structural comparison','src/GenericContainer.cc compare_content')],
 'Pairs generated equal, with one mutation, or independent; verdict compared to the model, with a hang limit.','property testing with single-point mutation oracle')
prop('C05','Binary serialization round-trips and never leaves its buffer',
 'Serializing any container writes exactly the number of bytes it announces beforehand and reading them back, into an empty or a used container, gives an equal container and consumes exactly those bytes, so values can follow one another in a buffer. A vector of bytes is enlarged as needed; a buffer that is too small to write, or whose contents are truncated or damaged when read, is refused or gives some valid container; no byte outside the buffer is ever touched.',
 ['inputs','fault_sequences'],'all value trees, all buffer sizes from zero up, all truncation points, corrupted bytes',
 'The only test serializes one small tree with a buffer of the right size.',
 ['src/GenericContainerSerialize.cc'],[('announced size','src/GenericContainerSerialize.cc mem_size'),('writer','src/GenericContainerSerialize.cc serialize'),('reader','src/GenericContainerSerialize.cc de_serialize')],
 'Round trip, exact/short/long buffers in separate heap blocks, every truncation point of small values, random damage, under ASan/UBSan.','round-trip property testing with truncation and corruption faults under ASan')
prop('C10','Numbers convert exactly or are refused',
 'Reading a stored number, or a vector, matrix or list of numbers, as another numeric type gives the same number whenever the target type can hold it and is refused otherwise: never wrapped, truncated or saturated. Conditional reads report failure in that case and leave the result untouched, and no conversion changes the container.',
 ['inputs'],'all numbers of all stored kinds x all requested numeric types and converting accessors, in particular around the limits of the 32 and 64 bit signed and unsigned ranges',
 'Tests convert small positive integers only; wrap-around needs values beyond the limits of a type.',
 [GC,'src/GenericContainerPromote.cc'],[('range and integrality checks','src/GenericContainer.cc isInteger/isInRange, get_as_*, get_value'),('vector conversions','src/GenericContainerPromote.cc copyto_vec_*'),('conditional reads','src/GenericContainer.cc get_if_exists')],
 'Border-biased numbers through every converting accessor compared with an independent exact conversion; subnormals to integer and complex-with-zero-imaginary inside lists to real are left unspecified.','property testing against an exact reference conversion')
prop('C11','Widening and appending preserve every stored number',
 'Promoting a stored value to a wider scalar, vector, matrix or list, appending to it, or storing an element past its end keeps every value already stored, in order and position, exactly (integers that become reals are rounded to the nearest). A promotion to a narrower kind is refused and leaves the container as it was.',
 ['histories'],'all sequences of promotions, appends and element stores on all stored kinds',
 'Tests push a few values onto one kind; order-dependent promotion chains are not explored.',
 ['src/GenericContainerPromote.cc',GC],[('promotions','src/GenericContainerPromote.cc promote_to_*'),('appends','src/GenericContainer.cc push_*'),('growing element access','src/GenericContainer.cc get_*_at')],
 'Histories of promotions/pushes/element stores compared with a reference widening model after every step.','stateful model-based testing')
prop('C12','Unifying lists keeps every value and its position',
 'Collapsing a container turns lists of numbers into the vector, and lists of equally long numeric vectors into the matrix, of the widest number kind among them, and lists of strings into a string vector, with every value unchanged and in its place; every other list, map or value is left as it is. It never fails, and doing it twice is the same as once.',
 ['inputs'],'all value trees, in particular lists mixing numeric widths, lengths, strings, pointers, empty and nested values',
 'The tests only collapse a handful of homogeneous JSON/YAML arrays.',
 ['src/GenericContainerCollapse.cc'],[('unification','src/GenericContainerCollapse.cc collapse')],
 'Unifiable and nearly unifiable trees compared with a reference unification; lists mixing one-element vectors with plain numbers may or may not unify.','property testing against a reference unification')
prop('C13','A map behaves as a map under every history of keyed operations',
 'Storing, erasing, touching, merging and looking up keys, whether by one key, by alternative keys in order of preference, or along a path, always agrees with an ordinary ordered map from byte-string keys to values: a key is found exactly when present, with its whole length significant, and the value found is the one last stored. Merging overwrites key by key and descends into maps present on both sides, keeping all else.',
 ['histories'],'all histories of keyed operations at any depth, over keys that are empty, contain NUL bytes, prefix one another or are views into longer text',
 'Tests look up a few plain literal keys; prefixes, NULs, non-terminated views, merge conflicts and self-merge never occur.',
 [GC,HH],[('lookup','src/GenericContainer.cc operator[], operator(), exists, must_exists'),('conditional and typed lookups','src/GenericContainer.cc get_if_exists, get_map_*'),('merge','src/GenericContainer.cc merge')],
 'Stateful histories against nested std::map, whole tree compared after each step.','stateful model-based testing (reference map)')
prop('C14','Matrix elements stay where they were put',
 'An element stored at a row and column of a matrix is the one returned for that row and column by every access (by index, by row, by column, flat column-major, by pointer), and indices outside the shape are refused. Copying numbers, vectors, matrices or lists of columns into a matrix of any element type gives the same numbers in the same places or is refused.',
 ['inputs','histories'],'all shapes including empty ones, all element types, all indices, all sources convertible or not to a matrix',
 'Tests use one square-ish real matrix; transposition and stride errors and out-of-range indices that alias other elements do not show.',
 [HH,GC,'src/GenericContainerPromote.cc'],[('matrix type','include/GenericContainer/GenericContainer.hh mat_type'),('row/column extraction','src/GenericContainer.cc get_row/get_column'),('copies','src/GenericContainerPromote.cc copyto_mat_*')],
 'Matrix histories with all read paths cross-checked, plus conversions against a reference; ASan for bounds.','model-based property testing under ASan')

prop('C06','JSON output is valid JSON that holds exactly the stored value',
 'For every container whose numbers are finite, the text written as JSON is one valid JSON document, whatever the strings and keys contain, however deep or empty the lists and maps are, and whatever indentation prefix and stream precision are used. Read by any JSON reader it has the structure of the container: the same keys, element counts, strings, booleans and nulls, every integer exactly, every real to the precision of the stream, complex numbers and pointers as strings, matrices as lists of columns. Reading it back with the library gives the corresponding container, and writing does not change the container.',
 ['inputs'],'all value trees with finite numbers and valid UTF-8 strings, all stream precisions and prefixes',
 'Tests print a few documents for eyes to read; nothing parses them, and quotes, control characters, empty or pointer values never occur in them.',
 ['src_json_interface/to_json.cc',GC,'src_json_interface/from_json.cc'],[('writer','src_json_interface/to_json.cc to_json'),('string escapes','src/GenericContainer.cc string_escape'),('complex as text','src/GenericContainer.cc to_string(complex_type)')],
 'The text is parsed by an independent strict JSON parser and compared node by node with the value model, then read back with both readers of the library.','round-trip and differential property testing against an independent JSON parser')
prop('C07','The JSON readers accept exactly JSON and store what it says',
 'Reading any valid JSON document succeeds and stores exactly what the document says: same structure and keys, strings with every escape decoded, integers as int or long when they fit and as the nearest real otherwise, reals correctly rounded, lists unified as by collapse, nothing of the previous contents remaining. Reading anything else reports failure, without throwing, and leaves the container as it was. The second reader (from_json2) may also accept lexical extensions such as leading zeros, a plus sign or raw control characters in strings, but is otherwise held to the same.',
 ['inputs','fault_sequences'],'all texts: all valid documents and all truncated, edited or damaged ones, read into empty and used containers',
 'Tests read three well-formed files; the input space of a parser (escapes, number forms, white space, malformed text) is never sampled.',
 ['src_json_interface/from_json.cc','src_json_interface/from_json2.cc','src_json_interface/jsonLexer.cc','src_json_interface/jsonParser.yy'],[('conversion of the document','src_json_interface/from_json.cc decode_json'),('lexer','src_json_interface/jsonLexer.cc yylex'),('grammar actions','src_json_interface/jsonParser.yy GenericContainerWrapper')],
 'Grammar-generated and edited texts classified and valued by an independent strict parser (and a relaxed one for the extensions); repeated keys, lone surrogates, broken UTF-8, numbers beyond double, empty text are unspecified beyond safety.','grammar-based fuzzing with a differential reference parser')

prop('C08','YAML output read back gives the stored value',
 'For every container (strings and keys valid UTF-8 text), the text written as YAML, whatever the prefix, stream precision and stream flags, is read back by the library as the same structure: same keys, counts, strings (also those that look like numbers, booleans, nulls, comments or directives), booleans, nulls, integers exactly, reals to the precision of the stream and infinities and NaN as such. Writing changes neither the container nor the state of the stream; nothing of the previous contents of the container read into remains.',
 ['inputs'],'all value trees, all UTF-8 strings and keys including empty, multi-line and YAML-looking ones, all depths of nesting, empty lists and maps, all stream precisions',
 'Tests print YAML of two documents; strings that need quoting, empty and nested collections, and the round trip are not checked.',
 ['src_yaml_interface/to_yaml.cc','src_yaml_interface/from_yaml.cc'],[('writer','src_yaml_interface/to_yaml.cc to_yaml'),('reader','src_yaml_interface/from_yaml.cc from_yaml')],
 'Random trees written and read back, compared with the value model after the documented mapping (complex and pointers as text, matrices as lists of columns).','round-trip property testing against a value model')
prop('C09','TOML output and documents carry exactly the stored value',
 'For every map (null entries apart, which are omitted) to_toml succeeds and from_toml of its output gives the same keys, strings, booleans, integers exactly, reals bit for bit, complex numbers as pairs and matrices as tables with their rows, columns and data; a list with an empty element, which TOML cannot express, is reported. Any valid TOML document, in whatever style its strings, numbers, tables and arrays are written, is read as what it says, replacing previous contents; a malformed one is refused without changing the container. A file that cannot be opened is reported as a failure.',
 ['inputs','fault_sequences'],'all maps of values of all kinds; all documents over the styles of TOML (bare, quoted, dotted keys, string and number forms, tables, arrays of tables, inline tables, comments, dates)',
 'One test prints and reads a fixed document without comparing.',
 ['src_toml_interface/to_toml.cc','src_toml_interface/from_toml.cc'],[('writer','src_toml_interface/to_toml.cc to_toml'),('reader','src_toml_interface/from_toml.cc from_toml')],
 'Round trip of random maps, plus documents emitted by an independent TOML emitter in random styles, compared with the value model; malformed lines must be refused. The kind of an empty array is unspecified.','round-trip and grammar-based property testing against a value model')
prop('C21','YAML documents are read as they say, whatever their style',
 'A YAML document written with any mixture of block and flow collections, plain, quoted, literal and folded scalars over one or several lines, anchors and aliases, tags, explicit keys, comments, a leading document marker and indentation, in UTF-8, UTF-16 or UTF-32, is read into the structure it denotes: plain scalars are typed by the YAML core rules (null, booleans, integers, reals, else strings), quoted ones are strings, integers beyond 32 bits become long, lists unify as by collapse. Nothing of the previous contents remains. A file that cannot be opened is reported as a failure.',
 ['inputs'],'all documents of the generated style grammar (nulls written out) over all value trees',
 'Tests read two hand-written files and print them.',
 ['src_yaml_interface/from_yaml.cc'],[('reader','src_yaml_interface/from_yaml.cc from_yaml'),('scalar typing','src_yaml_interface/from_yaml.cc')],
 'Documents produced by an independent YAML emitter in random styles, result compared with the value model.','grammar-based property testing against a value model')

prop('C15','Tables of numbers keep every number in its row and column',
 'A table (headers and columns of numbers, or a real matrix) written as delimited text or as formatted table has one header line and one line per row, with every number, to the precision of the stream, in its row under its header; the container and the stream format are unchanged, and headers and columns that do not match are never read out of bounds. Reading a text table, by position or by column name, gives exactly the headers and, per column, the numbers of all data rows in order: lines beginning with a comment character are skipped (parameters in them are collected), other lines never are, the last line counts once with or without final newline, a carriage return at the end of a line counts for nothing when it is a delimiter or follows one, nothing of a previous table remains, and a row of the wrong length is refused.',
 ['inputs'],'all tables, delimiters and comment characters, comments anywhere, header names containing comment characters, with and without final newline, into empty and used containers',
 'One test reads one file and prints it.',
 ['src/GenericContainerSupport.cc','src/GenericContainerTables.cc'],[('readers','src/GenericContainerSupport.cc read_formatted_data, read_formatted_data2'),('tokenizer','src/GenericContainerSupport.cc tokenizeString'),('writers','src/GenericContainerTables.cc write_table, write_table_formatted')],
 'Generated text tables read and compared with the model; generated tables written, parsed independently and read back. Blank lines inside a table and tokens that are no numbers are unspecified.','round-trip and model-based property testing')
prop('C16','The C interface gives C programs the same container, by return codes',
 'Any history of calls of the C interface over named containers behaves as the documented operations on the selected container at its head: stores replace the whole element, appends and positions act as in C++, reading returns the stored value and never changes anything, visiting the keys gives each key once and then NULL, containers with different names are independent. Calls that cannot be carried out (nothing selected, deleted container, head moved beyond the root, wrong kind, position out of range, negative size) return an error code or a neutral value: no C++ exception reaches the caller and no invalid memory is touched.',
 ['histories'],'all histories of calls over several containers, mixed with access from C++ through the memory pointer',
 'One C program stores a fixed tree and dumps it; getters, deletion, key visits and error paths are never run.',
 ['src/GenericContainerInterface_C.cc','include/GenericContainer/GenericContainerInterface_C.h'],[('explorer','src/GenericContainerInterface_C.cc GenericContainerExplorer'),('registry','src/GenericContainerInterface_C.cc gc_explorer, gc_active'),('error codes','src/GenericContainerInterface_C.cc GC_TRY')],
 'Stateful histories against a model of the registry, heads and trees; all containers compared after every call; ASan.','stateful model-based testing under ASan')
prop('C17','Values exchanged with Lua are the same on both sides',
 'A container of booleans, numbers, strings, vectors of them, lists and maps stored as a Lua variable is, seen from Lua, the table with exactly those values (integers as integers, reals as floats, strings and keys with all their bytes), and a Lua value or function result made of such values, however the table was written, is read as exactly those values, a list of numbers as a vector of numbers; in a list of integers and reals the integers may become the nearest reals, and a real without fraction may be read as integer. An element of a list that holds nothing is nil in Lua, and in both directions the elements after it keep their positions; failing Lua code, missing variables, functions as values, tables whose numeric keys are not positions and tables that contain themselves are refused by an exception. In any history of exchanges, long or failing, the interpreter goes on working and the Lua stack of the caller is left as it was.',
 ['histories','inputs'],'all values of the exchangeable kinds, all ways of writing them in Lua, all histories of exchanges, calls and failures on an interpreter or on a state of the caller',
 'Three programs run fixed scripts and print; long histories, integers beyond 2^53, NULs, vectors of bool, mixed lists and failures are not compared.',
 ['src_lua_interface/GenericContainerInterface_lua.cc'],[('to Lua','src_lua_interface/GenericContainerInterface_lua.cc GC_to_lua'),('from Lua','src_lua_interface/GenericContainerInterface_lua.cc lua_table_to_GC, push_vec_element, push_hash_element'),('interpreter','src_lua_interface/GenericContainerInterface_lua.cc LuaInterpreter')],
 'Histories against a model of the globals; containers stored are inspected through the Lua API alone, Lua text is emitted by an independent writer; Lua is compiled with ASan and its API checks. Empty tables, what fills the positions that are nil in Lua, tables with both keys and positions and kinds Lua cannot hold (complex, matrices, pointers) are unspecified.','stateful model-based testing under ASan and Lua API checks')
prop('C20','Printing shows every value and changes nothing',
 'print/dump writes every stored value once, in order, each labelled by its position or key and in full (numbers in the format of the stream, strings with all their bytes, complex numbers with both parts whatever they are, matrices row by row), nested parts with one more indent of the caller per level and the prefix of the caller before each label; a key that is a title (digits, then # and dashes) is shown as its underlined title. print_content_types and info tell the kind and the size of what is stored. The container is unchanged, and so is the format of the stream.',
 ['inputs'],'all containers of all kinds and nestings, all prefixes and indents, streams with any precision and flags',
 'Tests print fixed containers to the terminal; nothing compares the text.',
 ['src/GenericContainer.cc'],[('dump','src/GenericContainer.cc dump'),('content types','src/GenericContainer.cc print_content_types'),('info','src/GenericContainer.cc info')],
 'Random containers printed with random prefix, indent and stream format; the text is compared with an independent rendering of the value model.','property testing against a reference printer')
prop('C18','Everything a container holds stays valid and is released exactly once',
 'In any history of operations of the whole interface on containers and their parts (storing, copying, merging, promoting, appending, collapsing, resizing, erasing, clearing, serializing, reading and writing text), including operations that are refused by an exception and readings of damaged data, no freed or foreign memory is touched, what is stored can always be read completely and copied, and when the containers are destroyed or cleared all memory allocated by them has been released exactly once.',
 ['histories','fault_sequences'],'all histories of operations on all parts of several containers, failing operations and damaged inputs included',
 'Tests run straight-line programs without refused operations and without looking at memory.',
 ['src/GenericContainer.cc','src/GenericContainerPromote.cc','src/GenericContainerCollapse.cc','src/GenericContainerSerialize.cc'],[('clear','src/GenericContainer.cc clear'),('allocation','src/GenericContainer.cc allocate_*'),('promotion','src/GenericContainerPromote.cc'),('copy','src/GenericContainer.cc from_gc')],
 'Random histories over the whole interface under ASan; containers read and copied after each step; allocated bytes compared before and after each history.','stateful property testing under ASan with allocation accounting')
prop('C19','Running out of memory never corrupts a container',
 'When an allocation fails in the middle of any storing, copying, merging, indexing, promoting, appending, collapsing, resizing or (de)serializing operation, the exception reaches the caller and every container stays valid: it can be read completely (a matrix has as many elements as its shape says), copied, written again and destroyed, containers that were not the target keep their contents, and no memory is lost or released twice.',
 ['fault_sequences','histories'],'every allocation of every operation failing, on all parts of containers with any contents, repeatedly',
 'Tests never make an allocation fail.',
 ['src/GenericContainer.cc','src/GenericContainerPromote.cc','include/GenericContainer/GenericContainer.hh'],[('allocation','src/GenericContainer.cc allocate_*, set_complex'),('promotion','src/GenericContainerPromote.cc promote_to_*'),('matrix resize','include/GenericContainer/GenericContainer.hh mat_type::resize'),('constructors','include/GenericContainer/GenericContainer.hh')],
 'Operator new is replaced to fail at the chosen allocation; histories of operations on random trees; containers read, copied, rewritten and destroyed afterwards; ASan and allocation accounting.','fault injection over generated histories under ASan')

prop('C22','Threads can use different containers, and read one container, at the same time',
 'Threads that each work on containers of their own, through the whole C++ interface (storing, converting, promoting, printing, serializing, reading and writing JSON, YAML, TOML and tables), do not influence one another: there is no unordered access to common memory, and each gets exactly the results it gets alone. Any number of threads may at the same time look at one container through its read-only interface, copy it, compare it, print it and write it in any format; each sees all of it and it does not change.',
 ['schedules','histories'],'all programs of several threads on containers of their own and on the read-only interface of common ones, in every interleaving',
 'All tests have one thread.',
 [GC,'src/GenericContainerSupport.cc','src_json_interface/to_json.cc','src_yaml_interface/from_yaml.cc'],[('state per call','src/*.cc, src_*_interface/*.cc: no static or global variable that is written'),('read-only access','include/GenericContainer/GenericContainer.hh const members')],
 'Generated programs of 2 to 4 threads run alone and then at once under ThreadSanitizer, whose happens-before analysis reports unordered accesses whatever the actual schedule; accounts compared.','generated concurrent programs under ThreadSanitizer, compared with sequential runs')
prop('C23','Every reader survives every text, and reads it the same by every route',
 'Whatever bytes are given to a reader (from_json, from_json2, from_yaml, from_toml and their string, stream and file functions, the text tables, de_serialize), it returns after a time in proportion: with the contents, or with a refusal (false, or an exception from the tables and de_serialize), without touching invalid memory or losing any. The same bytes give the same outcome whether they come as a string, a file or a stream that gives them in pieces, and whatever the container held. A refused text leaves the container as it was (from_*) or empty (the functions that clear it first), and what was read is a container like any other.',
 ['inputs'],'all byte strings: random, sequences of tokens, damaged, truncated, nested and re-encoded documents of every format',
 'Tests read a few well-formed files.',
 ['src_json_interface/from_json.cc','src_json_interface/from_json2.cc','src_yaml_interface/from_yaml.cc','src_toml_interface/from_toml.cc','src/GenericContainerSupport.cc','src/GenericContainerSerialize.cc'],[('error handling of the readers','src_json_interface/from_json.cc, src_yaml_interface/from_yaml.cc, src_toml_interface/from_toml.cc'),('bundled YAML reader','src_yaml_interface/fkYAML/detail/input'),('lexers','src_json_interface/jsonLexer.cc')],
 'Token sequences, damaged documents, nestings, re-encodings; two routes per text compared; ASan, UBSan, CPU limit per case, allocation accounting. Nesting beyond 150 levels and expansions of aliases by powers are not searched.','grammar-aware fuzzing with a differential oracle over the routes, under ASan')
prop('C24','MATLAB arrays and containers carry the same data both ways',
 'mxArray_to_GenericContainer gives a container with exactly what the array holds: logicals, numbers of every integer and floating class (real or complex), texts, sparse matrices (as a map of their compressed columns: jc, ir, values), cells and structs in any nesting, scalars as scalars, rows as vectors, other matrices with their shape and every element at its row and column, whatever the container held before. GenericContainer_to_mxArray and to_mxArray give an array that says element by element what the container says (vectors as rows, maps as structs with the keys as fields, lists as cells, empty ones included), print nothing, and reading the array back gives the same data up to the kinds MATLAB does not distinguish. No memory outside the arrays and texts is touched, and mexPrint shows exactly what print writes.',
 ['inputs'],'all arrays and all containers of all classes, shapes and nestings',
 'The interface is not compiled by the tests: it needs MATLAB.',
 ['src_matlab_interface/GenericContainerInterface_matlab.cc','include/GenericContainer/GenericContainerInterface_matlab.hh'],[('arrays to containers','src_matlab_interface/GenericContainerInterface_matlab.cc mxArray_to_GenericContainer'),('containers to arrays','src_matlab_interface/GenericContainerInterface_matlab.cc GenericContainer_to_mxArray, to_mxArray')],
 'The interface is compiled against a stand-in of the MATLAB C matrix API that keeps arrays in blocks of their exact size; random arrays and containers, compared with the value model through the API, under ASan.','property testing against a model of the MATLAB matrix API')
prop('C25','Ruby values and containers carry the same data both ways',
 'After load of a Ruby value (true, false, nil, integers of 32 bits, floats, strings, symbols, lists, hashes, in any nesting) the container holds exactly that value: booleans, integers, reals and texts as such, lists of one kind as vectors of it, lists of integers and reals as vectors of reals, other lists as lists, hashes as maps under the text of their keys; and get_data gives it back, with keys as symbols, symbols as texts, and texts in UTF-8. get_data gives all data of containers filled in C++ too, for every kind the interface manages, each element and matrix entry at its place. Containers do not influence one another, whatever the order in which they are loaded, read and collected; a value that cannot be held raises and leaves the container and the others usable.',
 ['inputs','histories'],'all Ruby values of the named classes, all containers of the kinds get_data manages, several containers used in turn, refused values included',
 'The Ruby interface has no test that passes (its script fails on the first integer).',
 ['src_ruby_interface/GenericContainer_ffi.rb','src/GenericContainerInterface_C.cc'],[('Ruby to container','src_ruby_interface/GenericContainer_ffi.rb GC_from_hash, addToVector, fromVector, fromMixedHash'),('container to Ruby','src_ruby_interface/GenericContainer_ffi.rb GC_to_hash, to*'),('head and registry','src/GenericContainerInterface_C.cc')],
 'A Ruby harness loads generated values through the real FFI module and library; containers inspected and built through C++; a process that dies counts as a failure. No sanitizers in the Ruby process (C16 covers the C functions under ASan).','property testing in Ruby against a value model, choice-sequence shrinking')
