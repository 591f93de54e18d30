import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**k):
    a={"files":files,"mechanism":mech}; a.update(k)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
p("C01","Entity data survives a save and reload",
 "For every kind of drawing entity, every file version that supports that kind and every assignment of values to its public fields, saving the drawing as text and loading the result yields an entity of the same kind in the same position whose every field that the version can carry has the value that was saved. Fields the version cannot carry come back with their default value, and no other field is disturbed.",
 ["inputs","configurations"],"all entity kinds x all file versions x all field assignments",
 "Tests sample a few kinds at one or two versions with one value per field; the guarantee is over the product of kinds, versions, fields and values.",
 ["src/entity.rs","build/entity_generator.rs","spec/EntitiesSpec.xml","src/enums.rs","src/helper_functions.rs"],"generated and hand written entity readers and writers")
p("C02","Table entries, blocks and classes survive a save and reload",
 "For every file version and every assignment of values to public fields, each symbol-table entry (application ids, block records, dimension styles, layers, line types, text styles, coordinate systems, views, view ports), each block with its contents, and each class survives being saved as text and loaded again: same number of entries, and every field the version can carry has the value that was saved. Entries of one table never appear in, or overwrite, another.",
 ["inputs","configurations"],"all table kinds, blocks and classes x all versions x all field assignments",
 "Tests read or write single entries with one or two fields set.",
 ["build/table_generator.rs","spec/TableSpec.xml","src/table.rs","src/block.rs","src/class.rs"],"generated table readers/writers; hand written block and class code")
p("C03","Non-graphical objects survive a save and reload",
 "For every kind of non-graphical object, every file version that supports it and every assignment of values to its public fields, saving the drawing as text and loading the result yields an object of the same kind whose every field that the version can carry has the value that was saved. Objects are never written to versions that have no objects section.",
 ["inputs","configurations"],"all object kinds x versions x field assignments",
 "Tests cover a handful of the 41 object kinds.",
 ["src/object.rs","build/object_generator.rs","spec/ObjectsSpec.xml","src/section_geometry_settings.rs","src/section_type_settings.rs","src/table_cell_style.rs","src/transformation_matrix.rs"],"generated and custom object readers and writers")
p("C04","Header variables survive a save and reload",
 "For every file version and every assignment of values to the drawing's header settings, saving as text and loading the result gives back every setting that version can carry with the value that was saved, and leaves every other setting at its default. The file version itself is always preserved.",
 ["inputs","configurations"],"all header settings x versions x values",
 "Tests check a few of about 285 variables.",
 ["src/header.rs","build/header_generator.rs","spec/HeaderVariablesSpec.xml","src/helper_functions.rs"],"generated header reader/writer with per-variable version ranges")
p("C05","Saved files contain only what the target version defines",
 "Whatever the drawing holds, a saved file consists of the sections, tables, records and group codes defined for the file version chosen: sections come in the fixed order, properly opened and closed, ending with the end-of-file marker; each record carries its type name, subclass markers and group codes as documented for that version; and entities, objects, settings, tables or fields outside their version range are left out completely. Handles are written exactly when the version requires them or the drawing enables them.",
 ["inputs","configurations"],"all drawings x all versions",
 "Tests assert that a few pairs are contained in the output, not that nothing else is, nor for every version.",
 ["src/drawing.rs","src/entity.rs","src/object.rs","src/header.rs","build/entity_generator.rs","build/object_generator.rs","build/table_generator.rs"],"version predicates in writers; section order in Drawing::code pair generation")
p("C06","Text and binary forms carry the same drawing",
 "For every drawing and file version, saving as binary and loading gives the same drawing as saving as text and loading, for every kind of value that can be stored. The binary form uses the framing its version defines, and a file is recognised as text, binary or DXB from its content alone.",
 ["inputs","configurations"],"all drawings x versions x value types",
 "Tests read one hand made binary file per framing; no test compares the two forms.",
 ["src/code_pair_writer.rs","src/code_pair_iter.rs","src/expected_type.rs","src/drawing.rs"],"code pair writer/iterators with binary framing per version")
p("C07","Every string survives a save and reload",
 "Any string that contains no line break, including empty strings, leading or trailing blanks, backslashes, carets, control characters and any non-ASCII character, stored in any text field, is returned unchanged after saving and loading, in every file version. In versions before 2007 the text file itself contains only ASCII characters.",
 ["inputs","configurations"],"all strings x versions x fields",
 "The tests use a few strings; escape sequences interact (an escape next to another escape, or at the end of the string).",
 ["src/code_pair_value.rs","src/code_pair_writer.rs","src/code_pair_iter.rs"],"control character escaping and unicode escaping in the text reader and writer")
p("C08","Numbers, booleans and dates survive a save and reload",
 "Every value of every numeric type (16, 32 and 64 bit integers over their full range, booleans, byte strings, handles) is returned exactly after saving and loading, and every finite floating point value is returned to at least 12 decimal places for ordinary magnitudes. Dates from 1900 on and durations come back to within a second. A byte string longer than the binary form can hold in one piece is written in several.",
 ["inputs","configurations"],"all values of every scalar type x text/binary",
 "Tests check isolated values.",
 ["src/code_pair_value.rs","src/code_pair_iter.rs","src/code_pair_writer.rs","src/helper_functions.rs","src/expected_type.rs","src/handle.rs"],"value formatting and parsing by group code type")
p("C09","Every item gets its own nonzero handle",
 "At every point of every history of adding, removing, clearing, loading and saving, all items held by a drawing that was built through the public interface, including the vertices, attributes and end markers of compound entities, have nonzero and mutually different handles, and every later added item gets a handle different from all of those. Adding an item that came from a drawing never reuses a handle that is in use.",
 ["histories"],"all histories of public operations",
 "Uniqueness is a property of histories (add, remove, clear, load, add again); tests look at one or two adds.",
 ["src/drawing.rs","src/handle.rs","src/drawing_item.rs","src/entity.rs"],"next handle counter; handle assignment in add operations and on load")
p("C10","Adding or saving items brings in everything they refer to",
 "After any sequence of additions, every layer, line type, text style, dimension style, multi-line style, view and block record that an added entity, block, layer or object refers to by name exists in the drawing exactly once (names compared as the drawing compares them), without altering entries already present. The item itself is stored unchanged apart from its handle and the handles of its parts, and is the one returned. (The text attached to an attribute is not looked into.)",
 ["histories","inputs"],"all add sequences and reference combinations",
 "Tests add one entity at a time to an empty drawing.",
 ["src/drawing.rs"],"ensure_* helpers called by the add operations")
p("C11","Normalizing yields a complete, sorted drawing, and is stable",
 "After normalizing any drawing, all mandatory table entries exist, every table is sorted by name, the current layer of the header and every layer, line type, style and coordinate system name that blocks, entities, objects and tables refer to has an entry, and out-of-range values have been replaced by their defaults while all other values and all items are kept. Normalizing again changes nothing.",
 ["histories","inputs"],"all drawings",
 "Tests normalize an empty drawing and check single entries.",
 ["src/drawing.rs","src/header.rs","src/block.rs","src/entity.rs","src/table.rs","src/object.rs","src/helper_functions.rs"],"Drawing::normalize and the per item normalize functions")
p("C12","Handles and references resolve to the right item",
 "Looking up the handle of any item in a drawing returns that item, unknown and zero handles return nothing, and a reference set from one item to another resolves to that same item, before and after saving and loading, as long as the target is present. A reference never resolves to an item of another kind than the one asked for.",
 ["histories","inputs"],"all drawings, all reference kinds, all add/remove/save/load histories",
 "Tests resolve two or three references.",
 ["src/drawing.rs","src/drawing_item.rs","build/xml_helpers.rs","build/entity_generator.rs","build/object_generator.rs"],"item_by_handle and generated pointer accessors")
p("C13","Collections behave as ordered lists under editing",
 "Each collection of a drawing behaves like a list under every history of operations: additions go to the end, removal by position returns exactly the item at that position and shifts only later items, removal out of range returns nothing and changes nothing, iteration yields the items in order, in-place edits are kept, and clearing empties every collection and restores the initial state. Operations on one collection never change another, apart from the entries required by references.",
 ["histories"],"all histories over all 13 collections",
 "Tests remove from one or two collections.",
 ["src/drawing.rs"],"add/remove/iterate/clear operations")
p("C14","Loading keeps known content whatever surrounds it",
 "Sections in any order, repeated, empty or unknown, unknown tables, entities, objects, header variables, group codes and comments are skipped without disturbing anything else: the loaded drawing equals the one loaded from the same input with the unknown content removed. Line ending style, blanks around group codes and numbers, and a decimal point in a 16 bit integer make no difference. A repeated header section replaces the earlier one; repeated sections of other kinds add up.",
 ["inputs"],"all interleavings of known and unknown content",
 "Tests put one unknown item at a time in one position.",
 ["src/drawing.rs","src/code_pair_put_back.rs","src/entity_iter.rs","src/object_iter.rs","src/block.rs","build/table_generator.rs","src/header.rs","src/class.rs"],"section and record dispatch loops with put back")
p("C15","Any input yields a drawing or an error, never a crash or a hang",
 "Loading any sequence of bytes as text, binary or DXB terminates with either a drawing or an error, using time and memory in proportion to the input, and never panics. Saving whatever was loaded does not panic either.",
 ["inputs","fault_sequences"],"all byte strings and all code pair sequences",
 "Tests feed well formed files plus a few malformed ones.",
 ["src/drawing.rs","src/code_pair_iter.rs","src/code_pair_value.rs","src/entity.rs","src/object.rs","src/block.rs","src/thumbnail.rs","src/x_data.rs","src/extension_data.rs","src/dxb_reader.rs","src/helper_functions.rs"],"all readers")
p("C16","Malformed structure and values are reported, not swallowed",
 "When the input breaks the file grammar (a section, table, group or record not opened or closed as required, a value that does not parse as the type its group code demands, an end of input in the middle of a section or of a code/value pair) loading reports an error instead of silently returning a drawing with content missing. An error that names a position names the line of the offending group code or value. Input that follows the grammar is always accepted; the input may also simply end between sections.",
 ["inputs","fault_sequences"],"all single and double grammar violations of otherwise valid files",
 "Tests contain a few malformed files.",
 ["src/drawing.rs","src/entity_iter.rs","src/object_iter.rs","src/code_pair_value.rs","src/code_pair_iter.rs","src/header.rs","src/x_data.rs","src/extension_data.rs"],"error returns in section readers")
p("C17","Compound entities keep their parts together",
 "A polyline keeps its vertices, an insert its attributes, and an attribute its attached text, in order, through every save and load at every version, wherever the compound entity occurs (top level or inside a block) and whatever follows it; the parts never leak out as separate entities and following entities are never absorbed. A polyline or insert without parts, or without its end marker, still loads.",
 ["inputs","configurations"],"all sequences of compound and simple entities x versions",
 "Tests contain single polylines and inserts, not their combinations.",
 ["src/entity_iter.rs","src/entity.rs","src/block.rs","src/drawing.rs"],"gathering loops in the entity iterator and post writers")
p("C18","Extended data and extension groups survive a save and reload",
 "Application data attached to any item, both extended data (all value kinds, nested lists to any depth) and extension groups (nested to any depth), is returned unchanged, in order and attached to the same item, after saving and loading in the versions that carry it, and is absent from the others. It never changes the item's own fields. Extension groups without items are not written; nesting beyond 256 levels in a file is an error.",
 ["inputs","configurations"],"all trees of data x item kinds x versions",
 "Tests use one flat group and one nested list.",
 ["src/x_data.rs","src/extension_data.rs","src/entity.rs","src/object.rs","build/table_generator.rs","src/block.rs"],"XData and ExtensionGroup readers and writers")
p("C19","Preview images survive a save and reload",
 "A drawing's preview image of any size, in gray, RGB or RGBA, is returned pixel for pixel after saving (text or binary) and loading in the versions that carry it, is absent from the others, and a file without one loads without one. Previews that other programs wrote as device independent bitmaps (any of the usual header sizes, 1 to 32 bits per pixel, palettes of stated or unstated length) are read with every pixel in place.",
 ["inputs","configurations"],"all image sizes and contents x versions",
 "Tests use one tiny image.",
 ["src/thumbnail.rs","src/drawing.rs"],"thumbnail section reader and writer")
p("C20","Reading a DXB file yields the drawing its records describe",
 "For every well formed sequence of DXB records, including mode, scale factor, layer, color, line and trace extension, polyline, vertex, bulge, width and block base records in any order, loading yields exactly the entities these records describe, with the coordinates, layers and colors in force when each was read. The scale factor applies to integer coordinates only; integer angles are in millionths of a degree and integer bulges in 1/65536. A block base is allowed once, before any entity; bulge and width records directly after a vertex. A truncated or unknown record is an error.",
 ["inputs"],"all record sequences",
 "Tests read one record sequence in each number mode.",
 ["src/dxb_reader.rs","src/dxb_item_type.rs","src/drawing.rs"],"DXB record loop and its current layer/color/mode/last point state")
p("C21","Drawings saved as DXB read back as the same geometry",
 "For every drawing whose entities DXB can represent, saving as DXB and loading the result yields the same entities in the same order with the same geometry (within single precision, and flat where DXB is flat), layer and color; a drawing without entities is saved as its first block; entities DXB cannot represent are left out without affecting the others, and characters of layer names beyond Latin-1 become question marks.",
 ["inputs"],"all drawings of DXB-representable entities",
 "Tests write single entities and compare bytes.",
 ["src/dxb_writer.rs","src/dxb_reader.rs","src/drawing.rs"],"DXB writer and reader")
p("C22","Input and output failures are always reported",
 "If the reader or writer handed to the library, or the file it opens, fails at any point, the operation reports an error; it never reports success for output that was not completely written, and never returns a drawing from input that could not be completely read. How the data is split into individual reads and writes, including interrupted ones, makes no difference to the result.",
 ["fault_sequences","inputs"],"every fault position x every operation x every chunking",
 "Tests use in-memory buffers that never fail.",
 ["src/drawing.rs","src/code_pair_writer.rs","src/code_pair_iter.rs","src/dxb_reader.rs","src/dxb_writer.rs","src/helper_functions.rs"],"propagation of io errors; buffered file writing")
p("C23","Text is decoded with the right encoding",
 "A file's strings, in text and binary form, are decoded with the encoding the caller names for older versions and as UTF-8 for version 2007 and later, from the point where the version is known, with or without a byte order mark; ASCII content reads the same under every ASCII-compatible encoding, and \\U+XXXX stands for that character in files before version 2007 whatever the encoding. Bytes that are malformed in the encoding are an error. The encoding never affects anything but strings.",
 ["inputs","configurations"],"all encodings x versions x strings",
 "One test with one code page.",
 ["src/drawing.rs","src/code_pair_iter.rs","src/header.rs","src/helper_functions.rs"],"encoding switch on reading the version header variable")
p("C24","Saving is deterministic and reaches a fixed point",
 "Saving the same drawing twice gives identical bytes and does not change the drawing. For any drawing, load(save(d)) saved again at the same version gives the same file as the first save, up to the values a save is documented to renew, in text and binary form.",
 ["histories","inputs"],"all drawings x versions x repeated save/load cycles",
 "No test saves more than once.",
 ["src/drawing.rs","src/object.rs","src/header.rs"],"ordered serialisation of maps and tables")
p("C25","Flag accessors read and change exactly their own bit",
 "For every flag-style property and every value of the underlying word, reading tells whether that flag's bit is set, setting makes exactly that bit equal to the given value, and all other bits and properties stay as they were. Distinct flags of one word are independent, as are the two halves of words that hold two values. Colors and line weights report the special meanings (by layer, by block, off, standard) exactly for the values that stand for them.",
 ["inputs"],"all flags x all words",
 "No test sets a flag when other bits are set and clears it.",
 ["build/entity_generator.rs","build/object_generator.rs","build/header_generator.rs","spec/EntitiesSpec.xml","spec/ObjectsSpec.xml","spec/HeaderVariablesSpec.xml","src/entity.rs","src/enums.rs"],"generated flag getters and setters, hand written ones in entity.rs")
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(q)+'\n' for q in P))
