#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that it stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,quant,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":quant},"why_tests_cant":why,"anchors":a})

p("C01","Opening a font accepts exactly the supported formats, directory verbatim",
"Opening a file succeeds exactly when its first four bytes are one of the four supported single-font signatures (0x00010000, 'OTTO', 'true', 'typ1') and its table directory is complete; a collection ('ttcf') and any other signature yield an error. The opened file holds exactly one font, whose directory lists every record in file order with its tag, checksum, offset and length unchanged, wherever the stream stands when opening begins (the directory is read from there). The tag-recognition helper accepts exactly those four signatures and 'ttcf'.",
["inputs"],"all 2^32 four-byte signatures; all directories of up to 3 records over a small tag/value alphabet and of large record counts; all truncation points; several stream positions",
"The tests open five well-formed files at position zero; they never present another signature, a collection, a truncated or a large directory.",
["src/file.rs","src/font.rs","src/lib.rs"],[("File::read","src/file.rs"),("Font::read","src/font.rs"),("accept","src/lib.rs")],["File::read","Font::read","opentype::accept"])

p("C02","A table request reaches exactly the table asked for",
"For each supported table type, asking a font whether the table exists, positioning the stream at it, or reading it resolves to the first directory record that carries the type's registered four-byte tag, at the absolute file offset stored in that record over the whole 32-bit range. A table that is not listed yields 'none', never an error and never another table. The answer does not depend on where the stream stood, on the order of records of other tables, or on earlier requests.",
["inputs","histories"],"all directories of up to 3 records over an alphabet of present, duplicate and foreign tags; full 16-table directories in every rotation; every supported table type; every operation sequence up to a depth; offsets up to 2^32-1",
"Tests request at most four tables of well-formed fonts in one order; duplicates, absent tables, large offsets and operation histories are never exercised.",
["src/font.rs","src/table.rs"],[("Font::position, Font::exists, Font::take, Font::take_given","src/font.rs"),("Table::tag","src/table.rs")],["Font::exists","Font::position","Font::take","Font::take_given"],
[("Font::offsets","directory of the opened font","src/font.rs"),("stream position","shared mutable cursor that every request moves","caller's tape")])

p("C03","Corrupted tables are detected by checksum, and only those",
"With default features, a table is positioned at or returned only if the 32-bit wrap-around sum of its big-endian words (last word padded with zeros, and the adjustment word of 'head' left out) equals the checksum stored in its directory record; otherwise the request is an error. Damage to one table or its record never changes the outcome for another table. With the checksum-tolerance feature on, the stored checksum has no influence at all.",
["inputs","configurations","fault_sequences"],"every table length 0..20, every byte position and every replacement byte, every single-bit flip of the stored checksum, pairs of compensating corruptions, both feature settings, every supported tag",
"One fixture has a wrong head checksum; no test corrupts a byte, checks length remainders, the head exemption, or isolation between tables.",
["src/font.rs"],[("checksum comparison in Font::position","src/font.rs")],["Font::position","Font::take","Font::take_given"])

common_why="Tests read a handful of real fonts and assert a few counts and tags; most formats never occur in them and field contents are not compared."
p("C04","Glyph substitution lookups decode faithfully",
"For every well-formed glyph-substitution subtable of each of the eight lookup types and each of their formats, the decoded value is exactly what the bytes say under the OpenType specification: every scalar, every list in order and in full length, and every subtable found through an offset counted from the start of the table that holds the offset. A subtable's variant is the one selected by its lookup type and format.",
["inputs"],"all structures of bounded list lengths over all types and formats, with all placements, sharings and single/double deviations from a nominal structure; all single-word replacements in skeleton tables and in the fonts shipped with the repository",
common_why+" Reverse-chained, multiple, alternate and extension substitutions are never checked.",
["src/tables/glyph_substitution/mod.rs","src/tables/glyph_substitution/element.rs"],[("walue::Read for Type and table! definitions","src/tables/glyph_substitution/mod.rs"),("Ligatures, Ligature, Sequence, Alternates","src/tables/glyph_substitution/element.rs")],["GlyphSubstitution (value::Read)","Type (walue::Read)"])
p("C05","Glyph positioning lookups decode faithfully",
"For every well-formed glyph-positioning subtable of each of the nine lookup types and each of their formats, the decoded value is exactly what the bytes say under the OpenType specification: anchors, value records with exactly the fields their format announces, mark/base/ligature matrices of the announced shape, and every subtable found through an offset counted from the table the specification names as its origin. A subtable's variant is the one selected by its lookup type and format.",
["inputs"],"all structures of bounded list lengths over all types and formats, all 65536 value-format pairs, all null patterns of anchors, all placements, sharings and single/double deviations; all single-word replacements in skeleton tables and in the fonts shipped with the repository",
common_why+" Only record counts of two pair-adjustment tables are asserted; anchors, marks, ligatures, cursive attachments and device offsets are never looked at.",
["src/tables/glyph_positioning/mod.rs","src/tables/glyph_positioning/element.rs"],[("walue::Read for Type and table! definitions","src/tables/glyph_positioning/mod.rs"),("Single, Pair*, Base(s), Ligature(s), Mark*, Connection, Anchor","src/tables/glyph_positioning/element.rs")],["GlyphPositioning (value::Read)","Type (walue::Read)"])
p("C06","Contextual and chained contextual rules decode faithfully",
"For every well-formed contextual or chained contextual lookup in formats 1, 2 and 3, the decoded rule sets, rules, input/backtrack/lookahead sequences, class and coverage tables and nested actions are exactly what the bytes say under the OpenType specification, with input sequences one shorter than their glyph count. A rule set whose offset is null is decoded as absent and does not disturb its neighbours.",
["inputs"],"all structures of bounded list lengths over all six formats, all null patterns of rule sets, all placements, sharings and single/double deviations; all single-word replacements in skeletons",
common_why+" No test looks inside a contextual lookup.",
["src/layout/context.rs"],[("value::Read for Context/ChainedContext and table! definitions","src/layout/context.rs")],["Context","ChainedContext"])
p("C07","Layout directories decode faithfully",
"For every well-formed layout directory of versions 1.0 and 1.1, the decoded script, language-system, feature and lookup lists and the feature-variations header are exactly what the bytes say under the OpenType specification: tags and indices in order, each record decoded from the offset in its own header relative to its own list or script, lookup flags and the mark filtering set present exactly when its flag is set, and all subtables of a lookup decoded with that lookup's type.",
["inputs"],"all directories of bounded list lengths for both table kinds and versions, with all placements, sharings and single/double deviations; all 65536 lookup flags; all single-word replacements in skeletons and in the shipped fonts",
common_why+" Nested offsets, language records, lookup indices, mark filtering sets and version 1.1 are not compared.",
["src/layout/directory.rs","src/layout/script.rs","src/layout/language.rs","src/layout/feature.rs","src/layout/lookup.rs"],[("value::Read for Directory","src/layout/directory.rs"),("value::Read for Lookups and Record","src/layout/lookup.rs"),("table! Scripts/Record/Features/Record","src/layout/{script,language,feature}.rs")],["Directory","Scripts","Features","Lookups"])
p("C08","Looking up a script, language or feature by tag returns the right record",
"Asking a script list, a script record or a feature list for a tag returns the record that belongs to the first header with exactly that tag, and nothing if no header has it; it never panics on a decoded list. The answer is the same whether the tag is given as raw bytes or as the corresponding named script, language or feature.",
["inputs","histories"],"all header sequences of length up to 5 over an alphabet of near-identical tags with duplicates, all query tags, lists decoded from bytes with every header/record placement",
"Tests query three tags that are present; absent, duplicate and near-miss tags and the identity of the returned record are not checked.",
["src/layout/script.rs","src/layout/feature.rs"],[("Scripts::get, Record::get, Features::get","src/layout/script.rs, src/layout/feature.rs")],["Scripts::get","script::Record::get","Features::get"])
p("C09","Coverage and class tables decode faithfully",
"Every well-formed coverage table (formats 1 and 2) and class-definition table (formats 1 and 2) decodes to exactly the listed glyph identifiers, ranges, start indices and class values, in order and in full length, over the whole 16-bit range of counts and values.",
["inputs"],"both formats of both tables with every list length up to 300 and selected lengths up to 65535, every value of every word for short lists",
"One class record of one fixture is asserted; coverage contents are never compared.",
["src/layout/coverage.rs","src/layout/class.rs"],[("table! Coverage1/2, Class1/2","src/layout/coverage.rs, src/layout/class.rs")],["Coverage","Class"])
p("C10","Device and variation corrections decode faithfully",
"A correction decodes as a device table exactly when its third word is 1, 2 or 3 and as a variation index exactly when it is 0x8000. A device table with start size s and end size e (s <= e) and delta format f yields exactly ceil((e-s+1)*2^f/16) delta words and requires no byte beyond them, so that it can be the last thing in a file; s > e is an error.",
["inputs"],"all (s, e) with e-s up to 300 and selected larger spans up to 65535, all three formats, all 65536 format values, exact-length files",
"No test reads a device table; none places one at the end of a file.",
["src/layout/correction.rs"],[("value::Read for Correction and Device","src/layout/correction.rs")],["Correction","Device"])
p("C11","The glyph definition table decodes faithfully",
"For every well-formed glyph-definition table of versions 1.0, 1.2 and 1.3, the glyph classes, attachment points, ligature carets of all three formats, mark attachment classes, mark glyph sets and item variation store are each decoded from their own offset, exactly as the bytes say under the OpenType specification, and are absent exactly when that offset is null or the version does not have it.",
["inputs"],"all structures of bounded list lengths for the three versions, all 2^6 null patterns, all placements, sharings and single/double deviations; all single-word replacements in skeletons and shipped fonts",
"One version 1.0 fixture with an empty caret list is read; versions 1.2 and 1.3, carets, mark sets and variation stores are never exercised.",
["src/tables/glyph_definition/mod.rs","src/tables/glyph_definition/element.rs","src/variations/item.rs"],[("table! GlyphDefinition, Header*","src/tables/glyph_definition/mod.rs"),("Caret, Attachments, Ligatures, Marks","src/tables/glyph_definition/element.rs")],["GlyphDefinition"])
p("C12","Item variation stores decode faithfully",
"For every well-formed item variation store, each item-variation-data subtable decodes to its item count, word-delta field, region indices and exactly item-count times row-size delta bytes, where the row size follows from the word-delta count, its long-words flag and the region count; nothing beyond the last row is needed.",
["inputs"],"all stores of up to 3 subtables with all (items, words, regions) combinations of bounded size, with and without long words, all placements; exact-length files",
"No test reads an item variation store.",
["src/variations/item.rs"],[("table! Store, Record","src/variations/item.rs")],["variations::item::Store"])
p("C13","Font variation tables decode faithfully",
"For every well-formed font-variations table, each axis and each instance decodes to exactly its own record, located by the announced array offset and the announced record sizes (which may exceed the known fields), with one coordinate per axis in order. An instance has a PostScript name identifier exactly when the announced instance size has room for it, and no byte beyond the announced records is needed.",
["inputs"],"all axis and instance counts up to 3, all record sizes from minimal to minimal+8 with both name variants, all array offsets in a range, exact-length files; all single-word replacements in skeletons and the shipped variable fonts",
"One fixture is read and only its first axis is asserted; instances are never looked at.",
["src/tables/font_variations/mod.rs"],[("value::Read for FontVariations, walue::Read for InstanceRecord","src/tables/font_variations/mod.rs")],["FontVariations"])
p("C14","Color palettes decode faithfully and iterate exactly",
"For every color-palette table of version 0 or 1, the colors are the announced number of blue-green-red-alpha records at the announced offset. Iterating yields one palette per palette index, each with exactly the announced number of entries, the k-th entry being the color at the palette's first index plus k; iterating a table that was accepted never panics, so a table whose palettes point outside its colors is rejected.",
["inputs"],"all combinations of entry, palette and color counts up to 4 and of palette indices up to 5, both versions, several color offsets, large counts",
"Two fixtures, of which one is missing from the repository; only one palette of one table would be compared.",
["src/tables/color_palettes.rs"],[("value::Read for ColorPalettes and Header, ColorPalettes::iter","src/tables/color_palettes.rs")],["ColorPalettes","ColorPalettes::iter"])
p("C15","Unknown formats, versions and reserved values are rejected",
"Wherever a table states a format, version, lookup type or reserved value, parsing succeeds only for the values the specification defines and this library supports, and any other of the possible values yields an error instead of being decoded as something else. The same holds for structurally impossible values: an empty ligature or rule input sequence, and reserved flag bits that are set. (The lookup type inside an extension subtable selects nothing, as the library does not follow extensions; it is kept verbatim.)",
["inputs"],"every discriminating field of every table, each over all 65536 values (both words of two-word versions)",
"No test presents an unknown format; at most one valid value per field occurs in the fixtures.",
["src/layout","src/tables"],[("peek/take match arms, constant fields and flags! validity masks","src/layout, src/tables")],["every value::Read / walue::Read entry point"])
p("C16","No input makes parsing or using a font panic, abort or hang",
"For any sequence of bytes, opening a file, asking a font for a table, and reading any table defined by this library end with a value or an error: no panic (including arithmetic overflow in checked builds), no abort and no endless loop. The same holds for every accessor called on anything that was read successfully. (Enough memory for what C23 grants is assumed; tables so small that they declare over three million entries without any byte are C23's subject.)",
["inputs"],"all short word strings over a boundary alphabet for every table kind; every bounded structure with up to 2 hostile field values; all single-word and adjacent-pair boundary replacements and all truncations of skeleton tables; the same for shipped fonts",
"Tests read well-formed fonts only.",
["src"],[("Result-based parsing, checked subtraction guards","src/layout, src/tables, src/font.rs, src/file.rs")],["every public read entry point and accessor"])
p("C17","A truncated font is reported, never completed with invented data",
"If a file ends before some byte that a table needs, reading that table is an error; it never returns a value with missing, default or repeated content. If every byte that the table needs is there, the result equals the one for the complete file.",
["inputs","crash_points"],"every truncation point of every bounded structure, of every shipped font's layout tables, and of file directories",
"No test truncates a file.",
["src"],[("error propagation from the tape","src")],["every public read entry point"])
p("C18","Read errors surface, and short or interrupted reads are invisible",
"If the underlying stream reports an error at any read or seek during opening, positioning or reading, that call returns an error of the same kind rather than a value. Streams that deliver data in arbitrarily small pieces or get interrupted between pieces give exactly the same results as ones that deliver everything at once. After a failed call, repeating it on a healthy stream gives the result of a first call.",
["fault_sequences","inputs","histories"],"for every structure in the corpus: an error, a premature end, an interruption or a short delivery at every single I/O operation, at every pair of operations for small structures, and at all operations at once",
"Tests read local files and in-memory data with no fault.",
["src"],[("`?` on every tape operation, read_exact","src")],["every public read entry point"])
p("C19","Tables decode the same at any position in a file",
"The decoded value of a table depends only on the table's own bytes, not on where in the file it starts: moving a table by any distance, including beyond 4 GiB, and surrounding it with arbitrary other data gives the same value. Offsets inside a table are never resolved against the start of the file or the current position.",
["inputs"],"every structure in the corpus at start positions 0, 1, 2, 3, odd and even, around 2^16, 2^31, 2^32 and 2^40, with two different fillings of the surrounding bytes",
"Each table occurs at one position in one fixture.",
["src/layout","src/tables","src/variations"],[("position taken at the start of each table and passed to jumps","src/layout, src/tables, src/variations")],["every value::Read / walue::Read entry point"])
p("C20","Parsing depends only on the bytes, not on earlier operations",
"Reading a table gives the same result each time and regardless of what was read, failed or positioned before, on the same stream, on another stream or through another font. No operation on a font changes what later operations return.",
["histories"],"all ordered pairs of corpus tables read at the same position of successive streams; all operation sequences up to depth 4 over an alphabet of opens, existence tests, positionings, reads and failing reads on one stream",
"Each test performs one to four operations on a fresh stream.",
["src/font.rs","src/tables","src/layout"],[("immutable Font, no shared state","src/font.rs")],["Font::exists","Font::position","Font::take","value::Read"])
p("C21","Tolerance features only widen what is accepted",
"Whatever is accepted without the tolerance features is accepted with any combination of them and decodes to the same value. A missing (null) script, feature or lookup list is an error without the incomplete-directory feature and an empty list with it; a null mark anchor is an error without the incomplete-mark feature and a default anchor with it; nothing else changes.",
["configurations","inputs"],"all feature combinations; all null patterns of directory lists and mark anchors with all bounded list lengths; the structure corpus of the other properties under each configuration",
"The two CI feature sets run the same few fixtures, two of which show that an error turns into a success.",
["src/layout/directory.rs","src/tables/glyph_positioning/element.rs","src/font.rs","Cargo.toml"],[("cfg(feature = ...) branches","src/layout/directory.rs, src/tables/glyph_positioning/element.rs, src/font.rs")],["Directory","Mark1s","Font::position"])
p("C22","Script, language and feature tags map to names and back without loss",
"Converting any four-byte tag to a script, language system or feature and back gives the same tag. Tags registered in OpenType map to their own named variant with the registered name (and, for languages, the registered ISO 639 codes), distinct tags never share a variant, and any unregistered tag is preserved as 'other', without name or codes.",
["inputs","configurations"],"all 2^32 tags for all three registries, with and without the default-language feature; all named variants",
"One unit test counts the codes of two languages; 900 registry entries are unchecked.",
["src/layout/script.rs","src/layout/language.rs","src/layout/feature.rs"],[("implement! tables","src/layout/script.rs, src/layout/language.rs, src/layout/feature.rs")],["Script::from_tag","Language::from_tag","Feature::from_tag","From<_> for Tag","name","codes"])
p("C23","Memory use is paid for by data actually read",
"While reading a table, the peak amount of memory allocated stays within a fixed allowance (64 MiB, which is more than a list of 65535 entries of any kind takes) plus a constant multiple (1024) of the number of bytes actually delivered by the stream. In particular a short file that merely declares large counts cannot make the library reserve memory in proportion to the declared counts' product.",
["inputs"],"every bounded structure with one or two count or offset fields raised to boundary values up to 65535, every short word string over a boundary alphabet, for every table kind",
"Tests read well-formed fonts and do not observe memory.",
["src/variations/item.rs","src/tables/glyph_positioning/element.rs","src/layout"],[("Vec::with_capacity from declared counts","typeface macros, src/variations/item.rs")],["every public read entry point"])
p("C24","Optional subtables are present exactly when their offset is not null",
"Wherever the specification lets an offset be null (default language system, feature parameters, feature variations, glyph-definition parts, anchors in attachment matrices and in cursive connections, device corrections, rule sets of contextual lookups), a null offset decodes as absent and any other offset as present, independently for every such place and without affecting any other field.",
["inputs"],"all 2^k null patterns over all nullable places of each structure, with list lengths up to 3",
"Fixtures contain a few patterns; none is asserted beyond one absent attachment list.",
["src/layout","src/tables"],[("jump_take_maybe! uses","src/layout, src/tables")],["every value::Read / walue::Read entry point"])
p("C25","Decoding does not depend on how subtables are laid out or shared",
"Two encodings of the same logical table that differ only in where subtables are placed (order, gaps, odd addresses, distances up to the offset width's maximum) or in whether equal subtables are stored once and shared decode to the same value apart from the raw offsets themselves.",
["inputs"],"for every bounded structure: placements in forward and reverse order, with gaps, at maximal 16-bit distances and beyond 2^31 for 32-bit offsets, and with every pair of same-kind subtables shared",
"Each fixture has the one layout its compiler chose.",
["src/layout","src/tables","src/variations"],[("jump before every subtable","src/layout, src/tables, src/variations")],["every value::Read / walue::Read entry point"])
p("C26","Lists have exactly the declared length, over the full range of counts",
"Every decoded list has exactly as many entries as its count field declares, each decoded from its own place, for every count the format can express; a count that the data cannot back is an error.",
["inputs"],"for every count field of every table: all values 0..40 and boundary values up to 65535 as far as offsets can reach, with distinguishable entries",
"Fixtures have one count per list; most counts are never compared with list contents.",
["src/layout","src/tables","src/variations"],[("take_given and counted loops","src/layout, src/tables, src/variations")],["every value::Read / walue::Read entry point"])
p("C27","Flag accessors reflect exactly the documented bits",
"For every value a flag field can take, each accessor of lookup flags, value-format flags, axis flags and instance flags answers according to exactly the bit the specification assigns to it, flag words are preserved unchanged (also when written), and words with reserved bits set are rejected when read.",
["inputs"],"all 65536 values of each of the four flag types, each through direct construction and through reading",
"Fixtures contain few flag combinations; accessors are not asserted.",
["src/layout/lookup.rs","src/tables/glyph_positioning/element.rs","src/tables/font_variations/mod.rs"],[("flags! definitions","src/layout/lookup.rs, src/tables/glyph_positioning/element.rs, src/tables/font_variations/mod.rs")],["lookup::Flags","glyph_positioning::Flags","AxisFlags","InstanceFlags"])
p("C28","Every scalar keeps its full range and sign",
"Each scalar field of each table decodes, for every value it can hold, to that value: big-endian, with the signedness the specification gives it, and without influence on any other field.",
["inputs"],"every scalar field of every skeleton table over boundary values (quick) or all 65536 values of each of its words (thorough)",
"Fixtures contain one value per field; negative and large values are rare and not asserted.",
["src/layout","src/tables","src/variations"],[("field types in table! definitions","src/layout, src/tables, src/variations")],["every value::Read / walue::Read entry point"])
p("C29","Readings at the same time do not disturb each other",
"Reading tables or using fonts at the same time -- in several threads, or one reading from within a stream of another -- gives each reader exactly what it would get alone, however their stream operations interleave. This includes several streams on one opened font.",
["schedules","inputs"],"all pairs from a corpus of tables of every kind and of fonts; one reading as a whole in front of every stream operation of the other, on the same thread; all interleavings of two threads with up to three switches at stream operations, for pairs of one kind",
"The tests read one thing at a time; state that lives only during a reading (a static or thread-local scratch value) is right whenever nothing else reads in between.",
["src/font.rs","src/file.rs","src/tables","src/layout","src/variations"],[("immutable Font, parameters passed down by value, no shared state","src/font.rs, src/tables, src/layout")],["File::read","Font::position","Font::take","value::Read","walue::Read"])
whole=" A format, version or reserved value that the specification does not define, and a file that ends before a byte that is needed, yield an error instead."
for x in P:
    if x["id"] in ("C04","C05","C06","C07","C09","C11","C12","C13"): x["statement"]+=whole
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
