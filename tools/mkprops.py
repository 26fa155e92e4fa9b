#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,state,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

prop("C01","Parsing yields exactly the sections, keys, values and comments of the text",
"Loading a well-formed document yields exactly the sections and keys it names, in the order of first appearance, each key holding its last assigned value (split from the name at the first configured delimiter outside a quoted name) and each section and key the comment lines directly before it plus its own inline comment. Blank lines, indentation and spacing around names, delimiters and values, CRLF or LF endings, a missing final newline and a leading byte-order mark change nothing else about what is loaded. Text before the first header belongs to the default section, and a header that names an existing section re-opens it.",
["inputs","configurations"],"every document, every set of key-value delimiters, every line-ending/indentation/BOM variation of it",
"The tests load a handful of fixed documents and look at selected keys; ordering, comment attachment and layout invariance are claims about every document, including lines and files much longer than the fixtures.",
["parser.go","file.go","section.go","key.go"],
[("File.sectionList/sections","sections in document order","file.go"),("Section.keyList/keys","keys in document order","section.go"),("parser.comment","comment waiting for its owner","parser.go")],
[("File.parse","parser.go"),("readKeyName","parser.go"),("parser.BOM","parser.go"),("NewSection/NewKey","file.go, section.go")],
["Load/LoadSources","SectionStrings, Sections, KeyStrings, Value, Comment"])

prop("C02","Value lexing: quotes, inline comments, continuations, multi-line, escapes",
"For every combination of the value-related load options, the raw value of a key is exactly what the quoting and continuation rules say: one surrounding pair of single or double quotes is removed (unless preserved), back-quoted and triple-double-quoted values are taken verbatim, also across lines, a trailing backslash continues the value on the next line (unless ignored), and Python-style indented lines are appended to it (when allowed). An inline comment starts at the first unquoted comment symbol (or the first one after a space, or not at all, as configured) and moves to the key's comment; escaped double quotes and comment symbols are unescaped only under their option. The result does not depend on how long the lines are.",
["inputs","configurations"],"every value text and following lines x every combination of the eight lexing options",
"Tests exercise each option alone on one short value; interactions of options, unusual quote placement and values crossing read-buffer boundaries are never sampled.",
["parser.go"],
[("parserOptions","lexing switches","parser.go"),("parser.buf","buffered reader whose size must not matter","parser.go")],
[("readValue","parser.go"),("readMultilines","parser.go"),("readContinuationLines","parser.go"),("readPythonMultilines","parser.go"),("hasSurroundedQuote","parser.go")],
["LoadSources then Value, Comment of every key"])

prop("C03","Loading is total: arbitrary bytes give a file or an error, never a crash",
"For arbitrary bytes and options, loading terminates without panicking and returns either a usable file and no error or an error and no file, and the same input always gives the same outcome. A line that is neither blank, comment, header nor key-value is reported (as a missing-delimiter or empty-key-name error that names the line) unless boolean keys are allowed or unrecognizable lines are skipped, in which case exactly those lines become boolean keys or are dropped. Unclosed sections, empty section names and unterminated quotes are always errors, whatever surrounds them.",
["inputs","configurations"],"every byte sequence x every combination of load options",
"Tests cover about ten malformed inputs; totality is a statement about all byte sequences under all option combinations.",
["parser.go","error.go","ini.go"],
[("ErrDelimiterNotFound, ErrEmptyKeyName","classified errors","error.go")],
[("File.parse error paths","parser.go"),("LoadSources returns nil file on error","ini.go"),("IsErrDelimiterNotFound/IsErrEmptyKeyName","error.go")],
["Load result and error class","process liveness"])

prop("C04","The result of loading does not depend on how the bytes are delivered",
"Loading the same bytes gives the same file (or the same error) whether they come as a byte slice, a file name, a reader or a read-closer, however the reader splits them into chunks (single bytes, empty reads, data together with end-of-file), and whatever reader buffer size is configured.",
["inputs","schedules","configurations"],"every document x every way of chunking it x every reader buffer size and source kind",
"Every test delivers its data in one piece through one source kind and with documents smaller than the buffer.",
["parser.go","data_source.go"],
[("parser.buf","bufio.Reader over the source","parser.go")],
[("newParser buffer","parser.go"),("readUntil","parser.go"),("readPythonMultilines look-ahead","parser.go"),("parseDataSource","data_source.go")],
["LoadSources over instrumented readers"])

prop("C05","Source faults surface as errors; sources are released and left untouched",
"A read error from a source at any offset, even after complete and valid content, makes the load fail with that error; it is never taken for the end of the data. Every opened read-closer is closed exactly once per pass and not read afterwards, opened files are released on success and on failure, and the caller's byte slice is neither modified nor aliased by the loaded file. In loose mode only nonexistent files are ignored; every other failure, and an unsupported source type, is still an error that leaves no file.",
["fault_sequences","inputs"],"every fault offset and fault kind (sticky, transient, together with data) in every source position, with every option set",
"The tests never inject a read error and never observe Close.",
["data_source.go","file.go","parser.go","ini.go"],
[("File.dataSources","sources of the file","file.go")],
[("File.reload closes","file.go"),("readUntil error path","parser.go"),("Reload loose handling","file.go"),("parseDataSource","data_source.go")],
["error of LoadSources, Append, Reload","calls made on an instrumented source","/proc/self/fd"])

prop("C06","Several sources overlay in order; Append and Reload re-apply them",
"Loading several sources gives the same as applying them one after another: later values replace earlier ones, new sections and keys are added at the end, nothing else changes; with ShortCircuit only the first available source is applied. Append adds its sources at the end and re-applies all of them, and Reload re-reads every source's current content, overriding programmatic changes to what the sources define and keeping everything else. Reloading unchanged sources any number of times changes nothing.",
["histories","inputs","configurations"],"every sequence of sources of any kind, with programmatic edits, Append and Reload in any order (section names unique, duplicate shadow values not kept)",
"Tests load at most a few fixed sources and never reload after edits or check idempotence.",
["file.go","ini.go","data_source.go","parser.go"],
[("File.dataSources","ordered sources","file.go")],
[("Reload","file.go"),("Append","file.go"),("NewKey overwrites","section.go"),("Loose/ShortCircuit","file.go")],
["file state after every step"])

prop("C07","What is written can be loaded back unchanged",
"Writing a file and loading the output with the same options gives back the same sections, keys, raw values, shadow values, nested values, boolean and auto-increment keys, raw section bodies and (up to comment-symbol spacing) comments, in the same order. This holds for every value that contains no back-quote together with a triple double quote, however it was created and whatever quotes, comment symbols, backslashes, delimiters, spaces or line breaks it contains, and for every formatting switch. Writing the reloaded file again produces the identical text.",
["inputs","histories","configurations"],"every file reachable by loading and editing, every load-option combination under which the output is readable, every formatting switch",
"Tests compare the output of a few fixed files with golden text; loss-free writing is a claim about every value and key name.",
["file.go","parser.go"],
[("Key.value, shadows, nestedValues, isBooleanType, isAutoIncrement","what has to survive","key.go")],
[("writeToBuffer quoting","file.go"),("readValue/readKeyName","parser.go")],
["WriteTo then LoadSources"])

prop("C08","Writing is deterministic and pure, and layout follows the format switches",
"Writing does not change the file and two writes of the same state give the same bytes, through WriteTo, WriteToIndent, SaveTo and SaveToIndent alike; the reported byte count is what was written, a write error from the destination is returned, and saving replaces the previous content completely. The text consists of the sections and keys in order with their comments before them; PrettyFormat pads names so that the delimiters of a section line up, PrettyEqual puts spaces around the delimiter, PrettySection puts a blank line between sections, DefaultHeader writes the default header, the indent goes before keys and comments outside the default section, and no switch changes anything but layout.",
["inputs","histories","configurations","fault_sequences"],"every file state x every setting of the format switches, line break, delimiter on write and indent x every destination fault offset",
"Golden-file tests fix one state per switch and never fail a destination or compare the entry points.",
["file.go","ini.go"],
[("PrettyFormat, PrettyEqual, PrettySection, DefaultHeader, DefaultFormatLeft/Right, LineBreak","format switches","ini.go")],
[("writeToBuffer","file.go"),("WriteToIndent/SaveToIndent","file.go")],
["bytes written, counts, errors, file state before and after"])

prop("C09","Section and key containers behave like ordered maps",
"After any sequence of creating, looking up, renewing and deleting sections and keys, every query (names, lists, lookups, existence, values, hashes) agrees with an ordered map in which creation appends, re-creation keeps the position and replaces the value, and deletion removes exactly the named item. Lookups return the same object until it is deleted, Section and Key create a missing item on demand while the other queries never create anything, an empty section name means the default section, and empty key or section names are refused by the creating calls without effect.",
["histories"],"every sequence of container operations, including operations through handles of deleted items",
"Tests perform two or three operations on a fresh file; agreement with the ordered-map view must hold after every history.",
["file.go","section.go","key.go"],
[("File.sectionList, sectionIndexes, sections","three views of the section set","file.go"),("Section.keyList, keys","two views of the key set","section.go")],
[("NewSection/DeleteSection/SectionsByName","file.go"),("NewKey/GetKey/Key/DeleteKey/KeysHash","section.go"),("SetValue","key.go")],
["results of every public query after every operation"])

prop("C10","Non-unique sections keep every instance, in order, through every operation",
"With non-unique sections allowed, every header and every creation adds a new instance with its own keys and comment; the instances of a name are listed and indexed in file order, lookups by name give the first one, and an index past the end creates a new instance. Deleting one instance by index removes exactly that one and renumbers only those after it, and deleting by name removes all; other names are never affected. Without the option there is never more than one instance and a non-zero index is refused.",
["histories","inputs"],"every sequence of creations and deletions by name and index over several names, and every document with repeated headers",
"Tests cover one or two delete scenarios; index bookkeeping has to be right after every interleaving of names and deletions.",
["file.go","section.go"],
[("File.sectionIndexes","index of each listed section within its name","file.go")],
[("DeleteSectionWithIndex","file.go"),("NewSection","file.go"),("SectionWithIndex","file.go"),("ChildSections","section.go")],
["Sections, SectionsByName, ChildSections, WriteTo after every operation"])

prop("C11","Case-insensitive options apply to every way of naming a section or key",
"Under Insensitive (or InsensitiveSections, InsensitiveKeys) names are stored in lower case and any case variant reaches the same section (or key) in parsing, creation, lookup, parent lookup, deletion, raw-section recognition and variable references, including every spelling of the default section. The option for sections does not affect keys and vice versa, and without the options names differing in case are distinct.",
["histories","inputs","configurations"],"every history of operations and document using arbitrary case variants of the names, under each of the eight option settings",
"Tests look up a few names; the option must hold at every entry point that takes a name.",
["file.go","section.go","parser.go","key.go"],
[("options.Insensitive*","case folding switches","ini.go")],
[("lower-casing in NewSection, SectionsByName, DeleteSectionWithIndex","file.go"),("lower-casing in NewKey, GetKey, DeleteKey","section.go"),("default section name in parse","parser.go")],
["every name-taking call"])

prop("C12","Child sections inherit missing keys from their nearest ancestors",
"A key missing in a section is looked up in the section named by dropping its last delimiter-separated component, and so on outwards past nonexistent ancestors; the nearest ancestor that has it supplies it, and the result is the ancestor's own key, so later changes are visible through the child. ParentKeys lists the keys of all existing ancestors, nearest first, and ChildSections lists exactly the sections whose name extends the section's name by the delimiter, in file order. No lookup through a child ever creates or changes anything in it, and unrelated sections never contribute.",
["histories","inputs","configurations"],"every set of section names over every child delimiter, every distribution of keys, with edits between lookups",
"Tests use one two-level hierarchy with the default delimiter.",
["section.go","file.go"],
[("options.ChildSectionDelimiter","hierarchy separator","ini.go")],
[("GetKey ancestor walk","section.go"),("ParentKeys","section.go"),("ChildSections","section.go")],
["GetKey, HasKey, Key, ParentKeys, ChildSections"])

prop("C13","Variable references expand from the section, its ancestors, then the default",
"The string value of a key is its raw value, passed through the value mapper if one is set, in which each %(name)s reference is replaced everywhere by the raw value of that name in the key's own section (or its ancestors), else, or if that is the key itself, in the default section; replaced text is expanded again, at most 99 replacements are made, and expansion stops at the first reference that names nothing. Expansion never changes any stored value and always terminates, whatever the references form: chains, self-references or cycles.",
["inputs","histories","configurations"],"every graph of references over sections, ancestors and the default section, with every kind of value around them",
"Tests expand a few acyclic references; termination and scoping must hold for every reference graph.",
["key.go","section.go"],
[("depthValues","bound on replacements","ini.go"),("varPattern","reference syntax","ini.go")],
[("transformValue","key.go"),("GetKey","section.go")],
["String and the list accessors against Value","process memory"])

prop("C14","Scalar accessors convert exactly or fall back exactly as documented",
"Bool, Int, Int64, Uint, Uint64, Float64, Duration and Time convert the expanded value exactly as the Go syntax of the type (bool: the documented words) defines or report an error. The Must forms return the converted value, else the given default, which then becomes the key's value, else zero; In and Range return the converted value only if it parses and is a candidate or lies within the inclusive bounds, else the default, and change nothing.",
["inputs"],"every value text x every accessor x every default, candidate set and bound, including values at and beyond the limits of the types",
"Tests use one valid and one invalid value per accessor.",
["key.go"],
[("Key.value","raw value, also the store of Must defaults","key.go")],
[("parseBool","key.go"),("Int..TimeFormat","key.go"),("Must*","key.go"),("In*/Range*","key.go")],
["results and Value before and after"])

prop("C15","List accessors split with escapes and treat invalid items as documented",
"Strings splits the expanded value at every delimiter that is not escaped, where a backslash before a delimiter or backslash is removed and any other backslash is kept, trims each item and drops a trailing empty one. The typed lists are the item-wise conversions of that list in the same order: the plain forms put a zero value for each invalid item, the Valid forms leave invalid items out, and the Strict forms fail if and only if some item is invalid; StringsWithShadows splits the value and each non-empty shadow in turn.",
["inputs","configurations"],"every value text x every non-empty delimiter (also multi-character and multi-byte) x every element type and form",
"Tests split a few comma-separated values.",
["key.go"],
[],[("Strings","key.go"),("doParse and parse*s","key.go"),("StringsWithShadows","key.go")],
["results of the 27 list accessors"])

prop("C16","Shadow keys and nested values are kept completely and in order",
"With shadows allowed, assigning an existing key again keeps its value and appends the new one as a shadow unless an equal value is already present (or duplicates are allowed, when every one is kept); the key's values are its value and shadows in order of appearance, without empty ones. With nested values allowed, indented lines after a key with an empty value are kept in order as that key's nested values and belong to no other key or section. Without the options the corresponding calls are refused without effect, as they are on boolean and auto-increment keys.",
["histories","inputs","configurations"],"every document and every sequence of assignments, additions and deletions under every combination of the three options",
"Tests add two or three shadows to one key.",
["key.go","section.go","parser.go"],
[("Key.shadows","further values","key.go"),("Key.nestedValues","nested lines","key.go")],
[("addShadow","key.go"),("NewKey","section.go"),("ValueWithShadows","key.go"),("addNestedValue and nested lines in parse","key.go, parser.go")],
["ValueWithShadows, StringsWithShadows, NestedValues, WriteTo"])

prop("C17","Boolean keys, auto-increment keys and raw sections keep their identity",
"A boolean key reads as true, is written as its bare name while it is true and with its value otherwise; an auto-increment key is numbered from 1 in each section header block, in order, and is written as a dash. A section listed as unparseable keeps its lines verbatim up to leading white space of each line, blank lines and comment lines, gains no keys, and is written back as such; only the listed names are affected, and SetBody changes only raw sections.",
["inputs","histories","configurations"],"every document mixing the three features with ordinary content, every list of raw section names, with edits before writing",
"Tests contain one example of each feature.",
["parser.go","section.go","file.go","key.go"],
[("Key.isBooleanType, isAutoIncrement","key identity","key.go"),("Section.isRawSection, rawBody","raw sections","section.go")],
[("parse","parser.go"),("NewBooleanKey, SetBody, Body","section.go"),("NewRawSection","file.go"),("writeToBuffer","file.go")],
["KeyStrings, Value, Body, WriteTo"])

prop("C18","Mapping fills a struct exactly from the matching sections and keys",
"Mapping a file or section to a struct sets every exported field to the converted value of the key (or the section, for structs and lists of structs from repeated sections) named by its tag, or by the name mapper, or by the field name, with inherited keys included, and leaves every field without a valid counterpart, tagged \"-\" or unexported as it was. All supported kinds, their named types and pointers, lists with custom delimiters and shadow lists, embedded and extending structs, durations and times are converted like the corresponding accessor; a pointer stays nil when there is nothing to point to. The file is never changed and no struct or content causes a panic.",
["inputs","programs"],"every (non-recursive) struct type built from the supported kinds and tags x every file content x every previous struct value",
"Tests map a few fixed struct types; conversion must be right for every type, tag and content.",
["struct.go","key.go"],
[],[("mapToField","struct.go"),("setWithProperType","struct.go"),("setSliceWithProperType","struct.go"),("mapToSlice","struct.go"),("NameMapper, SnackCase, TitleUnderscore","struct.go")],
["struct value before and after MapTo"])

prop("C19","Strict mapping fails exactly when a value does not convert; lax never does",
"StrictMapTo reports an error if and only if some mapped key holds text that does not convert exactly to its field, including any list element, out-of-range numbers and nested, embedded or repeated sections, and otherwise gives the same struct as MapTo. MapTo never fails because of a value: the field keeps its previous value, an invalid list element becomes zero, and no number is ever truncated to fit. Both refuse targets that are not pointers and unsupported field types that have content, without panicking.",
["inputs","programs"],"every struct type x every placement of one or more invalid values in it",
"Tests place an invalid value in a few scalar fields only.",
["struct.go","key.go"],
[],[("wrapStrictError","struct.go"),("setWithProperType","struct.go"),("setSliceWithProperType","struct.go"),("mapTo","struct.go")],
["error and struct of MapTo and StrictMapTo on the same input"])

prop("C20","A struct reflected into a file maps back to the same struct",
"Reflecting a struct into a file stores every exported field not excluded by its tag under the name that mapping would look for, overwriting existing values, with the comment of its tag; fields marked omitempty are left out exactly when empty, and nil pointers, empty lists or self-reflecting fields never hide the fields after them. Mapping the file, directly or after writing and loading it, onto a new struct of that type gives the same values for everything representable. Reflection never panics and touches nothing but the named sections and keys.",
["inputs","programs","histories"],"every struct type and value built from the supported kinds x every previous file content",
"Tests reflect a few fixed structs and compare the text.",
["struct.go","key.go","file.go"],
[],[("reflectFrom","struct.go"),("reflectWithProperType","struct.go"),("reflectSliceWithProperType","struct.go"),("isEmptyValue","struct.go"),("Section.ReflectFrom","struct.go")],
["file state after ReflectFrom","struct from MapTo"])

prop("C21","In block mode a file may be used by many goroutines: race-free and atomic",
"With BlockMode on (the default), any number of goroutines may create, look up, list, read, set and delete sections and keys, add shadow and nested values, map to structs and write the file at the same time without data races, deadlock or crash. Every single operation that takes effect does so atomically: the results of concurrent operations are those of some sequential order of them consistent with real time, so no completed update is lost, and a list, hash or written text shows one consistent moment.",
["schedules","histories"],"every interleaving of concurrent operations on shared sections and keys (Reload, Append, ReflectFrom, the Comment fields and file-level settings excluded)",
"The test suite has no concurrent test.",
["file.go","section.go","key.go"],
[("File.lock, BlockMode","read-write lock of the whole file","file.go")],
[("locking in every operation","file.go, section.go, key.go"),("get-or-create in Key and Section","section.go, file.go")],
["race detector reports","recorded call/return histories","goroutine progress"])

prop("C22","Reading never mutates: lock-free concurrent reads and independent files",
"Querying, converting, expanding, mapping and writing existing content never changes the file, so with BlockMode off any number of goroutines may read the same file at once without data races and all see the same results as a single reader. Two files never share mutable state: using one, with any options, has no effect on another, also concurrently and when both were loaded from the same source bytes.",
["schedules","inputs","configurations"],"every interleaving of read operations on one file, and of arbitrary operations on different files",
"The test suite has no concurrent test and never compares state before and after reads.",
["file.go","section.go","key.go","struct.go"],
[("File, Section, Key","must not be written by readers","file.go, section.go, key.go")],
[("BlockMode off path","file.go, section.go, key.go"),("read-only accessors","key.go")],
["race detector reports","state before and after","results per goroutine"])

prop("C23","Returned collections are snapshots the caller owns",
"Every list or map returned by a query (section names, sections, sections by name, child sections, keys, parent keys, key names, key hash, values with shadows, nested values, split lists) is the caller's own: it keeps its content while the file changes, and changing, sorting, appending to or clearing it has no effect on the file or on any other returned collection. The same holds for slices and strings passed in: later changes to them by the caller do not affect the file.",
["histories"],"every query at every point of every history, with the caller modifying the results and the file changing afterwards",
"Tests only read the returned collections.",
["file.go","section.go","key.go"],
[("internal lists","must not be handed out","file.go, section.go, key.go")],
[("copies in SectionStrings, KeyStrings, SectionsByName, KeysHash, NestedValues","file.go, section.go, key.go")],
["held results after later operations","file state after the caller modified results"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
