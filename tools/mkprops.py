import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PE="src/parser/events.rs";PR="src/parser/raw.rs";PM="src/parser/mod.rs";PU="src/parser/util.rs";ER="src/parser/error.rs";EN="src/entities.rs";DE="src/de/mod.rs";LB="src/lib.rs";FR="src/fragment.rs";TX="src/text.rs";NE="src/transforms/normalize_end_tags.rs";TR="src/transforms/transform.rs";MS="src/marked_sections.rs";BU="src/de/buffer.rs"
p("C01","Parsing any text ends in a fragment or an error, never a crash or hang",
 "For every input string and every parser configuration, parsing returns either a fragment or an error value: it never panics, aborts the process, or fails to terminate. Producing the human-readable description of a parse error is equally safe for every input, including long lines, non-ASCII text and errors at the very end of the input.",
 ["inputs","configurations"],"every UTF-8 input string under every combination of parser settings and entity lookups",
 "The suite parses a few dozen short, mostly ASCII snippets; crashes live in byte/character mix-ups, long lines, deep nesting and truncated markup that no fixed sample covers.",
 [PM,PE,PR,PU,ER],[("combinators with cut() on committed constructs",PR),("LocatedLine::locate / Display",ER),("take_until_terminated failure slice",PU)],
 ["return of Parser::parse","return of Parser::parse_with_detailed_errors and ContextualizedError::describe","process exit status","per-thread CPU time"])
p("C02","A well-formed document yields exactly its own markup, in order",
 "For every well-formed document, the parsed fragment contains exactly the start tags, attributes (each with its value, or with no value when none is given), tag closings, end tags and text that the document contains, in document order and with unchanged content. Lexical choices that carry no meaning (quote style, white space inside tags, whether an attribute value is quoted) never change the result.",
 ["inputs"],"every document built from elements, attributes, empty tags and text, in every lexical spelling",
 "Tests assert the events of hand-picked documents; they cannot cover arbitrary names, value contents, attribute counts, adjacency of constructs or stray '<' characters in text.",
 [PE,PR,LB],[("start_tag/end_tag/text/attribute combinators",PE),("name, attribute_value, text",PR),("EventIter",PE)],
 ["events of the returned SgmlFragment compared with the generating document tree"])
p("C03","Malformed markup is reported as an error, never silently dropped",
 "If any part of the input is malformed (an unterminated tag, quoted value, comment, processing instruction, declaration or marked section, a declaration inside content, an unknown section keyword, or a reference to an undefined entity) then parsing returns an error, wherever the fault occurs, including inside included marked sections. Consequently a successful parse has accounted for every character of the input: no markup or text is lost.",
 ["inputs","configurations"],"every input string with at least one fault at any position and nesting context, under every marked-section mode",
 "Tests check a handful of rejections at top level on individual combinators; whether every fault in every context reaches the caller depends on how all alternatives and repetitions compose.",
 [PE,PR,PM],[("cut / nom::Err::Failure placement",PR),("all_consuming in document_entity",PE),("terminator of included marked sections",PE)],
 ["Ok/Err verdict of Parser::parse compared with an independent recogniser","text and markup conservation between input and events"])
p("C04","Comments are invisible to the event stream",
 "Comment declarations (including the empty declaration and declarations holding several comments) may be inserted, removed or changed anywhere between the constructs of a document without changing any event, except that a run of text they interrupt is reported in pieces. No part of a comment ever appears in an event, and comment-like text inside quoted attribute values, character-data sections and processing instructions stays literal.",
 ["inputs"],"every document and every placement and content of comments",
 "Tests place one or two simple comments; the property is about any comment body (quotes, tags, section delimiters, dashes) at any boundary.",
 [PR,PE,PU],[("comment_declaration",PR),("many0_count(comment_declaration) between content items",PE),("comments_and_spaces",PU)],
 ["events of commented vs. comment-free rendering of the same document"])
p("C05","Reference expansion replaces each reference exactly once and nothing else",
 "For every text and every lookup, expanding entities replaces each decimal or hexadecimal character reference by exactly that character and each other reference by exactly what the lookup returns for its name (asked once per reference, in text order), copies every other character unchanged, and never rescans replacement text; a text without references comes back unchanged. If the lookup has no answer, expansion fails naming that reference and the exact byte range it occupies; numeric references that denote no Unicode character are treated as names, and parameter-entity expansion obeys the same rules with its own prefix and no numeric references.",
 ["inputs","histories"],"every text and every (possibly stateful) lookup function",
 "Tests use about fifteen literal strings; the rules interact (optional ';', '#' functions, overflow, surrogates, multi-byte text around references) over an unbounded input space.",
 [EN],[("expand_entities_with",EN),("char_ref / entity_ref",EN)],
 ["return value of expand_entities, expand_characters, expand_parameter_entities","sequence of lookup calls"])
p("C06","References are expanded exactly where SGML allows and never become markup",
 "Entity and character references are expanded in text, quoted attribute values and RCDATA sections, and are left literal in unquoted attribute values, CDATA and ignored sections, comments, processing instructions and declarations. Replacement text is plain data: whatever it contains (tags, quotes, section ends, further references, white space), it never ends, starts or alters any construct and never changes the sequence of other events. Names are looked up as they are written, in the order they stand; one that is not defined fails the parse and is named in the error.",
 ["inputs","configurations"],"every document, every position of a reference and every replacement text",
 "One integration test expands a single character reference in four positions; injection-style replacement texts and the remaining contexts are untested.",
 [PE,PM,EN],[("ParserConfig::parse_rcdata call sites",PE),("attribute_parse_value quoted flag",PR),("trim before expansion",PE)],
 ["events for the same document under different lookups","names requested from the lookup"])
p("C07","Marked-section keywords and handling modes decide how a section is treated",
 "A marked section is handled by the highest-priority keyword in its list (IGNORE over CDATA over RCDATA over INCLUDE/TEMP, case-insensitively, INCLUDE when the list is empty) after parameter entities in the list are expanded, and any unknown keyword is an error. In keep mode each section is reported as one raw event holding its keywords and unmodified body, in the default mode only a single CDATA or RCDATA keyword is accepted and anything else is an error, and in expand mode ignored sections vanish, CDATA and RCDATA become text, and included sections contribute the same events as their content would.",
 ["inputs","configurations"],"every keyword list, casing, parameter-entity lookup and handling mode, for sections anywhere in a document and nested",
 "Tests fix one document and a few keyword strings; combinations of keywords, modes, parameter entities and nesting are not enumerated.",
 [MS,PE,PM],[("MarkedSectionStatus::from_keywords",MS),("MarkedSectionHandling::parse_keywords",PM),("marked_section_body",PE)],
 ["events of sections generated with a known status","return of from_keywords / parse_keywords"])
p("C08","Marked sections end exactly where SGML says they do",
 "CDATA and RCDATA sections end at the first ']]>'; an ignored section ends at the ']]>' matching its own start, counting nested '<![' ... ']]>' pairs and nothing else; an included section ends at the first ']]>' that is not inside a tag's quoted value or a nested construct, and may be empty. Text right after the section end is parsed as ordinary content, outside sections ']]>' is ordinary text, and a section that never ends is an error.",
 ["inputs"],"every section body, nesting structure and surrounding text",
 "Tests exercise about twenty literal bodies; delimiter look-alikes, overlapping brackets, sibling and deeply nested pairs form an unbounded space.",
 [PR,PE],[("marked_section_body_ignore pairing",PR),("marked_section_body_character_data",PR),("MarkedSectionEndHandling",PR)],
 ["events before, inside and after generated sections"])
p("C09","White-space trimming touches only the edges of text",
 "With trimming on, each run of text loses exactly its leading and trailing SGML white space (space, tab, CR, LF), runs that are only white space disappear, and nothing else changes: inner white space, other Unicode spaces, white space written as character references, attribute values and all other events are identical to parsing without trimming. With trimming off, text inside the document content is reported verbatim.",
 ["inputs","configurations"],"every document and every placement of white-space and white-space-like characters",
 "Tests trim one ASCII sample; form feeds, no-break spaces, referenced white space, section bodies and attribute values are not crossed with the setting.",
 [PM,PE,TX],[("ParserConfig::trim",PM),("text and marked_section_body trimming",PE),("is_sgml_whitespace",TX)],
 ["events with trimming on vs. off for the same input"])
p("C10","Case normalization applies to all names uniformly and to nothing else",
 "Under lowercase (uppercase) normalization every start-tag, attribute and end-tag name is the full Unicode lowercase (uppercase) form of the name in the input, so names differing only in case written either way come out equal, and by default names are kept as written. Attribute values, text, declarations, processing instructions, section keywords and entity names are never altered, and the number and order of events is unchanged.",
 ["inputs","configurations"],"every document with names over the full Unicode alphabet, under each normalization",
 "Tests normalize five words; Unicode names whose case mapping changes length, title-case letters and untouched positions are not covered.",
 [PM,PE],[("NameNormalization::normalize",PM),("open_start_tag / attribute / end_tag",PE)],
 ["events under each normalization vs. events with names unchanged"])
p("C11","Ignoring declarations or processing instructions removes just those events",
 "Turning on the option to ignore markup declarations (processing instructions) yields exactly the event list obtained without it minus all markup-declaration (processing-instruction) events, and the input is accepted or rejected identically. No other parser option changes which declarations and instructions are reported.",
 ["inputs","configurations"],"every input string and every setting of the remaining options",
 "Two tests use one declaration and one instruction; positions (prolog, content, after the root, inside included sections) and interaction with other options are not covered.",
 [PE,PM],[("EventIter::cond in markup_declaration / processing_instruction",PE)],
 ["events with the option on vs. off"])
p("C12","Declarations and processing instructions are kept verbatim with correct extent",
 "A markup declaration in the prolog is reported with its keyword and its body text verbatim (surrounding white space removed), ending at the first '>' that is not inside a quoted literal, an embedded comment or a bracketed subset (whose nested declarations and brackets must balance). A processing instruction anywhere is reported verbatim from '<?' through the first '>'.",
 ["inputs"],"every declaration body and instruction, in every position where they are allowed",
 "Tests contain half a dozen declarations; mixes of quotes, comments, dashes, nested subsets and delimiters in unusual positions are unbounded.",
 [PR,PE],[("markup_declaration / declaration_subset / comment",PR),("processing_instruction",PR)],
 ["MarkupDeclaration and ProcessingInstruction events compared with the generated source"])
p("C13","Printing a fragment and parsing it again gives the same events",
 "Formatting a parsed fragment that has content and no declarations after its start as text, and parsing that text again with the same handling of sections (names unchanged, white space untrimmed, no lookups needed), yields the same events, up to joining adjacent text, white space before the document's content, and white space around section keywords. In particular text and attribute values survive whatever characters they contain. Formatting into a writer that fails reports the failure, after writing a prefix of the text.",
 ["inputs"],"every fragment obtained by parsing, including every combination of quotes, ampersands, angle brackets and non-ASCII text in values",
 "Tests compare a few formatted events with literals and never parse them back.",
 [LB,FR,TX],[("Display for SgmlEvent",LB),("Display for SgmlFragment",FR),("text::escape",TX)],
 ["parse(fragment.to_string()) vs. fragment"])
p("C14","Escaped text is markup-free and decodes to the original",
 "For every string, the escaped form contains no '<' or '>' and no '&' except as the start of a character reference, and expanding its character references gives back exactly the original string; when ampersand escaping is turned off only '<' and '>' are replaced. Iterating and formatting produce the same characters, size hints always bound the number of remaining characters, and an exhausted iterator stays exhausted. Formatting into a writer that fails reports the failure, after writing a prefix of the text.",
 ["inputs","histories"],"every string, every prefix of the iteration and both ampersand settings (also switched mid-way)",
 "Tests step through a single word and check three strings.",
 [TX],[("Escape iterator and size_hint",TX),("Display for Escape",TX)],
 ["characters and size hints of Escape at every step","expand_characters(escape(s))"])
p("C15","End-tag normalization balances documents by only adding end tags",
 "When end-tag normalization succeeds, every start tag in the result has a matching end tag and the elements nest properly; the result is the input with only end tags inserted (each omitted one directly before the next tag, not counting white space before it) and self-closing tags turned into a start and end tag. It is the identity on already balanced documents, is idempotent, and fails exactly when some end tag has no matching start tag or an empty tag is present.",
 ["inputs"],"every fragment the parser can produce, balanced or not, with any mix of omitted, self-closing, repeated and nested names",
 "Five documents are tested; balance and minimality are statements about all tag sequences.",
 [NE,TR],[("normalize_end_tags reverse scan with end-tag stack",NE),("Transform::apply",TR)],
 ["event list before and after normalize_end_tags"],state=[("stack","names of end tags seen to the right and not yet paired",NE),("next_insertion_point","index where an implied end tag would go",NE)])
p("C16","Transforms apply insertions and removals as if indexed in the original",
 "Applying a transform gives the original events with exactly the removed positions missing and each inserted event placed before the original event at its index, whatever the order in which operations were recorded. Insertions at one index keep their recording order, repeated removals count once, indices at or past the end insert at the end (ordered by index) or remove nothing, and an empty transform changes nothing.",
 ["inputs","histories"],"every fragment and every sequence of insert/remove operations, including repeated, unordered and out-of-range indices",
 "Three tests apply two operations each.",
 [TR],[("Transform::apply merge of sorted insertions and deletions",TR)],
 ["result of Transform::apply vs. a direct list model"])
p("C17","Deserializing a document recovers the data it encodes",
 "For every serde-described value built from structs, sequences, tuples, maps, options, newtypes, strings, characters, numbers, booleans and '$value' text, a normalized document that spells that value out in the documented form deserializes to an equal value. Each datum ends up in the field it names: neighbouring fields, repeated elements and nested structures never exchange, lose or duplicate content. Values that stand one after another are recovered in turn from one deserializer.",
 ["inputs","programs"],"every data type in the documented model, every value of it and every documented spelling of that value",
 "Fourteen tests fix a type and a document each; the property ranges over types, values and spellings together.",
 [DE,BU],[("MapAccess / SeqAccess / EnumAccess",DE),("consume_text / push_elt / pop_elt",DE),("CowBuffer",BU)],
 ["value returned by from_fragment vs. the value the document was generated from"],state=[("stack","open elements",DE),("map_key","tag name governing a following sequence or enum",DE),("accumulated_text","text handed to '$value'",DE)])
p("C18","Attributes and child elements are interchangeable as sources of a field",
 "A scalar, string or fieldless-enum field deserializes to the same value whether it is written as an attribute of the container or as a child element with that text, at any nesting depth and regardless of the order of fields and of which other fields use which form. A boolean written as a bare, empty-valued or self-named (any case) attribute is true, exactly as 'true' or '1' would be.",
 ["inputs","programs"],"every struct type with such fields and every assignment of fields to attribute or element form",
 "README examples are only partly covered by two tests; mixed forms, nesting and enum attributes are not.",
 [DE],[("consume_text attribute branch",DE),("deserialize_bool flags",DE),("deserialize_enum",DE)],
 ["from_fragment results of differently spelled documents"])
p("C19","Deserialization always returns, whatever the fragment and target type",
 "Deserializing any list of events, well-formed or not, into any target type returns a value or an error: it never panics, overflows the stack or loops. The number of map entries, sequence elements and scalars handed to the target type is bounded by the number of events in the fragment.",
 ["inputs","programs"],"every event sequence (parsed, edited or hand-built) paired with every target type",
 "Tests deserialize valid documents into matching types plus two rejected ones; panics and endless loops need mismatched shapes.",
 [DE],[("unreachable!/unwrap sites and cursor advance",DE),("pop_elt skipping",DE)],
 ["return of from_fragment, count of visitor callbacks, process exit status"],state=[("events cursor","must advance for every entry handed out",DE)])
p("C20","Inconsistent or unsupported fragments are never deserialized silently",
 "If the element being deserialized contains an end tag that does not match its start tag, or lacks an end tag, deserialization fails. If a part of it that is read into the target contains a markup declaration, processing instruction, raw marked section or empty tag, deserialization fails instead of skipping it, reporting the unsupported construct unless another error is met before it.",
 ["inputs","programs"],"every otherwise valid document with one tag mismatch, missing end or unsupported event at any position, for every target type",
 "One declaration and one instruction in one position each are tested; mismatched tags are not tested at all.",
 [DE],[("pop_elt name comparison",DE),("normalize_at_cursor",DE)],
 ["Ok/Err of from_fragment on documents with one injected fault"])
p("C21","Scalar fields accept exactly their valid texts and never alter the value",
 "An integer or float field accepts exactly the texts Rust's own parsing of that type accepts and yields the same number; out-of-range or malformed text is an error, never a wrapped, truncated or default value. A boolean accepts only 'true', 'false' (any case), '1' and '0' (and attribute flags), a character field exactly one character, and strings arrive unchanged.",
 ["inputs"],"every scalar type and every text, from attributes and from elements",
 "Tests read a few small integers and five booleans.",
 [DE],[("forward_parse macro",DE),("deserialize_bool",DE)],
 ["from_fragment into each scalar vs. str::parse"])
p("C22","Enums deserialize from every documented form and only take their own content",
 "An externally tagged enum deserializes to the variant named by the child element's tag, or, for variants without data, also by element text or attribute value, with the variant's data taken from that variant's own element (for tuple variants, from the run of repeated elements with its tag); unknown variants and string forms of variants with data are errors. Reading one enum value never consumes, skips or reinterprets a neighbouring element.",
 ["inputs","programs"],"every enum type (unit, newtype, tuple, struct variants, recursive), in fields, sequences, '$value' lists and maps",
 "Tests cover two enum types in a fixed order; payload kinds, neighbours and forms are not crossed.",
 [DE],[("deserialize_enum",DE),("EnumAccess / VariantAccess",DE)],
 ["from_fragment results for generated enum documents and their neighbours"])
p("C23","Owning a fragment changes nothing but its lifetime",
 "Converting a fragment or event to its owned form yields an equal fragment or event that formats and deserializes identically, and all ways of viewing a fragment (length, slice, iterators, vector) show the same events in the same order. Text and attribute values that contain no '&' can be deserialized into borrowed strings pointing into the input.",
 ["inputs"],"every fragment, every event kind and every target type",
 "No test compares owned and borrowed forms.",
 [LB,FR,DE,BU],[("SgmlEvent::into_owned / SgmlFragment::into_owned",LB),("CowBuffer",BU),("visit_borrowed_str",DE)],
 ["equality and deserialization of owned and borrowed fragments","addresses of borrowed strings relative to the input"])
p("C24","Parsing is a pure function of input and configuration",
 "Parsing the same input with the same configuration always gives the same result: a parser can be reused any number of times in any order, including after errors and after a lookup that panicked, and behaves like a fresh one; the builder's shortcuts equal the long forms. The choice of error type never changes which inputs are accepted nor the events produced.",
 ["histories","inputs","configurations"],"every sequence of inputs fed to one parser and every error type",
 "Each test builds a fresh parser and parses once with one error type.",
 [PM,PE],[("Parser::parse / parse_with_detailed_errors",PM),("ParserBuilder",PM)],
 ["results along histories of parses on one parser vs. fresh parsers; results across error types"])
p("C25","Error reports point at the right place in the input",
 "A parse error's description names the 1-based line of the reported position, echoes that line (shortened around the position when long) and places the caret under the reported character, for any text including multi-byte characters; the position always lies within the input. For an unterminated or otherwise broken construct, and for an undefined entity, the report (position or its context list) leads to the line where that construct starts, and an undefined entity is named.",
 ["inputs"],"every rejected input, every line length and column, every single injected fault",
 "Tests render three ASCII-mostly lines at fixed columns and never check the position of an actual parse failure.",
 [ER,PU,PM],[("LocatedLine::locate / Display",ER),("describe_to context list",ER),("into_nom_failure",PM)],
 ["text of the error returned by Parser::parse","fields of ContextualizedError"])
p("C26","Public combinators consume a prefix and report exactly what they consumed",
 "Each public low-level parser, on every input, either fails or splits the input into a consumed prefix and the untouched rest, and what it outputs is the documented part of that prefix; event-producing parsers agree with the raw ones and with parsing the whole document. Event iterators always know their exact remaining length and yield nothing more once exhausted.",
 ["inputs"],"every combinator on every input string",
 "Tests run each combinator on a short list of literals.",
 [PR,PE,PU],[("raw combinators",PR),("events combinators and EventIter",PE),("util combinators",PU)],
 ["(rest, output) of each combinator; len()/size_hint() of EventIter at every step"])
p("C27","Content unknown to the target type is skipped whole and disturbs nothing",
 "For a target type that ignores unknown fields, adding attributes or whole child elements with names it does not know, of any shape and depth and at any position between its fields, never changes the deserialized value. The same holds for text between the child elements of a struct, and before and after the elements read as its '$value'.",
 ["inputs","programs"],"every document, target type and inserted unknown subtree",
 "No test has unknown elements with nested structure next to known ones.",
 [DE],[("deserialize_ignored_any / deserialize_unit",DE),("pop_elt skipping",DE)],
 ["from_fragment results with and without the inserted content"])
p("C28","Parsing, normalizing and deserializing recover the data from any spelling",
 "The three documented steps (parse with a suitable configuration, insert omitted end tags, deserialize) give back the value a document encodes however the document is spelled: comments, ignored sections and ignored declarations or instructions anywhere between constructs, text given as plain text, CDATA or RCDATA sections, numeric references or defined entities, attributes quoted either way or not at all, content wrapped in included sections, end tags omitted from elements without child elements, empty elements self-closed, names in any case under case normalization, and white space around content under trimming. Any two spellings of one value read as equal values.",
 ["inputs","configurations","programs"],"every serde-described value, every spelling of it and every parser configuration that gives the spelling its meaning",
 "The steps are tested apart, on a few documents each; that their results fit together for every combination of features is tested by two documents.",
 [PM,PE,PR,EN,NE,DE,BU],[("text, attribute, marked_section_body and start_tag",PE),("normalize_end_tags",NE),("MapAccess / SeqAccess / EnumAccess",DE)],
 ["value returned by from_fragment(normalize_end_tags(Parser::parse(source)))"])
p("C29","Errors after parsing tell which fault a document has",
 "If a document that fits its target type is faulty in one place, the error tells that fault: an end tag under another name is reported as a mismatch with the expected and the found name, a fragment that ends early as an unexpected end, and a number with malformed or out-of-range text, as element or attribute, with the error the standard library gives for exactly that text. A boolean or character with other text is reported with that text, and what the target type itself rejects (a missing field, an unknown variant) with the type's own message. End-tag normalization of a list with one end tag that pairs with nothing names that tag, and an empty tag is reported as such. The error messages show these names and causes.",
 ["inputs","programs"],"every document, target type and position of a single fault",
 "Tests check the kind of a few errors on minimal fragments; which error is met first depends on the order in which the whole fragment is read.",
 [DE,NE,"src/error.rs"],[("pop_elt, peek, forward_parse!",DE),("NormalizationError",NE),("Error conversions","src/error.rs")],
 ["error returned by from_fragment and normalize_end_tags, and its message"])
p("C30","Operations that run at once or inside of each other do not disturb each other",
 "The library calls back into its user: entity lookups, target types, writers, and iterators that are advanced step by step. Whatever the user does there - parses, expands, prints, deserializes, escapes or normalizes something else, with the same or another parser, any number of levels deep - and whatever other threads do at the same time, each operation gives the result it gives alone.",
 ["schedules","histories","inputs"],"every set of operations of the library, every interleaving of them at the points where user code is called, on one thread or several",
 "No test runs two operations of the library at the same time or one inside of another.",
 [PM,PE,EN,"src/text.rs",FR,NE,DE],[("Parser::parse, ParserConfig lookups",PM),("EventIter",PE),("expand_entities",EN),("Escape","src/text.rs"),("Display for SgmlFragment",FR),("normalize_end_tags",NE),("SgmlDeserializer",DE)],
 ["results of every operation in generated interleavings vs. the operation alone"])
p("C31","Types that decide by the content see all of it, and read the same by detours",
 "An element read into a type that takes whatever is there (a self-describing value such as serde_json::Value) is offered as what it is: where it has attributes or child elements, as a map with one entry per attribute and then one per child element, in document order, repeated names included (an element with attributes but no child elements has its text under `$value`); otherwise as its text, unaltered and not guessed to be a number or boolean. Names and text come from the document, unaltered. A value read by a detour through such content - an untagged, internally tagged or adjacently tagged enum, flattened fields - equals the value read directly, wherever among the fields the tag stands, and the fields around it are undisturbed.",
 ["inputs","programs"],"every element tree, every nesting of self-describing values among typed fields, every position of the tag",
 "One or two tests read a self-describing value of two or three fields; what is lost, reordered or reinterpreted shows only for particular combinations of attributes, repeated elements, mixed content and neighbours.",
 [DE,BU],[("deserialize_any",DE),("ElementDeserializer / MapAccess",DE)],
 ["self-describing value read vs. the element tree","value read through untagged / tagged / flattened types vs. the value"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
