PARSE = ["parser.go", "parserctx.go", "tree.go", "document.go"]
MODEL = "bounded exhaustive enumeration of documents, replayed on the real parser and compared with a reference model"
NOTE = "Every document of the listed finite spaces (token sequences up to a depth, products of document parts, all edits of seed documents) is run through the real, instrumented code and compared with an independent executable model of XML 1.0 and Namespaces; nothing is sampled. Assumes the model; what it leaves undecided (listed in DESIGN.md) is not compared. Says nothing beyond the bounds in the evidence."

prop("C01", "Parsing any bytes ends in bounded work, with a document or an error",
 "For every sequence of bytes, and whichever SAX handler listens, parsing returns after a bounded amount of work and without a crash. With the tree builder the result is either a document and no error or an error and no document, whether there is an error does not depend on a handler that passes every event on to the tree builder, and a document that is returned can be walked and written without a crash or an error.",
 ["inputs"], "all byte sequences, well-formed or not, in any or no encoding, with any entity and parameter entity declarations",
 "The tests parse a few dozen fixed files, nearly all of them well-formed; hostile, truncated and self-referential input is unbounded.",
 PARSE + ["dump.go", "node.go", "entity.go"],
 [("parse loop and error returns", "parserctx.go parseDocument, parseContent, parseElement"), ("limits of entity expansion and recursion", "parserctx.go parseBalancedChunkInternal, document.go stringToNodeListInternal"), ("end of input in every scanner", "parserctx.go parseComment, parsePI, parseCDSect, parseCharData, parseAttributeValueInternal")],
 "bounded exhaustive enumeration of inputs on the real code under a statement budget", "model_checking",
 "All inputs of the listed spaces are executed on the real code, with a count of executed statements that stands for termination (the instrumentation counts every statement, so the verdict does not depend on time) and a memory watchdog. No claim beyond the bounds of the spaces.",
 observe=["Parser.Parse", "Walk", "Document.XMLString"])

prop("C02", "A document is accepted if and only if it is well-formed",
 "Parsing reports an error for every document that is not well-formed according to XML 1.0 and Namespaces in XML 1.0, including violations inside the internal DTD subset and inside the replacement text of referenced entities. It reports no error for a well-formed document whose encoding is supported and that needs no external entity.",
 ["inputs"], "all documents over the alphabets of the explored spaces; parameter entity references and encodings other than UTF-8 are covered by other properties",
 "Tests check a handful of good files and a few bad ones; each production has unboundedly many wrong variants.",
 PARSE + ["stack.go", "valid.go", "dtd.go"],
 [("productions", "parserctx.go parse* functions"), ("tag matching", "parserctx.go parseElement, parseEndTag, nodeTab"), ("well-formedness constraints on entities", "parserctx.go entityCheck, parseEntityRef, checkEntityInAttValue"), ("namespace constraints", "parserctx.go parseStartTag, stack.go nsStack")],
 MODEL, "model_checking", NOTE, observe=["Parser.Parse"])

prop("C03", "The tree of a document has exactly the contents of the document",
 "For every well-formed document, the tree holds exactly the nodes of the document in document order: elements with their prefix, local name, namespace and namespace declarations, specified attributes with their normalised values and entity references, character data after line-end normalisation and character references, comments, processing instructions, entity references and the document type, and the version, encoding and standalone status. Parent, child, sibling and owner-document links of the tree agree with each other.",
 ["inputs"], "all well-formed documents over the alphabets of the explored spaces",
 "Tests compare few trees, and mostly through the dump of a document.",
 PARSE + ["node.go", "element.go", "text.go", "attr.go", "comment.go", "pi.go", "namespace.go"],
 [("tree building", "tree.go TreeBuilder"), ("links", "node.go addChild, addSibling, setListDoc"), ("text merging", "text.go AddContent, tree.go Characters"), ("line ends", "parserctx.go eolReader")],
 MODEL, "model_checking", NOTE, observe=["Document.FirstChild and the navigation methods of Node", "Element.Attributes", "Element.Namespaces"])

prop("C04", "Writing a parsed document preserves its contents, and is idempotent",
 "For every well-formed document, what is written for its tree is a well-formed document with the same contents: the same nodes, names, namespaces, values and character data, and, apart from notations and repeated declarations, the same declarations in the same order. Parsing what was written and writing it again gives the same bytes.",
 ["inputs"], "all well-formed documents over the alphabets of the explored spaces, with every character that needs to be escaped in every place",
 "The golden-file tests cover one round trip per file; which characters, quotes and declarations meet in which place is unbounded.",
 ["dump.go", "document.go", "attr.go", "dtd.go", "element.go"],
 [("escaping", "dump.go escapeText, escapeAttrValue, dumpQuotedString"), ("declarations", "dump.go dumpDTD, dumpElementDecl, dumpAttributeDecl, dumpEntityDecl"), ("nodes", "dump.go DumpNode, DumpDoc")],
 MODEL + "; what is written is read by the model and by the parser", "model_checking", NOTE, observe=["Document.XMLString", "Dumper.DumpDoc"])

prop("C05", "SAX handlers are told the contents of a document, in document order",
 "For every well-formed document, a handler gets one start and one end of the document and between them, in document order and properly nested, every element start (with its name, namespace declarations, attributes and defaulted attributes) and end, all character data, CDATA sections, comments, processing instructions, and the document type with its declarations. A handler that passes everything on to the tree builder sees the same as one that does not. For other documents the events before the error are properly nested, and the end of the document is not announced.",
 ["inputs"], "all documents over the alphabets of the explored spaces",
 "The SAX tests look at the events of a few files.",
 ["parserctx.go", "sax/interface.go", "sax/sax2.go", "tree.go", "parser.go"],
 [("events", "parserctx.go calls of ctx.sax"), ("dispatch", "sax/sax2.go")],
 MODEL, "model_checking", NOTE, observe=["sax.SAX2Handler"])

prop("C07", "Names are bound to namespaces by the innermost declaration in scope",
 "Every element and every prefixed attribute has the namespace that the innermost enclosing declaration of its prefix gives it (the default namespace applies to elements only, xmlns=\"\" removes it, xml is always bound), in the tree, in SAX events and after writing. Declarations end with the element that makes them. Unbound prefixes, repeated declarations and attributes of the same expanded name are errors.",
 ["inputs"], "all nestings of elements, declarations and prefixed names up to the depths explored",
 "Scoping errors need a particular arrangement of siblings and nested declarations, of which tests have few.",
 ["parserctx.go", "stack.go", "internal/stack/unique.go", "internal/stack/stack.go", "namespace.go", "element.go", "tree.go"],
 [("stack of namespaces", "stack.go nsStack; internal/stack/unique.go"), ("scopes", "parserctx.go parseStartTag, parseEndTag, pushNS, popNS, lookupNamespace")],
 MODEL, "model_checking", NOTE)

prop("C08", "Attribute values are normalised, and defaults apply, as declared",
 "The value of an attribute has its references and white space replaced as XML 1.0 says, and leading, trailing and repeated blanks removed if and only if its declared type is not CDATA, whichever element and attribute the type is declared for. An attribute with a default or fixed value that an element does not specify is reported exactly once, marked as default, with the declared value; one that is specified never is. The first declaration of an attribute counts.",
 ["inputs"], "all combinations of attribute types, defaults, values, references, and places of the declarations, up to the bounds explored",
 "Tests have a few attribute lists; types, defaults, entities and specified attributes interact.",
 ["parserctx.go", "attr.go", "dtd.go", "document.go", "tree.go"],
 [("normalisation", "parserctx.go parseAttributeValueInternal, attrNormalizeSpace"), ("types and defaults", "parserctx.go addSpecialAttribute, addAttributeDecl, lookupAttributeDefault"), ("values as nodes", "document.go stringToNodeList")],
 MODEL, "model_checking", NOTE)

prop("C09", "Entity references mean what the first declaration of the entity says",
 "A reference to an internal general entity is accepted exactly where its replacement text, with the entities it refers to in turn, is allowed, and stands for that text in the tree, in attribute values and after writing; predefined entities and character references stand for their character. References to undeclared, unparsed, recursive or (in attributes) external entities, and replacement texts that are not balanced, are errors. The first declaration of an entity is binding.",
 ["inputs"], "all combinations of replacement texts of three entities and the places they are referenced from, and chains and cycles of up to twelve entities",
 "Tests declare few entities; nesting, order and cycles of declarations are combinatorial.",
 ["parserctx.go", "entity.go", "dtd.go", "document.go", "tree.go", "reference.go"],
 [("references", "parserctx.go parseReference, parseEntityRef, parseStringEntityRef"), ("replacement text", "parserctx.go parseEntityValue, decodeEntities, parseBalancedChunkInternal"), ("tables", "dtd.go AddEntity, document.go GetEntity")],
 MODEL, "model_checking", NOTE)

prop("C10", "Declarations of the internal subset are checked, kept and can be looked up",
 "Declarations of elements, attributes, entities and notations in the internal subset are accepted exactly if they are well-formed, are announced to the SAX handler with their names, types, content models, enumerations, identifiers and defaults, and all but notations are written again with the same meaning. The lookup functions of the document type find every declared element, attribute, entity and parameter entity by name and nothing else, with the first declaration binding.",
 ["inputs"], "all declarations over the token alphabets of the explored spaces, up to the depth explored",
 "The grammar of declarations, content models above all, is recursive; tests have a few samples.",
 ["parserctx.go", "valid.go", "dtd.go", "dump.go", "tree.go", "document.go"],
 [("declarations", "parserctx.go parseElementDecl, parseAttributeListDecl, parseEntityDecl, parseNotationDecl, parseElementContentDecl"), ("content models", "valid.go newElementContent, copyElementContent"), ("tables", "dtd.go LookupElement, LookupAttribute, LookupEntity")],
 MODEL, "model_checking", NOTE, observe=["DTD.Lookup*", "Document.IsMixedElement", "Document.GetEntity", "sax declaration events", "Document.XMLString"])

prop("C06", "An error that a SAX handler returns ends parsing, and is returned",
 "Whichever call of a SAX handler returns an error (other than that it has no handler for the event), at whatever event of whatever document, parsing ends without another call of the handler, and returns that error, possibly wrapped, and no document. A handler that returns no errors is not affected by any of this.",
 ["fault_sequences", "inputs"], "a fault at every single call of a handler, for all documents of the explored spaces",
 "A test can make one event of one document fail; every event of every construct has its own error path.",
 ["parserctx.go", "parser.go", "sax/sax2.go", "tree.go"],
 [("error returns after every call of ctx.sax", "parserctx.go"), ("result", "parser.go Parse")],
 "exhaustive enumeration of fault points: every call of the handler fails once, on the real parser", "fault_enumeration",
 "For every document of the listed spaces, one execution for every call that a handler gets, in which that call returns an error; nothing is sampled. One fault per execution.", observe=["sax.SAX2Handler", "Parser.Parse"])

prop("C11", "Any sequence of operations leaves the nodes a well-formed forest",
 "After any sequence of operations on nodes (creating, adding as child or sibling, adding content, replacing, setting attributes and namespaces, moving a tree to another document), parent, first and last child, sibling and owner-document links of all nodes agree, no node is its own ancestor, and the children of every node are those that the operations put there, in their order. An operation that is refused returns an error and changes nothing.",
 ["histories", "programs"], "all sequences of operations over a fixed set of nodes up to a depth, and all states they reach",
 "Links are updated by hand at a dozen places; what breaks them is the state that earlier operations left.",
 ["node.go", "document.go", "element.go", "text.go", "attr.go", "comment.go", "pi.go", "reference.go", "dtd.go"],
 [("links", "node.go addChild, addSibling, replaceNode, setListDoc"), ("merging of text", "text.go AddSibling, AddContent; node.go addContent"), ("attributes", "element.go SetAttribute, addProperty")],
 "bounded exhaustive exploration of operation sequences, and of the graph of states they reach, on the real tree against a model of a forest", "model_checking",
 "All sequences of operations up to the depth, and one representative of every reached state beyond it, are executed on the real nodes and compared after every operation with an independent model. Bounded number of nodes. Nodes that already have a parent are not added elsewhere.",
 observe=["Node navigation methods", "Element.Attributes"])

prop("C12", "A document built through the API is written as if it had been parsed",
 "A tree made of CreateDocument, the Create functions, SetAttribute, SetNamespace, AddChild, AddSibling and AddContent, in whatever order it is assembled, is the same tree as that of the parsed document with these contents, and is written as a well-formed document with exactly these contents. Characters that have a meaning in markup are escaped wherever they are put. Bytes and characters that no document can have are written as U+FFFD in text and attribute values, so that what is written is well-formed whatever bytes a program puts there.",
 ["programs", "inputs"], "all trees of the explored documents, assembled in five orders, and all trees of a bounded number of nodes",
 "Tests build a handful of documents in one order.",
 ["document.go", "element.go", "node.go", "text.go", "dump.go", "attr.go", "dtd.go", "tree.go"],
 [("construction", "document.go Create*; node.go addChild"), ("declarations", "dtd.go AddEntity, AddNotation; document.go CreateInternalSubset"), ("writing", "dump.go")],
 "bounded exhaustive enumeration of trees and orders of assembly, replayed on the real API and compared with a reference model and with the parser", "model_checking", NOTE, observe=["Document.XMLString", "Document.FirstChild"])

prop("C13", "Walk visits every node once, in document order, and stops on error",
 "Walk calls its function for the node it is given and everything below it, parents before children and siblings in order, each exactly once. When the function returns an error, Walk calls it no more and returns that error. Moving a tree to another document with SetTreeDoc reaches every node of it.",
 ["inputs", "fault_sequences"], "all trees of the explored documents, walks from every node of them, and an error at every step",
 "Tests walk few shapes of trees, and none to an error.",
 ["walk.go", "node.go", "tree.go"],
 [("recursion", "walk.go Walk"), ("owner documents", "node.go setTreeDoc, setListDoc")],
 "bounded exhaustive enumeration of trees and of the step that fails, on the real code", "model_checking", NOTE, observe=["Walk", "Node.SetTreeDoc"])

prop("C15", "Results do not depend on earlier use of a parser or on other documents",
 "A parser that has parsed any sequence of documents before, well-formed or not and with whatever handlers, gives for the next one the events, tree and error that a new parser gives. Parsing neither changes nor keeps its input, and no change of one document shows in another one or in what is parsed later. The shared predefined entities never change.",
 ["histories"], "all sequences of parses over a fixed set of documents up to a depth, and all documents of the explored spaces parsed, changed and parsed again",
 "Leaks of state between uses need a particular history, and pooled or shared objects.",
 ["parser.go", "parserctx.go", "tree.go", "entity.go", "document.go", "stack.go", "node.go"],
 [("context per parse", "parser.go Parse; parserctx.go init, release"), ("state of the tree builder", "tree.go TreeBuilder"), ("shared entities", "entity.go EntityLT ...")],
 "bounded exhaustive exploration of histories on the real code", "model_checking",
 "All sequences of steps of one parser up to the depth are executed, and every result is compared with that of a parser that is used once. Bounded set of documents.", observe=["Parser.Parse", "Document.XMLString"])

prop("C19", "A writer that fails makes writing fail, with that error and no more output",
 "When the writer that a document or node is written to accepts only part of a write, whether it says so by an error or by the count alone, writing it returns an error (the one of the writer, possibly wrapped), writes nothing further, and what was accepted is a prefix of what is written otherwise. Writing it again to a sound writer gives all of it.",
 ["fault_sequences"], "a fault at every byte of the output, in three ways, for all documents of the explored spaces and all their nodes",
 "Every write has its own error path; a test can only fail some.",
 ["dump.go", "document.go", "element.go"],
 [("error returns of writes", "dump.go Dumper, DumpDoc, DumpNode")],
 "exhaustive enumeration of fault points: the writer fails at every byte, on the real code", "fault_enumeration",
 "For every document of the listed spaces and every node of it, an execution for every number of bytes after which the writer fails and every way to fail; nothing is sampled. One fault per execution.", observe=["Dumper.DumpDoc", "Dumper.DumpNode", "Document.XML", "Element.XML"])

prop("C14", "What is done at the same time gives the results it gives alone",
 "Parsing with different parsers or one shared parser, the package function Parse, SAX parsing, building and writing own documents, and reading (writing, walking, looking up) one shared document, done by several goroutines at the same time, give the results that they give alone, and have no data race among each other.",
 ["schedules"], "all interleavings of two tasks at the granularity of statements, up to a number of preemptions",
 "The tests run one goroutine; a race or a pooled buffer that is shared shows only in particular schedules.",
 ["parser.go", "parserctx.go", "tree.go", "dump.go", "document.go", "entity.go", "node.go", "internal/stack/unique.go", "stack.go"],
 [("pooled buffers", "parserctx.go bufferPool and its uses"), ("state of a parser", "parser.go Parse, tree.go TreeBuilder"), ("shared entities", "entity.go EntityLT ...; document.go GetEntity"), ("reading a document", "dump.go, walk.go, document.go IsMixedElement")],
 "stateless exploration of the schedules of the real, instrumented code under a controlled scheduler with a preemption bound; the race detector on the same tasks", "model_checking",
 "All pairs of tasks are run under a cooperative scheduler in every schedule with one preemption at any statement, and small ones with two; the result of each task is compared with the one it has alone. Bounded: two tasks, the preemption bound, sequential consistency at the granularity of statements; the race detector, run on pairs at once, is what covers the rest of the memory model, and is not exhaustive.",
 observe=["Parser.Parse", "Parse", "Document.XMLString", "Walk", "sax.SAX2Handler"])

prop("C16", "Documents in any supported encoding are read and written in it",
 "A document that declares a supported encoding (names are case-insensitive) has the characters that its bytes encode, and is written in that encoding so that it reads the same, with references for the characters of text and attribute values that the encoding lacks. Bytes that the encoding does not define, names of unsupported encodings, and byte order marks of UTF-16 or UCS-4 before a document in UTF-8 are errors; a byte order mark of UTF-8 is accepted and is not part of the document.",
 ["inputs"], "all supported encodings, all their single bytes and pairs of bytes in text, and documents with every kind of character in every place",
 "The tests have one or two files in other encodings; a wrong table entry or a wrong end of a multi-byte character shows for particular characters.",
 ["parserctx.go", "encoding/encoding.go", "dump.go", "document.go"],
 [("names", "encoding/encoding.go Load"), ("switching", "parserctx.go switchEncoding, detectEncoding, parseXMLDecl"), ("writing", "dump.go DumpDoc; document.go")],
 "bounded exhaustive enumeration of encodings, bytes and documents, replayed on the real parser and compared with the code tables", "model_checking",
 "Every supported name, every byte and pair of bytes of the listed ranges, and all listed documents, are run on the real code and compared with the decoding by the tables of golang.org/x/text, which are trusted, followed by the reference model. ISO-2022-JP and HZ-GB2312 are written with characters they have only.",
 observe=["Parser.Parse", "Document.XMLString", "encoding.Load"])

prop("C17", "What a document means does not depend on where in the input it falls",
 "Whatever comes before a part of a document and however long its names, values, text, comments and declarations are, it means the same: no character, reference, line end or delimiter is lost, doubled, split or misread because it lies at the edge of a buffer or because a buffer is too small for it.",
 ["inputs"], "all offsets of documents around the sizes of buffers, in all paddings, and all constructs of all lengths around them",
 "A defect at the edge of a buffer needs a particular character at a particular offset; tests have none there.",
 ["parserctx.go", "parser.go", "dump.go"],
 [("reading", "parserctx.go runeReader, eolReader and the cursors"), ("buffers of scanners", "parserctx.go parseCharData, parseComment, parseName, parseAttributeValueInternal")],
 MODEL, "model_checking", NOTE, observe=["Parser.Parse", "Document.XMLString"])

prop("C18", "The error of a malformed document says where it is",
 "The error for a document that is not well-formed names the line of the defect: one more than the number of line ends (\\n, \\r\\n or \\r) before it, whatever constructs they are in. The column and the text that the error shows are those of that place in the input, and lines put before the defect move it by as many lines and change nothing else.",
 ["inputs"], "all defects of a list in all contexts of a list, with lines of all kinds put into every place before them, and all malformed documents of the explored spaces",
 "Tests look at no place of an error; every construct counts the lines within it in its own way.",
 ["parserctx.go", "errors.go", "parser.go"],
 [("places", "parserctx.go newParseError, errors.go ErrParseError"), ("counting", "parserctx.go eolReader, cursors, switchEncoding")],
 "bounded exhaustive enumeration of malformed documents and of the places of line ends before the defect, on the real parser", "model_checking",
 "All listed documents are run on the real parser; the line, column and text of the error are compared with the input itself, and with those of the document with fewer lines (a metamorphic relation). Defects inside the replacement text of entities, and on the line on which an XML declaration ends, are compared by line only.", observe=["ErrParseError"])

prop("C20", "Every node says what kind of node it is, and which document it is of",
 "Every node of a parsed document, in its tree, among the attributes of its elements and in its document type, says with Type what it is (an Element is an ElementNode, a Text a TextNode, an AttributeDecl an AttributeDeclNode and so on), and has the document as its owner. The name of each kind of node is that of its constant, and a number that is no kind has a name with that number.",
 ["inputs"], "all nodes of all documents of the explored spaces; all kinds, and numbers that are none",
 "Programs choose what to do with a node by its kind; the kinds of declarations and attributes are in no test.",
 ["interface.go", "node.go", "element.go", "dtd.go", "entity.go", "attr.go", "document.go"],
 [("kinds", "interface.go ElementType"), ("names of kinds", "element.go ElementType.String"), ("where kinds and owners are set", "constructors newElement, newText, newAttribute, newEntity, newDTD, newElementDecl; node.go, dtd.go addChild")],
 "bounded exhaustive enumeration of documents on the real code; every node is visited and compared with what its Go type calls for", "model_checking", NOTE, observe=["Node.Type", "ElementType.String", "Node.OwnerDocument"])

prop("C21", "SAX2 calls the handler that is set for an event, with all arguments",
 "Each method of sax.SAX2 calls exactly the handler that is set for its event, with all of its arguments, and returns what the handler returns; without one it returns ErrHandlerUnspecified, which does not make parsing fail. Which other handlers are set changes neither the events that a handler gets nor whether parsing succeeds.",
 ["configurations", "inputs"], "all sets of handlers up to a size, and all but those, with every method, and with all documents of the explored spaces",
 "There are 25 handlers, generated by a script; the tests set nearly all of them at once.",
 ["sax/sax2.go", "sax/interface.go", "parserctx.go"],
 [("dispatch", "sax/sax2.go methods of SAX2"), ("unhandled events", "parserctx.go calls of ctx.sax, ErrHandlerUnspecified")],
 "exhaustive enumeration of sets of handlers, called directly and by the real parser", "model_checking",
 "All sets of handlers up to the bound, and their complements, are set in a SAX2 whose methods are called with values that can be told apart, and which the real parser calls for the listed documents; expected is the projection of what all handlers get. Bounded sizes of sets and documents.", observe=["sax.SAX2", "Parser.Parse"])

prop("C22", "Parse and load options are independent flags",
 "After any sequence of Set calls, IsSet is true for exactly those options that were set, of ParseOption and of LoadSubsetOption.",
 ["configurations"], "all sets of options, in two orders, and all sequences of three",
 "There is no test of the options; two flags that share a bit show only in certain sets.",
 ["interface.go", "bitset.go"],
 [("flags", "interface.go ParseOption, LoadSubsetOption"), ("sets", "bitset.go")],
 "exhaustive enumeration of all sets of options on the real code", "model_checking",
 "All 2^20 sets of parse options, and all sequences of three options of both kinds. The options have no effect on the parser in this version, which the property does not ask for.", observe=["ParseOption.Set", "ParseOption.IsSet"])

prop("C23", "helium-lint writes all documents, and reports the first it cannot",
 "helium-lint parses the files it is given, or standard input without any, in their order, and writes each as Document.XMLString has it. It exits with 0 if all were read, well-formed and written; otherwise with another status, a message on standard error and the documents before the first that was not. It never crashes, and options (--version, --format, --noblanks, unknown ones) change nothing of this.",
 ["configurations", "fault_sequences"], "all sequences of arguments up to a length, with good, malformed, missing and unreadable files, and sinks that fail",
 "The command has no tests.",
 ["cmd/helium-lint/helium-lint.go", "internal/cliutil/tty.go", "dump.go"],
 [("arguments and exit status", "cmd/helium-lint/helium-lint.go _main")],
 "bounded exhaustive enumeration of command lines, inputs and failing outputs, on the real command", "model_checking",
 "All sequences of arguments up to the bound are run with the command built from the tree; its output is compared with what the library gives for each file. Options that show the version or usage are compared by exit status.", observe=["helium-lint"])

prop("C24", "White space is ignorable only where there can be no text",
 "White space in the content of an element is reported as character data if xml:space is \"preserve\" for the element (by an attribute, a default, or an element around it that says so last) or the element is declared with content that may have text, and as ignorable if it is declared with element content and xml:space does not say otherwise, whichever handler listens. Text with any other character, references to characters, and CDATA sections are never ignorable, and all of it is reported, in order.",
 ["inputs"], "all declarations of content, places of xml:space, and sequences of blanks, text and markup up to a length",
 "The SAX tests have golden files for a few documents, all without xml:space; what is reported depends on declarations and on attributes of elements around.",
 ["parserctx.go", "document.go", "tree.go"],
 [("classification", "parserctx.go areBlanks, parseCharData"), ("content types", "parserctx.go parseElementDecl, document.go IsMixedElement"), ("xml:space", "parserctx.go parseElement, parseStartTag")],
 "exhaustive enumeration of declarations, places of xml:space and contents, on the real parser", "model_checking",
 "All combinations of the listed parts are parsed with and without the tree builder; every character of the content is compared in kind and order with what its place implies. For white space in elements that are not declared, or declared EMPTY, either report will do, if it is all the same for one stretch.", observe=["sax.SAX2Handler Characters, IgnorableWhitespace, CDataBlock"])

prop("C25", "A document type can be put together by a program",
 "After any sequence of operations on document types (making the internal subset, adding and removing declarations of elements, adding entities of every kind through the document type or the document), exactly what was declared is found by the lookup functions of the document type and the document, with the first declaration of an entity binding; the children of the document type are the declarations in their order, and are written in it with their meaning. Operations that are refused (a second subset or declaration of an element, content that does not go with the type, unknown types) return an error and change nothing; writing what cannot be written is an error. Document types do not affect each other.",
 ["histories", "programs"], "all sequences of operations up to a length, on the document type of a document and on one without",
 "No test adds a declaration by hand; refused operations and their order are unbounded.",
 ["dtd.go", "document.go", "entity.go", "valid.go", "dump.go"],
 [("tables", "dtd.go AddElementDecl, AddEntity, RemoveElement, Lookup functions"), ("of the document", "document.go CreateInternalSubset, AddEntity, GetEntity, IsMixedElement"), ("content", "valid.go newElementContent, copyElementContent")],
 "exhaustive enumeration of operation sequences on the real code, against an executable model", "model_checking",
 "All sequences of operations up to the bound are executed on the real code; after each, lookups, children, links and what is written are compared with a model of the tables. Content models have one name or none, since the API makes no others.", observe=["DTD", "Document"])

prop("C26", "Attributes can be put together by a program",
 "An attribute that a program creates (Document.CreateAttribute, with or without a namespace) or sets (Element.SetAttribute) has the name that was given, and the value that was spelled: its children are the text and the references to entities, in order, with no text next to text, references to characters and to predefined entities being text; Value is that text with the entities' values in place of the references. Text and references that are added afterwards extend both; being a default is a flag of that attribute alone. A document with the attribute is written so that it is read back with the same value. Values with broken references (unterminated, without digits, to no character, to entities without end) are refused with an error, and change nothing. References have the name given, with or without & and ;, and the content of the entity if there is one. Nothing of that changes the declarations of entities.",
 ["histories", "programs"], "all values of parts up to a length, all sequences of operations on the attribute up to a length, all broken references next to all parts",
 "Tests set a few plain values; the combinations of references, text and later changes are unbounded.",
 ["document.go", "attr.go", "element.go", "reference.go", "node.go", "dump.go"],
 [("values", "document.go CreateAttribute, stringToNodeList"), ("changes", "node.go addChild, addContent, docnode.Content"), ("references", "document.go CreateReference, CreateCharRef"), ("writing", "dump.go DumpNode, escapeAttrValue")],
 "exhaustive enumeration of values and operation sequences on the real code, against an executable model", "model_checking",
 "All values and sequences within the bounds are executed on the real code; after each step, names, value, children, links, flags and declarations are compared with a list of parts, and what is written with the model of documents.", observe=["Attribute", "Document", "Element"])
