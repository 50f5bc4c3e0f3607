#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the wording stays reviewable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                   observe_at=observe, hook_needed=None)))

p("C01", "SAX events report exactly the document's content",
  "For every namespace-well-formed XML document, the events an XMLReader delivers (document start and end, elements with all their attributes in value and order, the concatenated character data, processing instructions, comments, CDATA boundaries) are exactly the document's content, once each and in document order, with startElement/endElement properly nested. The result does not depend on how the input source delivers its bytes, on buffer boundaries, or on which of the Expat, libxml2 and Xerces readers is used.",
  ["inputs", "configurations"],
  "all well-formed documents (any names, attribute counts, text lengths across parser buffer boundaries, multi-byte characters), all byte-stream chunkings, all three readers",
  "Existing SAX tests exercise a whitespace filter on three tiny literals; DOM/XSLT suites only see documents smaller than one 10 kB parse buffer and never compare the event stream with an independent account of the document.",
  ["include/SAX/wrappers/saxexpat.hpp", "include/SAX/wrappers/saxlibxml2.hpp", "include/SAX/wrappers/saxxerces.hpp", "src/SAX/wrappers", "src/SAX/helpers/InputSourceResolver.cpp", "include/SAX/InputSource.hpp", "include/SAX/helpers/AttributesImpl.hpp", "include/Arabica/StringAdaptor.hpp"],
  [("read loop feeding the parser", "saxexpat.hpp do_parse"), ("callback translation", "saxexpat.hpp startElement/charHandler/..., saxlibxml2.hpp, saxxerces.hpp")],
  ["ContentHandler", "LexicalHandler"])

p("C02", "Namespace processing and prefix-mapping scopes are correct",
  "With namespace processing on, every element and attribute is reported with the namespace URI, local name and qualified name that the Namespaces in XML rules give it (default namespace applied to elements only, redeclaration and undeclaration honoured), and each declaration produces one startPrefixMapping before its element's startElement and one matching endPrefixMapping after its endElement, and no other prefix-mapping events occur. With namespace processing off, raw qualified names and all attributes including declarations are reported; the namespace-prefixes feature alone decides whether declarations appear among the attributes.",
  ["inputs", "configurations"],
  "all documents with arbitrary nesting, shadowing and undeclaring of prefixes; all settings of the namespaces and namespace-prefixes features",
  "Tests use at most a couple of prefixes without shadowing, and nothing observes prefix-mapping events or the feature combinations.",
  ["include/SAX/wrappers/saxexpat.hpp", "include/SAX/helpers/NamespaceSupport.hpp", "include/XML/QName.hpp", "include/XML/strings.hpp", "include/SAX/filter/NamespaceTracker.hpp"],
  [("context stack", "NamespaceSupport.hpp pushContext/popContext/declarePrefix"), ("name resolution", "QName.hpp parseQName")],
  ["ContentHandler::startPrefixMapping/endPrefixMapping/startElement/endElement", "NamespaceTracker queries"])

p("C03", "Ill-formed input is reported once, and the reader stays usable",
  "For every document that is not well formed, parse() reports exactly one fatal error to the error handler, located at or before the end of the input and inside the document, after reporting only events of a prefix of the document; an unresolvable source is also reported as a fatal error. After such a failure, or after an exception thrown by a handler, the same reader can be used again and its next parse behaves exactly as a freshly constructed reader's would.",
  ["inputs", "histories", "fault_sequences"],
  "all malformed documents, all sequences of good, malformed and handler-aborted parses on one reader object",
  "No test reuses a reader after an error, and malformed documents are only checked for 'an exception happened' on a few literals.",
  ["include/SAX/wrappers/saxexpat.hpp", "include/SAX/helpers/CatchErrorHandler.hpp", "include/SAX/SAXParseException.hpp", "src/SAX/helpers/InputSourceResolver.cpp"],
  [("error reporting", "saxexpat.hpp reportError/do_parse"), ("reset between parses", "saxexpat.hpp parse")],
  ["ErrorHandler", "all handlers during the following parse"])

p("C04", "DTD declarations and entities are reported and expanded faithfully",
  "For every document with a DTD, element, attribute-list, entity and notation declarations reach the declaration and DTD handlers with exactly the declared names, types, content models, defaults and identifiers, bracketed by startDTD/endDTD; internal entity references and defaulted attributes appear expanded in the content. External entities are fetched through the entity resolver exactly when external entity processing is enabled, bracketed by startEntity/endEntity, and are reported as skipped otherwise.",
  ["inputs", "configurations"],
  "all internal subsets (any content models, attribute types and defaults, nested internal entities, parsed and unparsed external entities, notations) and both external-entity settings",
  "No existing test looks at DeclHandler, DTDHandler or EntityResolver events.",
  ["include/SAX/wrappers/saxexpat.hpp", "include/SAX/ext/DeclHandler.hpp", "include/SAX/DTDHandler.hpp", "include/SAX/EntityResolver.hpp"],
  [("content model printing", "saxexpat.hpp convertXML_Content"), ("entity resolution", "saxexpat.hpp externalEntityRefHandler/entityDeclaration")],
  ["DeclHandler", "DTDHandler", "EntityResolver", "LexicalHandler"])

p("C05", "Writing a SAX event stream and reparsing it gives the same events",
  "For every document, sending its events through the SAX Writer and parsing what it wrote yields the same content events as the original (names, namespaces, attributes, text, comments, PIs, CDATA sections; with indentation switched on, up to whitespace-only text), and the output is always well formed. The Writer passes every event it receives on to its downstream handlers unchanged.",
  ["inputs", "configurations"],
  "all well-formed documents incl. characters needing escaping in text and attribute values, declarations, DTD internal subsets, all indent settings",
  "The Writer has no unit test; XSLT tests compare only the small outputs of fixed stylesheets.",
  ["include/SAX/filter/Writer.hpp", "include/XML/escaper.hpp", "include/SAX/helpers/XMLFilterImpl.hpp"],
  [("start tag, attribute and text writing", "Writer.hpp"), ("escaping", "escaper.hpp")],
  ["Writer output stream", "downstream ContentHandler"])

p("C06", "SAX filters transform the event stream only as documented",
  "A plain XMLFilterImpl chain of any length delivers the identical event stream. TextCoalescer delivers each maximal run of character data as one event and leaves everything else in place; WhitespaceStripper replaces each text event by its whitespace-normalised value; NamespaceTracker and XMLBaseTracker deliver the stream unchanged while answering, at every event, the in-scope namespace bindings and the base URI that the document defines at that point; PYXWriter writes exactly one PYX record per event.",
  ["inputs", "histories"],
  "all documents, all filter chains, all splits of text into character events, reuse of one chain for several documents",
  "filter_test covers only WhitespaceStripper on three literals.",
  ["include/SAX/filter", "include/SAX/helpers/XMLFilterImpl.hpp", "include/SAX/helpers/XMLBaseSupport.hpp", "include/text/normalize_whitespace.hpp", "include/SAX/helpers/NamespaceSupport.hpp"],
  [("buffer flush points", "TextCoalescer.hpp"), ("base stack", "XMLBaseSupport.hpp"), ("forwarding", "XMLFilterImpl.hpp")],
  ["downstream handlers", "tracker query methods"])

p("C07", "Attribute lists behave as ordered lists with consistent lookups",
  "Under any sequence of adds, replacements, removals, clears, whole-list copies and in-place updates, an attribute list reports the entries in order with exactly the names, types and values given, and every lookup by index, by qualified name, or by namespace URI plus local name returns the first matching entry or reports that there is none. Prefix/URI lookups on a namespace context stack always answer according to the innermost open context that declares the prefix.",
  ["histories"],
  "all sequences of list operations and of namespace context pushes, pops and declarations",
  "These helper classes have no unit test of their own.",
  ["include/SAX/helpers/AttributesImpl.hpp", "include/SAX/helpers/AttributeListImpl.hpp", "include/SAX/helpers/NamespaceSupport.hpp", "include/SAX/Attributes.hpp"],
  [("vector of attributes", "AttributesImpl.hpp"), ("context stack", "NamespaceSupport.hpp")],
  ["Attributes and NamespaceSupport query methods"])

p("D01", "The DOM tree is always a consistent tree",
  "After any sequence of DOM Level 2 node operations (insertBefore, appendChild, replaceChild, removeChild, with fragments, moves between parents, across documents), the tree is exactly what the DOM specification says it is: parent, first/last child, previous/next sibling and child-list views agree, no node has two parents or is its own ancestor, the document has at most one document element and doctype and reports them correctly. An operation the specification forbids raises the specified DOMException and leaves the tree unchanged.",
  ["histories"],
  "all operation sequences over several documents, fragments and all node types, including illegal operations",
  "Unit and W3C conformance tests run single operations on one fixed staff document; invariants across long operation histories and after failed operations are never checked.",
  ["include/DOM/Simple/NodeImpl.hpp", "include/DOM/Simple/DocumentImpl.hpp", "include/DOM/Simple/ElementImpl.hpp", "include/DOM/Simple/DocumentFragmentImpl.hpp", "include/DOM/Node.hpp"],
  [("link maintenance", "NodeImpl.hpp do_insertBefore/do_replaceChild/do_removeChild"), ("legality checks", "NodeImpl.hpp checkCanAdd, DocumentImpl.hpp insertBefore/replaceChild")],
  ["DOM::Node/Document/NodeList accessors after every operation"])

p("D02", "Element attributes behave as a keyed map of Attr nodes",
  "Under any sequence of attribute operations by name, by namespace and by node (set, get, has, remove, through the element or through its NamedNodeMap), an element holds at most one attribute per name and reports exactly the last value set for it; replaced and removed attributes are returned and detached (no owner element), an attribute in use elsewhere is refused with INUSE_ATTRIBUTE_ERR, missing ones with NOT_FOUND_ERR, and an Attr's value always equals the text of its children.",
  ["histories"],
  "all sequences of attribute operations over several elements, mixing namespaced and plain names",
  "Tests set one or two attributes on one element; interleavings of the by-name, by-namespace and by-node views are not sampled.",
  ["include/DOM/Simple/AttrMap.hpp", "include/DOM/Simple/NamedNodeMapImpl.hpp", "include/DOM/Simple/ElementImpl.hpp", "include/DOM/Simple/ElementNSImpl.hpp", "include/DOM/Simple/AttrImpl.hpp", "include/DOM/Simple/AttrNSImpl.hpp", "include/DOM/Element.hpp"],
  [("attribute map", "AttrMap.hpp, NamedNodeMapImpl.hpp"), ("owner element link", "AttrImpl.hpp")],
  ["DOM::Element, Attr, NamedNodeMap accessors"])

p("D03", "Character data operations are exact string operations",
  "For every text, comment and CDATA node and every offset and count, substringData, appendData, insertData, deleteData and replaceData give exactly the string result DOM Level 2 specifies, an offset beyond the end raises INDEX_SIZE_ERR and changes nothing, counts running past the end are clipped, and splitText splits in place. normalize() merges exactly the adjacent text nodes of a subtree, removes empty ones, and changes nothing else.",
  ["inputs", "histories"],
  "all strings, offsets and counts (0, length, length+1, very large, sums that overflow), all tree positions, all sequences of such operations",
  "Tests check a handful of literal offsets on 'this is a string'-style data.",
  ["include/DOM/Simple/CharacterDataImpl.hpp", "include/DOM/Simple/TextImpl.hpp", "include/DOM/Simple/CDATASectionImpl.hpp", "include/DOM/Simple/NodeImpl.hpp", "include/DOM/CharacterData.hpp"],
  [("bounds checks", "CharacterDataImpl.hpp"), ("split", "TextImpl.hpp splitText"), ("normalize", "NodeImpl.hpp normalize")],
  ["getData/getLength/tree accessors"])

p("D04", "Clones and imports are equal, independent copies",
  "cloneNode and importNode produce a copy equal to the original in type, names, namespaces, values and attributes (and, when deep, in all descendants), owned by the right document, without a parent, sharing no node with the original; later changes to either side are never visible in the other. Shallow copies of elements still carry their attributes, and importing a Document or DocumentType is refused with NOT_SUPPORTED_ERR.",
  ["inputs", "histories"],
  "all subtrees of all node types, deep and shallow, within and across documents, followed by arbitrary mutations of both sides",
  "Tests clone a few fixed nodes and never mutate one side and re-examine the other over a tree of mixed node types.",
  ["include/DOM/Simple/DocumentImpl.hpp", "include/DOM/Simple/ElementImpl.hpp", "include/DOM/Simple/AttrMap.hpp", "include/DOM/Simple/DocumentFragmentImpl.hpp", "include/DOM/Simple/DocumentTypeImpl.hpp"],
  [("importNode", "DocumentImpl.hpp importNode"), ("cloneNode", "each *Impl.hpp")],
  ["DOM accessors on copy and original"])

p("D05", "Live node lists and lookups always reflect the current tree",
  "A list obtained from getElementsByTagName or getElementsByTagNameNS reports, whenever it is consulted and however the document has changed since it was obtained, exactly the elements currently matching (wildcards included) below its root in document order; childNodes and attributes views are equally live; getElementById finds exactly the element currently carrying that ID in the document.",
  ["histories"],
  "all interleavings of list reads with tree and attribute mutations",
  "The lists cache their contents against a change counter; tests consult a list right after obtaining it, hardly ever after mutations.",
  ["include/DOM/Simple/ElementByTagImpl.hpp", "include/DOM/Simple/DocumentImpl.hpp", "include/DOM/NodeList.hpp"],
  [("change counter invalidation", "DocumentImpl.hpp markChanged, ElementByTagImpl.hpp"), ("id index", "DocumentImpl.hpp setElementId/removeElementId/getElementById")],
  ["NodeList item/getLength, getElementById"])

p("D06", "DOM handles keep their document alive and nothing leaks",
  "While any handle (document, node, attribute, list, map, tree walker) to a document exists, every node of that document stays valid, whatever other handles are copied, assigned, swapped or destroyed and whether or not the node is still attached; when the last handle goes away every node is destroyed exactly once. No sequence of API calls reads or writes freed or uninitialised memory or leaks nodes.",
  ["histories"],
  "all handle lifetimes interleaved with tree operations, detached subtrees, purges and failed operations",
  "The test suite is not run under a memory checker, and destruction order is fixed by C++ scopes in the tests.",
  ["include/DOM/Proxy.hpp", "include/DOM/Node.hpp", "include/DOM/Simple/NodeImpl.hpp", "include/DOM/Simple/DocumentImpl.hpp", "include/DOM/Simple/NamedNodeMapImpl.hpp"],
  [("reference counting via document", "NodeImpl.hpp addRef/releaseRef, DocumentImpl.hpp"), ("orphan set", "DocumentImpl.hpp orphaned/adopted/purge")],
  ["AddressSanitizer/LeakSanitizer/UBSan on the running harness"])

p("D07", "Tree walkers traverse exactly the filtered logical view",
  "For every subtree, whatToShow mask and node filter, each TreeWalker movement (parentNode, firstChild, lastChild, previousSibling, nextSibling, previousNode, nextNode) moves to exactly the node the DOM Level 2 Traversal specification gives for the filtered view and returns it, or returns null and leaves the current node where it was; the walk never leaves its root, also when the tree is changed between movements.",
  ["inputs", "histories"],
  "all trees, masks, filters returning accept/reject/skip, and movement sequences",
  "test_TreeWalker checks a few moves on one fixed tree.",
  ["include/DOM/Traversal/TreeWalkerImpl.hpp", "include/DOM/Traversal/TreeWalker.hpp", "include/DOM/Traversal/DocumentTraversalImpl.hpp"],
  [("movement algorithms", "TreeWalkerImpl.hpp")],
  ["TreeWalker movement results and currentNode"])

p("D08", "Parsing to DOM and serialising back preserves the document",
  "For every well-formed document the DOM built from it has exactly the document's infoset (elements with namespaces, attributes, adjacent text merged as reported, comments, PIs, CDATA sections, doctype with entities and notations), and writing that DOM, or any DOM subtree built through the API whose content is expressible in XML, to a stream yields well-formed XML that parses back to an equal DOM, including namespace declarations needed by its names. Characters with special meaning in text and attribute values survive unchanged.",
  ["inputs", "histories"],
  "all documents, and all API-built trees (including moved/imported namespaced nodes without explicit declarations)",
  "test_Stream compares a few literal strings; it never reparses generated trees.",
  ["include/DOM/SAX2DOM/SAX2DOM.hpp", "include/DOM/io/Stream.hpp", "include/XML/escaper.hpp", "include/DOM/Simple"],
  [("event to node construction", "SAX2DOM.hpp"), ("namespace fix-up and escaping", "Stream.hpp")],
  ["operator<< output, reparsed tree"])

p("D09", "Read-only nodes can never be modified",
  "Entity, notation, entity-reference and document-type contents are read-only: every attempt to modify such a node, its attributes, its character data or any descendant (directly, through a list or map, or by moving children out of it) raises NO_MODIFICATION_ALLOWED_ERR and changes nothing, while clones of their children taken for use elsewhere remain modifiable.",
  ["histories"],
  "all mutating operations applied to all nodes of read-only subtrees, at any depth",
  "The conformance suite tries single operations on one entity reference; 26 of those tests do not even pass with one backend.",
  ["include/DOM/Simple/NodeImpl.hpp", "include/DOM/Simple/EntityImpl.hpp", "include/DOM/Simple/EntityReferenceImpl.hpp", "include/DOM/Simple/CharacterDataImpl.hpp", "include/DOM/Simple/AttrImpl.hpp", "include/DOM/Simple/NamedNodeMapImpl.hpp"],
  [("readOnly flag and checks", "NodeImpl.hpp setReadOnly/throwIfReadOnly")],
  ["exceptions raised and tree dump before/after"])

p("X01", "XPath location paths select exactly the specified nodes",
  "For every document, context node and XPath 1.0 location path (all axes, node tests, abbreviations, nested and positional predicates, filters, unions), the resulting node-set is exactly the one XPath 1.0 defines: no node missing, none extra, none twice. Node-sets are delivered in document order, attribute and namespace nodes included.",
  ["inputs"],
  "all trees (mixed node types, namespaces, DOM-built and parsed, CDATA/adjacent text), all context nodes, all paths",
  "Tests run a fixed list of paths on two small documents; combinations of axes with positional predicates and unions over reverse axes are hardly covered.",
  ["include/XPath/impl/xpath_axis_enumerator.hpp", "include/XPath/impl/xpath_step.hpp", "include/XPath/impl/xpath_node_test.hpp", "include/XPath/impl/xpath_union.hpp", "include/XPath/impl/xpath_object.hpp", "include/XPath/impl/xpath_namespace_node.hpp"],
  [("axis enumeration", "xpath_axis_enumerator.hpp"), ("predicate evaluation", "xpath_step.hpp"), ("document ordering", "xpath_object.hpp NodeSet::to_document_order, document_order_less_than")],
  ["XPath::evaluate results"])

p("X02", "XPath expression values follow the XPath 1.0 rules",
  "For every expression and context, arithmetic, comparison (including between node-sets and every other type), boolean operators, type conversions, number formatting and parsing, and each core function the library provides (all but id and lang) give exactly the value XPath 1.0 defines, including NaN, infinities, negative zero, empty node-sets, out-of-range substring positions and operator precedence and associativity. Wrong argument counts and unknown functions or unbound variables or prefixes raise an error, never a wrong value.",
  ["inputs"],
  "all expressions over all core functions, operators and operand types, with boundary numbers and arbitrary strings",
  "Tests check a fixed table of expressions; boundary doubles, string/number conversion round trips and mixed-type comparisons are barely sampled.",
  ["include/XPath/impl/xpath_function.hpp", "include/XPath/impl/xpath_object.hpp", "include/XPath/impl/xpath_relational.hpp", "include/XPath/impl/xpath_arithmetic.hpp", "include/XPath/impl/xpath_logical.hpp", "include/XPath/impl/xpath_value.hpp"],
  [("conversions", "xpath_object.hpp nodeNumberValue/stringAsNumber"), ("comparisons", "xpath_object.hpp areEqual/isLessThan..."), ("core functions", "xpath_function.hpp")],
  ["XPath::evaluate_expr / asBool/asNumber/asString"])

p("X03", "XPath compilation accepts exactly the XPath 1.0 language",
  "Every string that is an XPath 1.0 expression compiles, with any optional whitespace, any names that coincide with operator names, axis names or node types, and evaluating it uses the standard parse; every other string is refused with a syntax exception. Compiling an arbitrary string never crashes, hangs or corrupts the compiler, which stays usable.",
  ["inputs", "histories"],
  "all strings: grammar-generated expressions with random spacing and adversarial names, and mutated/garbage strings",
  "parse_test lists a few dozen valid literals; rejection and lexical disambiguation are untested.",
  ["include/XPath/impl/xpath_grammar.hpp", "include/XPath/impl/xpath_parser.hpp", "include/XPath/impl/xpath_ast.hpp", "include/XPath/impl/xpath_ast_ids.hpp"],
  [("grammar", "xpath_grammar.hpp"), ("AST compilation", "xpath_parser.hpp")],
  ["XPath::compile result or exception, then evaluation"])

p("X04", "A match pattern matches exactly the nodes the spec says",
  "For every XSLT pattern, document and node, the compiled match expression matches the node if and only if the node is in the result of evaluating the pattern as an expression with some ancestor-or-self of the node (or the node's tree root) as context; alternatives separated by '|' match independently. Each alternative carries the default priority XSLT 1.0 assigns to its form.",
  ["inputs"],
  "all patterns (child/attribute/descendant steps, predicates incl. positional, id()/key(), alternatives) on all nodes of all documents",
  "match_test checks a few dozen hand-written patterns against single nodes.",
  ["include/XPath/impl/xpath_match.hpp", "include/XPath/impl/xpath_match_rewrite.hpp", "include/XPath/impl/xpath_step.hpp", "include/XPath/impl/xpath_parser.hpp"],
  [("right-to-left rewrite", "xpath_match_rewrite.hpp"), ("priority", "xpath_match_rewrite.hpp / xpath_node_test.hpp")],
  ["MatchExpr::evaluate, priority"])

p("T01", "A stylesheet produces the result XSLT 1.0 defines",
  "For every source document and every stylesheet using the supported instructions (templates, apply/call-templates with parameters, for-each, if, choose, value-of, text, element, attribute, comment, processing-instruction, copy, copy-of, variables, params, literal result elements with attribute value templates), the result tree is exactly the one XSLT 1.0 defines, including variable scoping and shadowing, the current node, position() and last() in every context, and built-in template rules.",
  ["programs", "inputs"],
  "all combinations and nestings of supported instructions over arbitrary source trees",
  "The conformance suite compares fixed stylesheets against reference output; 120 of its cases fail and combinations of scope, context and nesting are only sampled once each.",
  ["include/XSLT/impl", "include/XSLT/impl/handler", "include/XSLT/impl/xslt_variable_stack.hpp", "include/XSLT/impl/xslt_execution_context.hpp", "include/XSLT/impl/xslt_copy.hpp"],
  [("instruction execution", "xslt_*.hpp execute()"), ("variable stack", "xslt_variable_stack.hpp"), ("context position/last", "xslt_execution_context.hpp")],
  ["output of Stylesheet::execute"])

p("T02", "Template selection follows import precedence, priority and mode",
  "For every set of template rules spread over a stylesheet and its imports and includes, the template applied to a node is the one of highest import precedence, then highest (explicit or default) priority, then last in the stylesheet, among those of the requested mode whose pattern matches, and the built-in rule if none does. apply-imports uses only rules imported into the stylesheet that contains the current template rule, with the current mode; named templates, top-level variables and parameters also resolve by import precedence, and externally supplied parameters override defaults.",
  ["programs", "inputs"],
  "all import/include trees, modes, priorities and overlapping patterns, apply-imports at any point of a template",
  "Import tests use two or three fixed files; apply-imports after other instructions, and ties between alternatives, are not explored.",
  ["include/XSLT/impl/xslt_compiled_stylesheet.hpp", "include/XSLT/impl/xslt_precedence.hpp", "include/XSLT/impl/handler/xslt_include_handler.hpp", "include/XSLT/impl/handler/xslt_template_handler.hpp", "include/XSLT/impl/xslt_variable_stack.hpp"],
  [("ordering", "xslt_compiled_stylesheet.hpp prepare/doApplyTemplates"), ("precedence tree", "xslt_precedence.hpp"), ("import unwinding", "xslt_include_handler.hpp")],
  ["output of Stylesheet::execute (each template writes its identity)"])

p("T03", "Sorting and keys are exact",
  "xsl:sort delivers the selected nodes as a permutation ordered by all sort keys in turn (text by code point or number, ascending or descending, NaN before all numbers), stable for equal keys, and position()/last() inside follow the sorted order. key(name, value) returns exactly the nodes of the current document matching the declared pattern whose use expression yields that value, for string and node-set arguments and several declarations of one key; current(), generate-id() and document() are consistent with node identity.",
  ["programs", "inputs"],
  "all node lists, multi-key sort specifications with ties and non-numeric values; all key declarations and lookups",
  "Sort and key tests use fixed data with few ties; stability and NaN placement under multiple keys are not sampled.",
  ["include/XSLT/impl/xslt_sort.hpp", "include/XSLT/impl/xslt_key.hpp", "include/XSLT/impl/xslt_functions.hpp", "include/XSLT/impl/handler/xslt_sort_handler.hpp"],
  [("comparators", "xslt_sort.hpp"), ("key tables", "xslt_key.hpp")],
  ["order and membership of output records"])

p("T04", "Serialised results parse back to the result tree",
  "With the xml output method, the text a stylesheet writes is always well formed and parses back to exactly the result tree constructed: escaping of text and attribute values, CDATA-section elements, comments and PIs containing forbidden sequences, namespace declarations for every prefix used and none conflicting, xsl:output settings honoured. The text method writes exactly the concatenated text unescaped, and sending the same transformation to a DOM sink gives the same tree.",
  ["programs", "inputs", "configurations"],
  "all result trees (any characters, dynamic element and attribute names and namespaces, namespace aliasing, copied namespace nodes), all sinks and output settings",
  "Conformance outputs are compared for fixed stylesheets only, with the stream output reparsed leniently.",
  ["include/XSLT/impl/xslt_output.hpp", "include/XSLT/impl/xslt_sink.hpp", "include/XSLT/impl/xslt_namespace_stack.hpp", "include/XSLT/impl/xslt_element.hpp", "include/XSLT/impl/xslt_attribute.hpp", "include/XSLT/impl/handler/xslt_output_handler.hpp"],
  [("pending element/attribute buffering", "xslt_output.hpp"), ("namespace stack", "xslt_namespace_stack.hpp"), ("escaping", "xslt_sink.hpp")],
  ["StreamSink text, DOMSink tree"])

p("T05", "Compiled stylesheets are reusable and executions are isolated",
  "Executing a compiled stylesheet any number of times, on any sequence of documents and with any parameters set, gives each time the same result as a freshly compiled stylesheet would: nothing carries over from earlier executions, including executions aborted by xsl:message terminate or by an error. Execution never modifies the source document, and several stylesheets and executions can be interleaved.",
  ["histories", "fault_sequences"],
  "all sequences of executions on one stylesheet object, including failing ones, interleaved with others",
  "Every test compiles a stylesheet, runs it once and throws it away.",
  ["include/XSLT/impl/xslt_compiled_stylesheet.hpp", "include/XSLT/impl/xslt_output.hpp", "include/XSLT/impl/xslt_execution_context.hpp", "include/XSLT/impl/xslt_key.hpp"],
  [("per-execution context", "xslt_execution_context.hpp"), ("mutable stylesheet state", "xslt_compiled_stylesheet.hpp")],
  ["output of repeated Stylesheet::execute, source DOM before/after"])

p("T06", "Invalid stylesheets are refused with a diagnostic",
  "A stylesheet containing a construct XSLT 1.0 declares an error in its static structure (unknown or misplaced XSLT elements, missing or unknown attributes, malformed XPath expressions, patterns, AVTs or QNames, undeclared prefixes, duplicate templates, text where none is allowed, bad output settings, circular includes) is never compiled: the compiler returns no stylesheet, gives a non-empty error text, and stays usable. Well-formed stylesheets free of such errors always compile.",
  ["programs", "histories"],
  "all single and multiple violations injected at any place of any valid stylesheet; all valid stylesheets",
  "The Errors suites contain fixed stylesheets; validity of every element/attribute position is not systematically covered.",
  ["include/XSLT/impl/handler", "include/XSLT/impl/handler/xslt_value_validation.hpp", "include/XSLT/impl/xslt_stylesheet_compiler.hpp", "include/XSLT/impl/xslt_compilation_context.hpp"],
  [("attribute rules", "xslt_value_validation.hpp"), ("allowed children", "handlers' createXSLTElement tables")],
  ["StylesheetCompiler::compile result and error()"])

p("H01", "Any HTML input yields a well-formed event stream",
  "For every byte sequence, the Taggle parser terminates and delivers a balanced, properly nested event stream with a single root element, legal XML names, no attribute reported twice on an element, and no text or elements outside the document events; written out and read by an XML parser, the events of UTF-8 input made of XML characters are well-formed XML. The outcome is the same however the input stream is chunked and however often the parser object is reused.",
  ["inputs", "histories"],
  "all byte strings: tag soup with unclosed, misnested and unknown elements, malformed attributes, entities, comments, CDATA, scripts",
  "test_Taggle contains a few literal snippets.",
  ["include/Taggle/impl/Parser.hpp", "include/Taggle/impl/html/HTMLScanner.hpp", "include/Taggle/impl/html/HTMLSchema.hpp", "include/Taggle/impl/Element.hpp", "include/Taggle/impl/ElementType.hpp"],
  [("rectification stack", "Parser.hpp rectify/push/pop/restart"), ("state table scanner", "HTMLScanner.hpp")],
  ["ContentHandler/LexicalHandler events"])

p("H02", "HTML content survives parsing",
  "For HTML built from known elements, the parser reports the elements, the attributes with their decoded values, and all text of the input in order, with character and named entity references decoded and script and style content verbatim; missing parents (html, body, table rows, list containers) are supplied and elements closed as the HTML content model requires, so that no element ever appears inside a parent that may not contain it. A document that is already valid XHTML passes through with its structure unchanged.",
  ["inputs"],
  "all documents generated from the HTML element, attribute and entity vocabulary, well nested or not",
  "test_Taggle covers a handful of elements out of about one hundred and no entity table.",
  ["include/Taggle/impl/Parser.hpp", "include/Taggle/impl/html/HTMLSchema.hpp", "include/Taggle/impl/html/HTMLScanner.hpp", "include/Taggle/impl/SchemaImpl.hpp"],
  [("content model bits", "HTMLSchema.hpp, ElementType.hpp canContain"), ("entity decoding", "Parser.hpp lookupEntity, HTMLSchema.hpp entity table")],
  ["ContentHandler events"])

p("U01", "Character transcoding is lossless and chunk-independent",
  "Each conversion facet (UTF-8/UCS-2, UTF-16 in both byte orders, UTF-16/UTF-8, ISO-8859-1/UTF-8, Base64, ROT13) and the stream adaptors built on them convert every valid input to exactly the output its encoding standard defines, and converting there and back gives the original, independently of how the data is split over calls or buffers. Malformed input is reported as an error at the offending position, a character ISO-8859-1 lacks becomes a question mark, and the facets never reads or writes outside the given buffers.",
  ["inputs", "histories"],
  "all character sequences, all splits of source and destination buffers down to one unit, all malformed sequences",
  "Only Base64 has a test, on short literals.",
  ["src/convert", "include/convert", "include/io/convert_adaptor.hpp", "include/io/convertstream.hpp", "include/Arabica/StringAdaptor.hpp"],
  [("facet do_in/do_out", "src/convert/*.cpp"), ("stream buffers", "convert_adaptor.hpp")],
  ["codecvt in/out results, stream contents"])

p("U02", "Relative URIs resolve as the URI standard defines",
  "For every absolute base URI and relative reference within the supported hierarchical syntax, resolution yields the target the URI standard's algorithm gives (path merging, dot segments, absolute paths, empty reference, references with their own scheme), the result is again absolute, and resolving against a result is consistent. Parsing a URI and printing it gives back the same URI with its scheme, host, port and path correctly identified, and no string makes parsing or resolution fail uncontrolledly.",
  ["inputs"],
  "all base/reference pairs over hierarchical schemes incl. ports, multiple and trailing dot segments, empty paths; arbitrary strings",
  "test_uri has 43 literal cases.",
  ["src/io/uri.cpp", "include/io/uri.hpp", "include/SAX/helpers/XMLBaseSupport.hpp"],
  [("combinePath", "src/io/uri.cpp"), ("absolutise", "src/io/uri.cpp")],
  ["URI::as_string and component accessors"])

p("U03", "XML name and character classes match XML 1.0",
  "Over the whole code range, the character classification functions agree with the productions of XML 1.0 (Char, S, Letter, Digit, CombiningChar, Extender, NameChar) and the name predicates accept exactly the strings matching Name, NCName, QName and Nmtoken; whitespace normalisation yields exactly the tokens of the string joined by single spaces.",
  ["inputs"],
  "every code unit value (exhaustively) and all strings over boundary characters",
  "test_xml_strings tries a few literals; the tables have hundreds of range boundaries.",
  ["src/XML/XMLCharacterClasses.cpp", "include/XML/XMLCharacterClasses.hpp", "include/XML/strings.hpp", "include/text/normalize_whitespace.hpp", "include/XML/QName.hpp"],
  [("range tables", "XMLCharacterClasses.cpp"), ("predicates", "strings.hpp")],
  ["predicate results"])

p("G01", "Results do not depend on the string type",
  "For every input, each layer (SAX readers, DOM building and serialisation, XPath, XSLT, HTML parsing) instantiated on std::string and on std::wstring (and on a user-supplied string type with its own adaptor) produces the same results once transcoded to UTF-8 (offsets and lengths count the units of the string type).",
  ["inputs", "configurations"],
  "all documents, expressions, stylesheets and HTML pages with characters of the Basic Multilingual Plane",
  "Wide and custom-string test programs repeat the same ASCII literals; nothing compares the instantiations on non-ASCII or generated input.",
  ["include/Arabica/StringAdaptor.hpp", "include/convert", "include/SAX/wrappers", "include/DOM", "include/XPath", "include/XSLT"],
  [("string adaptor policy", "StringAdaptor.hpp")],
  ["outputs of both instantiations"])

p("I01", "Documents are read from exactly the place named, byte for byte",
  "A document, and every external entity it refers to, named by a file path, a file: or http: URI or a scheme with a registered resolver, is fetched from exactly that resource (relative references resolved against the document's own location, one well-formed HTTP request per resource) and gives the same events as its bytes given as a stream, however the transport fragments or delays them and whatever headers precede them; an unreachable resource is one fatal error; a stream given with the name is preferred to it. Socket streams send exactly the bytes written, at the latest when flushed, closed or destroyed, and read exactly the bytes the peer sent, with up to four characters put back; a peer that disappears is a stream error. Nothing stays open afterwards.",
  ["inputs", "histories", "fault_sequences"],
  "all resource contents, sizes, fragmentations, delays and headers; all relative references; all sequences of socket stream operations, resolver registrations and failures",
  "No test opens a socket, a named file or registers a resolver; buffer boundaries depend on the transport's timing.",
  ["include/io/socket_stream.hpp", "src/SAX/helpers/InputSourceResolver.cpp", "include/SAX/helpers/InputSourceResolver.hpp", "include/SAX/InputSource.hpp", "include/SAX/wrappers", "src/io/uri.cpp"],
  [("readSocket/writeSocket/put back", "socket_stream.hpp"), ("resolver table, header skipping", "InputSourceResolver.cpp")],
  ["SAX events, the server's request log and received bytes, open descriptor count"])

p("M01", "No input makes the library misbehave at memory level",
  "Whatever bytes are given as XML, HTML, DTD, XPath expression or stylesheet, every entry point returns or throws a documented exception: no out-of-bounds or freed memory access, no undefined behaviour, no leak, no uncaught foreign exception, no unbounded recursion or loop on inputs of bounded size.",
  ["inputs", "fault_sequences"],
  "all byte strings at every public parsing, compiling and evaluating entry point, plus truncated and mutated real documents and failing or throwing streams and handlers",
  "Tests use well-formed literals and are not run under sanitizers.",
  ["include/SAX", "include/DOM", "include/XPath", "include/XSLT", "include/Taggle", "src"],
  [("bounds and state checks", "throughout"), ("exceptions", "SAXException, DOMException, XPath::SyntaxException")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, exception types, watchdog"])

p("R01", "Independent objects can be used from different threads",
  "Threads that each use their own readers, documents, XPath compilers and expressions, stylesheets and HTML parsers never race on shared state and get exactly the results they would get alone, including when the first uses of the library in the process happen concurrently; a document that is only read and an XPath expression that is only evaluated give correct results when each thread has its own copy.",
  ["schedules"],
  "all interleavings of per-thread workloads over separate objects, including first-use initialisation of shared tables",
  "All tests are single-threaded.",
  ["include/SAX", "include/DOM", "include/XPath/impl/xpath_parser.hpp", "include/XSLT/impl/handler/xslt_constants.hpp", "include/Taggle/impl/html/HTMLScanner.hpp", "src/SAX/helpers/InputSourceResolver.cpp"],
  [("function-local and static tables", "throughout"), ("resolver registry", "InputSourceResolver.cpp")],
  ["ThreadSanitizer reports, per-thread results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
import sys
for x in P:
    assert len(x["title"]) <= 80, x["title"]
print(len(P), "properties")
