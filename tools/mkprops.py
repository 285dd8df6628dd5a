#!/usr/bin/env python3
"""Writes properties.jsonl (run once; the file is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))

prop('P01', 'Handlers run only for schema-valid requests, at most once, with the sent value',
 "For every POST to a SOAP service, the user's handler is invoked only if the SOAP body's element is valid against the service's published schema (element and attribute presence, order, occurrence limits, nillability, simple-type facets, imported and included schemas), and then exactly once, with an object whose fields carry exactly the values that were in the body. "
 "A request that is invalid never reaches the handler and is answered by a client-class SOAP fault; a valid one is answered with an envelope of the service's SOAP version whose single body element has the declared output element's name and namespace and carries exactly the object the handler returned.",
 ['inputs', 'configurations'], 'every service schema built from the supported declarations, every SOAP body (valid or mutated), both SOAP versions',
 'the tests send a handful of fixed envelopes against two or three fixed schemas; validity is a relation over all (schema, document) pairs',
 ['soapfish/soap_dispatch.py', 'soapfish/py2xsd.py', 'soapfish/xsd.py', 'soapfish/soap11.py', 'soapfish/soap12.py'],
 [('schema validation before parsing', 'soap_dispatch.py:SOAPDispatcher._prepare_request/_validate_body'), ('call_method', 'soap_dispatch.py:call_method'), ('schema_validator', 'py2xsd.py:schema_validator')],
 ['handler invocations and their arguments', 'HTTP status, content type and body of the response'])

prop('P02', 'Requests are routed to the operation their action or body element names',
 "A POST that carries a SOAP action (SOAPAction or ACTION header for SOAP 1.1, with or without quotes; the action parameter of an application/soap+xml content type for SOAP 1.2) is handled by the first declared operation whose action equals it exactly, and is a client fault if there is none, whatever the body element is. "
 "A POST without an action is handled by the first declared operation whose input element has the local name of the body element, or, if the body element is a schema element in a substitution group, by the operation whose input is the head of that group; otherwise it is a client fault and no handler runs.",
 ['inputs', 'configurations'], 'every set of operations (duplicate, empty, shared-prefix and quoted actions; shared inputs), every request action form and body element',
 'tests exercise one or two operations with one action each; precedence between duplicates, prefixes and substitution groups is never sampled',
 ['soapfish/soap_dispatch.py', 'soapfish/soap11.py', 'soapfish/soap12.py'],
 [('_find_handler_for_request', 'soap_dispatch.py'), ('determine_soap_action', 'soap11.py, soap12.py')],
 ['which handler ran', 'fault code of the response'])

prop('P03', 'Every bad or failing request is answered with a well-formed fault',
 "Whatever bytes or text a POST carries (not XML, wrong or missing envelope parts, empty body, comments or processing instructions anywhere, external entities, wrong encoding), dispatch returns a response instead of raising, and a malformed or invalid request is answered with HTTP 500 and a fault envelope of the service's SOAP version whose code says the client is at fault. "
 "A SOAP error raised or returned by a handler or middleware is answered with HTTP 500 and a fault carrying exactly that error's code and message (in the SOAP 1.1 faultcode/faultstring or SOAP 1.2 Code/Reason structure) and the response header if one was set, and an arbitrary exception is turned into a server-class fault carrying the exception's class and text whenever the exception-to-fault middleware is installed.",
 ['inputs', 'fault_sequences', 'configurations'], 'all request contents, all exceptions at every user callback, both SOAP versions',
 'tests sample a few malformed envelopes; the claim is about all byte strings and all failure points',
 ['soapfish/soap_dispatch.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/middlewares.py', 'soapfish/core.py'],
 [('error translation', 'soap_dispatch.py:handle_soap_request/_parse_soap_content/_prepare_request'), ('get_error_response', 'soap11.py, soap12.py'), ('ExceptionToSoapFault', 'middlewares.py')],
 ['HTTP status, content type, fault code and text', 'exceptions escaping dispatch'])

prop('P04', 'Middleware wraps every SOAP call as an onion, in list order',
 "For every list of middlewares, a SOAP POST enters them in list order, runs the handler after the last one, and returns through them in reverse order, each seeing exactly the request given by its predecessor and the response or exception produced by its successor. "
 "A middleware that answers without calling on prevents everything after it from running and its answer is the one sent; exceptions unwind through the outer middlewares until one answers, a SOAP error that none answers becomes a fault, and any other exception that none answers propagates to the caller of dispatch. "
 "The exception logger logs exactly the configured exception classes once and re-raises them unchanged, and middlewares never run for document (GET) requests.",
 ['schedules', 'fault_sequences', 'configurations'], 'every middleware stack (pass-through, transforming, short-circuiting, raising, catching) and handler outcome',
 'tests use at most one middleware; ordering, short-circuit and exception flow over stacks are not sampled',
 ['soapfish/soap_dispatch.py', 'soapfish/middlewares.py'],
 [('middleware chaining', 'soap_dispatch.py:SOAPDispatcher.middleware'), ('ExceptionToSoapFault, ExceptionLogger', 'middlewares.py')],
 ['enter/exit events of each middleware', 'handler runs', 'response'])

prop('P05', 'Hooks run exactly once at their point and their result replaces the object',
 "For every subset of the six hooks, each request runs exactly the request hook and then the response hook of its kind (SOAP, WSDL or XSD), each exactly once, with the dispatcher and the current request/response, whether the outcome is a result, a fault or a not-found document; other kinds' hooks never run, and the bad-request answer runs none. "
 "The object a hook returns is the one used from then on (the request hook's result is what is dispatched, the response hook's result is what is sent); a hook returning any other type raises a type error, and constructing a dispatcher with a hook name outside the six raises a key error.",
 ['configurations', 'inputs', 'histories'], 'all subsets of hooks, all request kinds and outcomes, replacing and mutating hooks, all hook names',
 'tests check one hook at a time with one outcome',
 ['soapfish/soap_dispatch.py'], [('_call_hook', 'soap_dispatch.py')], ['hook invocations with arguments', 'response'])

prop('P06', 'The HTTP entry publishes a closed, correctly located set of documents',
 "A GET whose query names wsdl or singleWsdl (any casing of the value, blank or not) returns the service's WSDL, one naming xsd returns the schema document with that location, an unknown location returns 404, and every other non-POST request returns 400 with a plain-text body; no handler runs. "
 "Every schema location appearing in a served WSDL or schema document is again served by the same entry and is the schema of the import or include it came from, for any tree (or cycle) of imports and includes. "
 "The service address in the served WSDL has the request's scheme and host substituted, and for any scheme/host value that is legal in HTTP the document stays well-formed and is otherwise unchanged.",
 ['inputs', 'configurations'], 'all methods and query strings, all schema import/include graphs, all Host and scheme values',
 'tests fetch one WSDL and one schema; closure over the import graph is never checked',
 ['soapfish/soap_dispatch.py', 'soapfish/utils.py', 'soapfish/py2wsdl.py', 'soapfish/py2xsd.py'],
 [('dispatch / handle_wsdl_request / handle_xsd_request / _rewrite_locations', 'soap_dispatch.py'), ('walk_schema_tree', 'utils.py')],
 ['HTTP status, content type, body for each URL'])

prop('P07', 'Requests are isolated from one another, in any history and interleaving',
 "The response to a request, and the values its handler, middlewares and hooks see, depend only on that request and on what the user's callbacks do for it: never on earlier or concurrent requests handled by the same dispatcher, nor on other dispatchers or services in the process. "
 "In particular, after any history of valid, invalid and failing requests, and for any interleaving of concurrent requests on different threads, each request gets the response it would get alone, and objects handed to one handler share no mutable state with those handed to another.",
 ['schedules', 'histories'], 'all histories of requests and all interleavings of concurrent requests at user-callback granularity',
 'the tests are sequential and use a fresh dispatcher per test',
 ['soapfish/soap_dispatch.py', 'soapfish/core.py', 'soapfish/xsd.py', 'soapfish/soap.py'],
 [('per-request state lives in the SOAPRequest', 'core.py, soap_dispatch.py'), ('fresh instances per parse', 'xsd.py:ComplexType.__new__')],
 ['responses', 'handler arguments'])

prop('P08', 'WSGI, Flask and Django entries answer exactly what direct dispatch answers',
 "For every HTTP request (method, query string, headers, body) the WSGI application, the Flask view and the Django view return the same status, body bytes, content type and extra response headers that dispatching the equivalent request object directly would return, and run the handler the same number of times. "
 "In particular the HTTP SOAPAction header selects the operation through each entry, the body is read exactly up to its content length, and bodies are always bytes.",
 ['inputs', 'configurations'], 'all requests over all three adapters, both SOAP versions',
 'tests run one request per framework',
 ['soapfish/soap_dispatch.py', 'soapfish/flask_.py', 'soapfish/django_.py', 'soapfish/soap11.py', 'soapfish/core.py'],
 [('WsgiSoapApplication', 'soap_dispatch.py'), ('flask_dispatcher', 'flask_.py'), ('django_dispatcher', 'django_.py')],
 ['HTTP responses of each adapter'])

prop('P09', 'A client stub call behaves like calling the handler directly',
 "For every service definition shared by a client stub and a server, calling an operation through the stub delivers to that operation's handler exactly the parameter and header values the caller passed, and returns to the caller exactly the body and response header values the handler produced; requests go to the service location with scheme and host filled in, the operation's action and the SOAP version's content type. "
 "A fault produced by the server is raised to the caller as a SOAP error with the same code and message.",
 ['inputs', 'configurations', 'histories'], 'all operations, values, headers and fault outcomes, both SOAP versions, any sequence of calls on one stub',
 'tests parse canned responses; no test connects a stub to a dispatcher',
 ['soapfish/soap.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/soap_dispatch.py'],
 [('Stub.call/_handle_response', 'soap.py'), ('build_http_request_headers / determine_soap_action / parse_fault_message', 'soap11.py, soap12.py')],
 ['values at the handler and at the caller', 'HTTP request sent'])

prop('P10', 'Facets are enforced on every value that enters an object, and only facets',
 "Whenever a value enters a field whose simple type has facets (pattern, enumeration, length, minLength, maxLength, whiteSpace, min/max inclusive/exclusive, totalDigits, fractionDigits), by assignment, constructor keyword, list append or parsing, it is accepted if and only if it satisfies all of them; patterns must match the whole value and every facet the user gave counts, including 0 bounds (fractionDigits is the exact number of fraction digits, as the library defines it). "
 "A rejected value raises ValueError, and an accepted one is stored unchanged except for the declared whitespace normalisation.",
 ['inputs', 'configurations'], 'all facet combinations on string and numeric types, all values, all entry points',
 'tests try a few values per facet, one facet at a time, mostly through the type object',
 ['soapfish/xsd.py'], [('String.accept, Decimal._check_restrictions, Integer facets', 'xsd.py'), ('ComplexType.__setattr__, TypedList.append, Element.accept', 'xsd.py')],
 ['acceptance or ValueError', 'stored value'])

prop('P11', 'Built-in numeric types accept exactly their XML Schema value space',
 "Each built-in integer type (integer, the four sign-restricted integers, long, int, short, byte and their unsigned forms) accepts exactly the integers of its XML Schema range, as Python integers or as XML text in the XML Schema lexical form (optional sign, decimal digits, surrounding whitespace), and rejects everything else with ValueError; user facets narrow that range and never widen it. "
 "Values of any magnitude are kept exactly.",
 ['inputs', 'configurations'], 'all integers and all strings, for all thirteen types and user-narrowed variants',
 'tests hit a few values of a few types',
 ['soapfish/xsd.py'], [('Integer.__init__ overrides, Integer.accept', 'xsd.py')], ['acceptance and value'])

prop('P12', 'Simple values survive writing to XML and reading back',
 "For every supported simple type (string family, boolean, decimal, double/float, integers, date, dateTime, time with any UTC offset), writing an accepted value to XML produces text in the type's XML Schema lexical space that denotes that value, and reading that text back yields an equal value (dates are equal exactly if their fields and offset are). "
 "Every lexical form XML Schema allows for the same value (boolean 1/0, leading zeros or plus sign, Z versus +00:00, fractional seconds, comments splitting text) reads as that value, and text outside the lexical space is rejected with ValueError rather than read as something else (dates and times may also be read in the other ISO 8601 notations, an empty element and the library's own 'nil' marker read as no value).",
 ['inputs'], 'all values and lexical forms of each type (dates with years 1-9999, dateTime and time values with an offset)',
 'tests check one or two values per type',
 ['soapfish/xsd.py', 'soapfish/xsd_types.py', 'soapfish/utils.py'], [('xmlvalue/pythonvalue of each SimpleType', 'xsd.py'), ('timezone_offset_to_string', 'utils.py')], ['rendered text, parsed value'])

prop('P13', 'Rendering an object mirrors its declaration exactly',
 "The XML rendered for an object contains, for each declared field in declaration order (base class fields first) and for nothing else, one attribute or element per present value: absent optional values produce nothing, nil produces xsi:nil, lists produce one element per item in order, referenced groups are rendered in place. "
 "Names are the declared tag names, qualified exactly when the schema is qualified, with the namespace the element declares or else the schema's target namespace, and missing required attributes or list sizes outside the declared limits are refused instead of producing XML.",
 ['inputs', 'configurations'], 'all class declarations (nesting, inheritance, groups, lists, attributes, tagnames, namespaces) and all instances',
 'tests compare the output of a few fixed classes',
 ['soapfish/xsd.py'], [('ComplexType.render and Element/ListElement/Attribute/Ref.render', 'xsd.py')], ['rendered XML'])

prop('P14', 'Parsing recovers the value whatever the presentation of the XML',
 "Parsing any XML document of a declared class yields an object with exactly the document's values: rendering any object and parsing the result gives back equal field values, including nil, empty lists, list order, nested and inherited objects, groups and choices; a field the document leaves out reads as its declared default. "
 "Comments, processing instructions, prefixes, insignificant whitespace, attribute order, CDATA, entity and character references, and the encoding of the document never change the parsed value.",
 ['inputs', 'configurations'], 'all class declarations, all instances and all XML presentations of them',
 'tests parse a few fixed documents written in one style',
 ['soapfish/xsd.py'], [('ComplexType.parse_xmlelement, _is_matching_element, Element/ListElement/Attribute/Ref.parse', 'xsd.py')], ['field values after parsing'])

prop('P15', 'Objects are independent of one another and of their class',
 "For any sequence of constructions, assignments, list operations, deep copies, parses and renders over any number of objects of any classes, an operation on one object changes only that object: no other instance, no default of the class or of its sub- or superclasses, and no nested group or list of another instance. "
 "A freshly constructed object always has every declared field at its declared default (empty list for repeated elements), and rendering never changes the object rendered.",
 ['histories', 'configurations'], 'all operation histories over several instances of related classes',
 'tests create one or two objects and never look at the others',
 ['soapfish/xsd.py'], [('ComplexType.__new__ with empty_value per field', 'xsd.py'), ('TypedList', 'xsd.py')], ['field values of all live objects'])

prop('P16', 'Refused operations change nothing; repeated elements keep their limits',
 "A field assignment, constructor keyword or list operation that is refused (wrong type, facet violation, nil for a non-nillable element, unknown field, list growth beyond maxOccurs) raises and leaves the object and all its lists exactly as they were. "
 "Whatever list operations are applied (append, extend, insert, item or slice assignment, +=, assigning a whole list), a repeated element never holds an item its type does not accept or more items than maxOccurs, and rendering or list-size checks enforce minOccurs.",
 ['histories', 'inputs'], 'all operation histories on objects with typed fields and bounded lists',
 'tests check single refused operations and never the state afterwards',
 ['soapfish/xsd.py'], [('ComplexType.__setattr__', 'xsd.py'), ('TypedList', 'xsd.py'), ('ListElement.render', 'xsd.py')], ['field values after each operation'])

prop('P17', 'The generated XML Schema accepts exactly what the classes describe',
 "For every class model in the supported fragment (elements, lists, attributes, simple types with facets, extension, sequence/choice/all, imports and includes; one namespace per type reference), the generated XML Schema is itself a valid schema (by itself and together with other ones) and accepts a document if and only if the document conforms to the class declarations: field names, order, occurrence limits, nillability, required and optional attributes, simple types with every facet declared, choice/all/sequence indicators, element forms and namespaces. "
 "In particular every document rendered from a complete object validates, and a document an object could not legally hold does not.",
 ['inputs', 'configurations'], 'all class models in the supported fragment, all documents (rendered and mutated)',
 'tests compare a few generated schemas with expected text or only check that generation does not fail',
 ['soapfish/py2xsd.py', 'soapfish/xsdspec.py', 'soapfish/xsd.py'], [('generate_xsd, create_xsd_element, xsd_complexType, xsd_simpleType, xsd_attribute', 'py2xsd.py')], ['generated schema, validation verdicts'])

prop('P18', 'Code generated from a schema describes the same documents as the schema',
 "For every XML Schema in the supported fragment (named and anonymous complex types, simple type restrictions, extension, attributes, repeated and optional and nillable elements, attribute groups), the generated Python code imports without error and its classes, converted back to XML Schema or used to parse and render, describe the same set of documents with the same element names, order, occurrence, types and facets, and the same substitution groups. "
 "Every name that is not a valid or free Python name is still rendered and parsed under its XML name (the names of one class, or of the types, must not become equal when all but letters, digits and underscores are replaced).",
 ['programs', 'inputs'], 'all schema documents in the supported fragment',
 'tests generate code from a few fixed schemas and mostly check that it compiles',
 ['soapfish/xsd2py.py', 'soapfish/templates/lib.jinja2', 'soapfish/templates/xsd.jinja2', 'soapfish/xsdspec.py', 'soapfish/utils.py'],
 [('templates', 'templates/*.jinja2'), ('get_type', 'utils.py:get_rendering_environment')], ['generated module behaviour'])

prop('P19', 'The WSDL describes exactly the service, and code from it rebuilds the service',
 "For every service, the generated WSDL is well-formed and closed (every message, port type, binding, element and type reference resolves inside it), has exactly one operation per method with that method's name, action, style and input/output element, and states the service's name, target namespace, address and SOAP version. "
 "Code generated from that WSDL, for client or server, imports without error and defines a service with the same version, namespaces, operations, actions, inputs and outputs, and a client stub with one method per operation bound to the same address.",
 ['configurations', 'programs'], 'all services over the supported fragment, both SOAP versions, client and server targets',
 'tests check two or three WSDL files',
 ['soapfish/py2wsdl.py', 'soapfish/wsdl.py', 'soapfish/wsdl11.py', 'soapfish/wsdl12.py', 'soapfish/wsdl2py.py', 'soapfish/templates/wsdl.jinja2', 'soapfish/soap.py'],
 [('generate_wsdl', 'py2wsdl.py'), ('generate_code_from_wsdl', 'wsdl2py.py')], ['generated WSDL', 'generated service object'])

prop('P20', 'Generated code defines everything once and before it is used',
 "For every order in which a schema lists its types, and every order in which a WSDL or schema set lists its schemas, with any acyclic pattern of import and include between the schemas and of extension (of types of the same schema or of one it refers to, types having different names), the generated code defines each class and schema exactly once and before any statement that needs it, so the module imports; each definition is the one of its document, with the references to other schemas this has. A document reachable by several paths or in a cycle is processed once and generation terminates. "
 "The definitions do not depend on the listing order.",
 ['inputs', 'schedules'], 'all orders and dependency graphs of types, schemas and documents up to the bound',
 'tests have one or two fixed orders',
 ['soapfish/xsd2py.py', 'soapfish/wsdl2py.py', 'soapfish/utils.py', 'soapfish/templates/xsd.jinja2'],
 [('_reorder_complexTypes', 'xsd2py.py'), ('reorder_schemas, merge_imports', 'wsdl2py.py'), ('known_paths', 'xsd2py.py')], ['importability and definitions of generated module'])

prop('P21', 'Referenced documents are read from the location the referrer means, only',
 "Every relative location in an import or include, of schemas or WSDLs, at any depth and any mix of directories and URLs, is resolved against the document containing it (not the working directory or a previously processed sibling), so exactly the documents the reference graph reaches are opened, each once, and none else. "
 "Building a validator for, or validating and dispatching documents against, a set of schemas opens no file and no network connection at all: an unknown location is an error and external entities are never fetched.",
 ['configurations', 'inputs'], 'all directory layouts and reference graphs up to the bound; all documents with entities or schemaLocation hints',
 'tests have one relative layout and one no-network test',
 ['soapfish/xsd2py.py', 'soapfish/wsdl2py.py', 'soapfish/utils.py', 'soapfish/py2xsd.py'],
 [('resolve_location, open_document', 'utils.py'), ('rewrite_paths, resolve_import', 'xsd2py.py'), ('merge_imports', 'wsdl2py.py'), ('SchemaResolver', 'py2xsd.py')], ['files and URLs opened'])

prop('P22', 'SOAP headers are checked, typed and answered as declared',
 "With strict header checking, a request any of whose header blocks is not valid against the service's schema is a client fault and no handler runs; without it such blocks are tolerated; WS-Addressing blocks are checked against the WS-Addressing schema in both modes. "
 "The handler sees a header object of the operation's declared input header class (or else the service's), with exactly the values sent, or none if no header was sent or no class is declared, and a header the handler or a middleware sets on its response is rendered in the response envelope, on success and on fault. A WS-Addressing header filled as the answer to another relates to that message, carries its action with Response appended, the anonymous address and an identifier of its own.",
 ['inputs', 'configurations'], 'all header contents, both strictness modes, all combinations of operation and service header classes, both SOAP versions',
 'tests send two or three fixed headers',
 ['soapfish/soap_dispatch.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/wsa.py'],
 [('_validate_header, _parse_header', 'soap_dispatch.py'), ('Header', 'soap11.py'), ('fill_header', 'wsa.py')], ['handler header argument', 'response envelope'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
