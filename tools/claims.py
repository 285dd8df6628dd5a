claim('P10', 'TLC enumeration of spec/FacetSpace.tla (all restrictions by up to three facets) replayed into fields, and trace validation (spec/FacetTrace.tla over SimpleTypes.tla) of recorded histories on typed fields',
      'Exhaustive for small restrictions and candidates; each recorded operation on a field with random facets is decided by TLC beyond it.')
claim('P11', 'TLC enumeration of spec/IntegerSpace.tla replayed into the library, plus TLA+ trace validation',
      'Exhaustive around every bound of all 13 types for every literal form and narrowing facet; random elsewhere.')
claim('P12', 'TLC enumeration of spec/Calendar.tla replayed, and TLA+ trace validation of write/read events (spec/LexicalTrace.tla)',
      'Exhaustive over the boundary grid of dates, clocks and offsets; random values and texts for all types.')
claim('P13', 'TLA+ trace validation of recorded renderings (spec/ModelTrace.tla over ClassModel.tla, whose Render gives the document an object must produce)',
      'Random class declarations and objects; TLC computes the only document the declaration allows and compares it with the rendered one.')
claim('P14', 'TLA+ trace validation of recorded parses and round trips (spec/ModelTrace.tla over ClassModel.tla) over random XML presentations',
      'Random class declarations, objects and presentations; TLC decides which values the document denotes.')
claim('P15', 'TLC exploration of spec/ObjectSpace.tla (every history of operations to a bound) replayed into the library, and trace validation (spec/ObjectTrace.tla over Objects.tla)',
      'Exhaustive over histories up to the depth on a fixed class family; random class families and longer histories beyond it.')
claim('P16', 'TLC exploration of spec/ObjectSpace.tla replayed into the library, and trace validation (spec/ObjectTrace.tla over Objects.tla) of histories of accepted and refused operations',
      'Exhaustive over histories up to the depth on a fixed class family; random class families and longer histories beyond it.')
claim('P17', 'TLC enumeration of spec/ContentSpace.tla (all small classes and documents) and spec/FacetSpace.tla (all small restrictions) replayed into generated schemas, and trace validation (spec/SchemaTrace.tla over ClassModel.tla Invalid) of random models',
      'Exhaustive for one- and two-field classes and short documents; random models with nesting, facets, includes and imports beyond it. The verdict of the generated schema is taken from libxml2.')
claim('P01', 'TLA+ trace validation (spec/DispatchTrace.tla over Dispatch.tla and ClassModel.tla) of recorded calls of random services',
      'Random services, valid and mutated bodies; TLC decides validity, the values the handler must get and the document of the answer.')
claim('P02', 'TLA+ trace validation (spec/DispatchTrace.tla, operator Route of Dispatch.tla) of recorded calls',
      'Random operation tables (duplicate, shared, empty and quoted actions, substitution groups) and request forms; TLC computes the operation.')
claim('P03', 'TLA+ trace validation (spec/DispatchTrace.tla) of recorded calls with malformed contents and failing callbacks',
      'Generated damage of the bytes, the envelope and the body, and errors raised at every callback; TLC computes the fault.')
claim('P04', 'TLC exploration of spec/DispatchSpace.tla (all middleware stacks to a bound) replayed into the dispatcher, and trace validation of random stacks',
      'Exhaustive over stacks up to the bound for every middleware behaviour and handler outcome; random services and longer stacks beyond it.')
claim('P05', 'TLC exploration of spec/DispatchSpace.tla (all subsets and kinds of hooks, request kinds and outcomes) replayed into the dispatcher, and trace validation',
      'Exhaustive over hook subsets and behaviours for each request kind; random services beyond it.')
claim('P07', 'TLC enumeration of the interleavings in spec/Interleave.tla replayed on threads, histories and preemption runs judged by spec/DispatchTrace.tla',
      'Exhaustive over interleavings of callbacks for small numbers of requests; sampled histories and preemptions inside library code.')
claim('P22', 'TLA+ trace validation (spec/DispatchTrace.tla, WsaFaults and header operators of Dispatch.tla) of recorded calls',
      'Random header classes, WS-Addressing headers and answers; TLC decides what the handler must see and the header sent.')
claim('P06', 'TLC enumeration of spec/DocumentSpace.tla (all import/include graphs to a bound) replayed into the dispatcher, and trace validation (spec/DocumentTrace.tla over Documents.tla)',
      'Exhaustive over graphs of 3 (thorough: 4) schemas; random graphs, locations, hosts, methods and queries beyond it.')
claim('P08', 'TLA+ trace validation (spec/EntryTrace.tla over Dispatch.tla) of the same HTTP request given to the dispatcher and to all entries',
      'Random services, requests, lengths, statuses and headers; in-process WSGI, Flask and Django requests (no network).')
claim('P09', 'TLA+ trace validation (spec/StubTrace.tla over Dispatch.tla, ClassModel.tla, Documents.tla) of calls through stubs to dispatchers of the same service',
      'Random services, values, headers, faults and locations; TLC judges the request on the wire, what the handler gets and what the caller gets.')
claim('P18', 'TLA+ trace validation (spec/CodeTrace.tla over ClassModel.tla and SchemaTrace.tla) of modules generated from random schema documents',
      'Random schema documents written without the library, with hostile names; TLC decides which documents the regenerated schema must accept and what parsing and rendering with the generated classes must give.')
claim('P19', 'TLA+ trace validation (spec/WsdlTrace.tla over Wsdl.tla and SchemaTrace.tla) of WSDLs generated for random services, WSDLs written without the library, and the modules generated from either',
      'Random services and WSDL documents with hostile names; TLC judges closure and content of the WSDL, the rebuilt services and stubs, and calls between the generated client and server.')
claim('P20', 'TLC enumeration of spec/CodegenSpace.tla (all base functions, schema graphs and document graphs up to a bound, in every listing order) replayed into the generators, and trace validation (spec/CodegenTrace.tla over Codegen.tla)',
      'Exhaustive over bases of 5 types, acyclic graphs of 4 inline schemas and all graphs of 3 documents; random worlds of types, schemas, documents and WSDLs beyond it.')
claim('P21', 'TLC enumeration of spec/CodegenSpace.tla with locations, and trace validation (spec/CodegenTrace.tla over Codegen.tla) of the files and URLs really opened (inotify, loopback server)',
      'All graphs of 3 documents with 4 places each (sampled in the quick tier); random layouts of directories and URLs; random validators, dispatchers, requests and responses which must open nothing.')
