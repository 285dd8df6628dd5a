From a8cd7e4f6a7b28089d0e4c5df3d6100f8c373584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 01/89] fix: SOAPResponse keeps the http_status_code it is
 given

---
 soapfish/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/core.py b/soapfish/core.py
index d15a3df..9e1e6be 100644
--- a/soapfish/core.py
+++ b/soapfish/core.py
@@ -18,7 +18,7 @@ class SOAPResponse:
     def __init__(self, soap_body, soap_header=None, http_status_code=200, http_content=None, http_headers=None):
         self.soap_header = soap_header
         self.soap_body = soap_body
-        self.http_status_code = 200
+        self.http_status_code = http_status_code
         self.http_headers = {} if http_headers is None else http_headers
         self.http_content = http_content
 
-- 
2.43.0


From a9216f9b02a57479d3b417b5632e3c11004d9cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 02/89] fix: malformed envelopes (empty body, comments, nil
 header, bad text) get a client fault

---
 soapfish/soap11.py        |  5 +++--
 soapfish/soap_dispatch.py | 10 +++++++---
 soapfish/xsd.py           |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 2357533..02bcd86 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -57,10 +57,11 @@ class Body(xsd.ComplexType):
     Fault = xsd.Element(Fault, minOccurs=0)
 
     def parse_as(self, ContentType):
-        return ContentType.parse_xmlelement(self._xmlelement[0])
+        return ContentType.parse_xmlelement(self.content())
 
     def content(self):
-        return self._xmlelement[0]
+        # First child element, skipping comments and processing instructions.
+        return next(self._xmlelement.iterchildren('*'), None)
 
 
 class Envelope(xsd.ComplexType):
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b31f38d..b265bc2 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -6,7 +6,7 @@ from urllib.parse import parse_qs
 
 from lxml import etree
 
-from . import py2wsdl, py2xsd, wsa
+from . import py2wsdl, py2xsd, wsa, xsd
 from .core import SOAPError, SOAPRequest, SOAPResponse
 from .utils import uncapitalize, walk_schema_tree
 
@@ -63,7 +63,7 @@ class SOAPDispatcher:
         try:
             # note : no validation is performed
             envelope = SOAP.Envelope.parsexml(xml)
-        except etree.XMLSyntaxError as e:
+        except (etree.XMLSyntaxError, ValueError) as e:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
         # Actually this is more a stopgap measure than a real fix. The real
         # fix is to change SOAP.Envelope/ComplexType so it raises some kind of
@@ -73,6 +73,10 @@ class SOAPDispatcher:
         # SOAP 1.2: http://www.w3.org/2003/05/soap-envelope/
         if envelope.Body is None:
             raise SOAPError(SOAP.Code.CLIENT, 'Missing SOAP body')
+        if envelope.Body.content() is None:
+            raise SOAPError(SOAP.Code.CLIENT, 'Empty SOAP body')
+        if envelope.Header is xsd.NIL:
+            envelope.Header = None
         return envelope
 
     def _find_handler_for_request(self, request, body):
@@ -129,7 +133,7 @@ class SOAPDispatcher:
     def _validate_header(self, soap_header):
         if soap_header is None:
             return
-        for children in soap_header._xmlelement.getchildren():
+        for children in soap_header._xmlelement.iterchildren('*'):
             namespace = children.nsmap.get(children.prefix)
             if namespace == wsa.NAMESPACE:
                 wsa.XML_SCHEMA.assertValid(children)
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8078115..e6706e5 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -946,7 +946,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         def gettagns(tag):
             """Translate a tag string in a format {namespace} tag to a tuple (namespace, tag)."""
             return tag[1:].split('}', 1) if tag[0] == '{' else (None, tag)
-        if isinstance(xmlelement, etree._Comment):
+        if not isinstance(xmlelement.tag, str):  # comments, processing instructions and entities
             return False
         ns, tag = gettagns(xmlelement.tag)
         return tag == field._name or tag == field.tagname
-- 
2.43.0


From 085955f8ea08383f244aace28f25afb507f625ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 03/89] fix: body elements without an operation get a client
 fault, cyclic imports terminate

---
 soapfish/soap_dispatch.py |  5 +++--
 soapfish/xsd.py           | 17 +++++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b265bc2..30c8553 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -101,8 +101,9 @@ class SOAPDispatcher:
                 pass  # fall through and check for substitution group element
             try:
                 # FIXME: Improve handling of namespaces to be less hacky...
-                e = next(e for s in self.service.schemas for n, e in s.elements.items() if n == root_tag)
-                return next(m for m in self.service.methods if m.input == e.substitutionGroup.split(':')[-1])
+                e = self.service.find_element_by_name(root_tag)
+                head = e.substitutionGroup.split(':')[-1] if e is not None and e.substitutionGroup else None
+                return next(m for m in self.service.methods if head is not None and m.input == head)
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
 
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index e6706e5..d810155 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1150,14 +1150,15 @@ class Schema:
             t._force_elements_type_evalution()
 
     def get_element_by_name(self, name):
-        if name in self.elements:
-            return self.elements[name]
-
-        for i in itertools.chain(self.imports, self.includes):
-            element = i.get_element_by_name(name)
-            if element is not None:
-                return element
-
+        pending, seen = [self], []
+        while pending:  # depth-first, each schema once as imports may be cyclic
+            schema = pending.pop(0)
+            if any(schema is s for s in seen):
+                continue
+            seen.append(schema)
+            if name in schema.elements:
+                return schema.elements[name]
+            pending[:0] = itertools.chain(schema.imports, schema.includes)
         return None
 
 
-- 
2.43.0


From 5ccca41a2b0d6dfdc3e2828a0624238bb439332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 04/89] fix: xsd-response hook is called, hook names are
 checked in full

---
 soapfish/soap_dispatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 30c8553..9518ed8 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -32,7 +32,7 @@ class SOAPDispatcher:
             hooks = {}
         else:
             for hook in hooks:
-                if not re.match(r'(soap|wsdl|xsd)-(request|response)', hook):
+                if not re.fullmatch(r'(soap|wsdl|xsd)-(request|response)', hook):
                     raise KeyError(f'Invalid dispatcher hook name: {hook}')
         self.hooks = hooks
 
@@ -235,7 +235,7 @@ class SOAPDispatcher:
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
 
-        return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
+        return self._call_hook('xsd-response', dispatcher=self, request=request, response=response)
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-- 
2.43.0


From 8834f9cc135cd8f996da1d5657bef519d474943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 05/89] fix: responses of middlewares and of methods with an
 output class are rendered

---
 soapfish/soap_dispatch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 9518ed8..b865279 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -205,10 +205,9 @@ class SOAPDispatcher:
             tagname = uncapitalize(response.soap_body.__class__.__name__)
             # self._validate_response(response.soap_body, tagname)
             # TODO: handle validation results
-            if isinstance(request.method.output, str):
+            # There is no method if a middleware answered the request.
+            if request.method is not None and isinstance(request.method.output, str):
                 tagname = request.method.output
-            else:
-                tagname = uncapitalize(response.content.__class__.__name__)
             response.http_content = SOAP.Envelope.response(tagname, response.soap_body, header=response.soap_header)
 
         return self._call_hook('soap-response', dispatcher=self, request=request, response=response)
-- 
2.43.0


From 81993cb837a823e6b4a027c858bcdda4e1a18d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 06/89] fix: unrepresentable values and unprintable fault
 messages no longer escape dispatch

---
 soapfish/soap_dispatch.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b865279..ada157d 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -165,8 +165,11 @@ class SOAPDispatcher:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
         request.method = self._find_handler_for_request(request, soap_body)
-        request.soap_header = self._parse_header(request.method, soap_header)
-        request.soap_body = self._parse_input(request.method, soap_body)
+        try:
+            request.soap_header = self._parse_header(request.method, soap_header)
+            request.soap_body = self._parse_input(request.method, soap_body)
+        except ValueError as e:  # valid for the schema but not representable in Python
+            raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
     def dispatch(self, request):
         request_method = request.environ.get('REQUEST_METHOD', '')
@@ -199,7 +202,9 @@ class SOAPDispatcher:
 
         if isinstance(response.soap_body, SOAPError):
             error = response.soap_body
-            response.http_content = SOAP.get_error_response(error.code, error.message, header=response.soap_header)
+            # Characters which are not allowed in XML can not be part of the fault.
+            message = re.sub('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '\ufffd', error.message)
+            response.http_content = SOAP.get_error_response(error.code, message, header=response.soap_header)
             response.http_status_code = 500
         else:
             tagname = uncapitalize(response.soap_body.__class__.__name__)
-- 
2.43.0


From bcd9cbe861e6fd6e9645d7c3543d16b2f80afd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 07/89] fix: find the SOAPAction header in a WSGI environment

---
 soapfish/soap11.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 02bcd86..dde9fad 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -10,12 +10,11 @@ NAME = 'soap11'
 
 # --- Functions ---------------------------------------------------------------
 def determine_soap_action(request):
-    if request.environ.get('SOAPACTION'):
-        return request.environ.get('SOAPACTION').replace('"', '')
-    elif request.environ.get('ACTION'):
-        return request.environ.get('ACTION').replace('"', '')
-    else:
-        return None
+    # HTTP headers have a prefix in a WSGI environment.
+    for name in ('SOAPACTION', 'HTTP_SOAPACTION', 'ACTION', 'HTTP_ACTION'):
+        if request.environ.get(name):
+            return request.environ.get(name).replace('"', '')
+    return None
 
 
 def build_http_request_headers(soapAction):
-- 
2.43.0


From c5835d5b8291a164a54ef9621b0ca4e7e85978eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 08/89] fix: plain text answers are bytes as WSGI requires

---
 soapfish/soap_dispatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index ada157d..0927d34 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -182,7 +182,7 @@ class SOAPDispatcher:
         elif request_method == 'POST':
             return self.handle_soap_request(request)
         else:
-            return SOAPResponse('bad request', http_status_code=400, http_content='bad_request',
+            return SOAPResponse('bad request', http_status_code=400, http_content=b'bad_request',
                                 http_headers={'Content-Type': 'text/plain'})
 
     def handle_soap_request(self, request):
@@ -234,7 +234,7 @@ class SOAPDispatcher:
         try:
             xsd = self.xsds[qs['xsd'][0] or 'xsd']
         except KeyError:
-            response = SOAPResponse('not found', http_status_code=404, http_content='not_found',
+            response = SOAPResponse('not found', http_status_code=404, http_content=b'not_found',
                                     http_headers={'Content-Type': 'text/plain'})
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
-- 
2.43.0


From 16a373e59fd9be1c814271e277267fcce491b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 09/89] fix: flask view reads the body whatever its content
 type

---
 soapfish/flask_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/flask_.py b/soapfish/flask_.py
index 3c6894f..9480883 100644
--- a/soapfish/flask_.py
+++ b/soapfish/flask_.py
@@ -8,7 +8,7 @@ def flask_dispatcher(service, **dispatcher_kwargs):
     from flask import request, Response
 
     def flask_dispatch():
-        soap_request = SOAPRequest(request.environ, request.data)
+        soap_request = SOAPRequest(request.environ, request.get_data())
         soap_request._original_request = request
         soap_dispatcher = SOAPDispatcher(service, **dispatcher_kwargs)
         soap_response = soap_dispatcher.dispatch(soap_request)
-- 
2.43.0


From 5673359794fc64918312a563b4a1694a767113f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 10/89] fix: django view finds the WSGI variables with lower
 case names

---
 soapfish/django_.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/django_.py b/soapfish/django_.py
index 3b413cc..879c5dd 100644
--- a/soapfish/django_.py
+++ b/soapfish/django_.py
@@ -9,6 +9,8 @@ class DjangoEnvironWrapper:
         self.environ = environ
 
     def get(self, name, default=None):
+        if name in self.environ:  # e.g. wsgi.url_scheme
+            return self.environ[name]
         name = name.replace('-', '_').upper()
         for key in (name, 'HTTP_' + name):
             if key in self.environ:
-- 
2.43.0


From 74ecdecea8428b085698ddd552f8ef716a36a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 11/89] fix: find the X-Forwarded-Proto header in a WSGI
 environment

---
 soapfish/soap_dispatch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 0927d34..6d64439 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -219,7 +219,9 @@ class SOAPDispatcher:
 
     def handle_wsdl_request(self, request):
         request = self._call_hook('wsdl-request', dispatcher=self, request=request)
-        scheme = request.environ.get('X_FORWARDED_PROTO', request.environ.get('wsgi.url_scheme', 'http'))
+        scheme = request.environ.get('X_FORWARDED_PROTO', request.environ.get('HTTP_X_FORWARDED_PROTO'))
+        if scheme is None:
+            scheme = request.environ.get('wsgi.url_scheme', 'http')
         host = request.environ.get('HTTP_HOST')
         wsdl = self.wsdl
         if scheme and host:
-- 
2.43.0


From 46cef569b509b9c440c9e27fc5deacc7a3051edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:33 +0000
Subject: [PATCH 12/89] fix: served documents stay well-formed and their schema
 locations resolve

---
 soapfish/soap_dispatch.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 6d64439..a759ba8 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -2,7 +2,8 @@ import functools
 import logging
 import re
 import string
-from urllib.parse import parse_qs
+from urllib.parse import parse_qs, quote
+from xml.sax.saxutils import escape
 
 from lxml import etree
 
@@ -225,7 +226,14 @@ class SOAPDispatcher:
         host = request.environ.get('HTTP_HOST')
         wsdl = self.wsdl
         if scheme and host:
-            wsdl = string.Template(wsdl.decode()).safe_substitute(scheme=scheme, host=host).encode()
+            quotes = {'"': '&quot;', "'": '&apos;'}
+            context = {'scheme': escape(scheme, quotes), 'host': escape(host, quotes)}
+            # Only the addresses are templates, anything else has to be served as is.
+            wsdl = re.sub(
+                r'''\slocation\s*=\s*("[^"]*"|'[^']*')''',
+                lambda m: string.Template(m.group()).safe_substitute(context),
+                wsdl.decode(),
+            ).encode()
         response = SOAPResponse('wsdl', http_content=wsdl, http_headers={'Content-Type': 'text/xml'})
         return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
 
@@ -245,7 +253,8 @@ class SOAPDispatcher:
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-            e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
+            if 'schemaLocation' in e.attrib:
+                e.attrib['schemaLocation'] = '?xsd=%s' % quote(e.attrib['schemaLocation'], safe='/:')
 
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
-- 
2.43.0


From 0fe2da97d4d0db6dc4886876e88239beebef1373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 13/89] fix: use_wsa refers to the existing WS-Addressing
 header class

---
 soapfish/soap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index d5f6219..e8ca771 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -49,9 +49,9 @@ class Service:
         self.version = version
         self.use_wsa = use_wsa
         if use_wsa and input_header is None:
-            input_header = wsa.WSAsaHeader
+            input_header = wsa.Header
         if use_wsa and output_header is None:
-            output_header = wsa.WSAHeader
+            output_header = wsa.Header
         self.input_header = input_header
         self.output_header = output_header
 
-- 
2.43.0


From 9566cd3aabf67f3c348c9556067e9d463b3a6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 14/89] fix: patterns have to match the whole value

---
 soapfish/xsd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index d810155..fe516ca 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -152,8 +152,7 @@ class String(SimpleType):
         value = self._clean_whitespace(value)
 
         if self.pattern:
-            pattern = self.pattern + '$'
-            if re.match(pattern, value) is None:
+            if re.fullmatch(self.pattern, value) is None:
                 raise ValueError(f"Value '{value}' doesn't match pattern '{self.pattern}'")
 
         if self.enumeration:
@@ -380,8 +379,7 @@ class Decimal(SimpleType):
             raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-            pattern = self.pattern + '$'
-            if re.match(pattern, str(value)) is None:
+            if re.fullmatch(self.pattern, str(value)) is None:
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-- 
2.43.0


From e47bd251fab17df07606e6016fda5533c80e3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 15/89] fix: zero lengths are facets, whitespace is normalised
 as XML Schema says

---
 soapfish/xsd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index fe516ca..55d8cac 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -159,15 +159,15 @@ class String(SimpleType):
             if not (value in self.enumeration):
                 raise ValueError(f"Value '{value}' not in list {self.enumeration}.")
 
-        if self.length:
+        if self.length is not None:
             if len(value) != self.length:
                 raise ValueError(f"Value '{value}' length {self.length} expected.")
 
-        if self.minLength:
+        if self.minLength is not None:
             if len(value) < self.minLength:
                 raise ValueError(f"Value '{value}' minLength {self.minLength} expected.")
 
-        if self.maxLength:
+        if self.maxLength is not None:
             if len(value) > self.maxLength:
                 raise ValueError(f"Value '{value}' maxLength {self.maxLength} expected.")
 
@@ -185,10 +185,10 @@ class String(SimpleType):
             pass
         elif self.whiteSpace == 'replace':
             # replace line feeds, tabs, spaces, and carriage returns with whitespaces
-            value = re.sub(r'[\t\r\n\s]', ' ', value)
+            value = re.sub(r'[\t\r\n]', ' ', value)
         elif self.whiteSpace == 'collapse':
             # clean line feeds, tabs, spaces, and carriage returns with one whitespace
-            value = re.sub(r'[\t\r\n\s]+', ' ', value)
+            value = re.sub(r'[\t\r\n ]+', ' ', value).strip(' ')
 
         return value
 
-- 
2.43.0


From f2c0ec80304e50e51a89c71e6e5e30938020b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 16/89] fix: xsi:nil is read as a boolean

---
 soapfish/xsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 55d8cac..9c27d90 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -531,6 +531,10 @@ def import_type(type_name):
     return getattr(module, name)
 
 
+def is_nil(xmlelement):
+    return xmlelement.get(f'{{{ns.xsi}}}nil', '').strip() in ('true', '1')
+
+
 class Element:
     """
     Basic building block, represents an XML element that can appear 0 or 1 times that should be rendered as subelement.
@@ -618,7 +622,7 @@ class Element:
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') == 'true' else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         setattr(instance, field_name, value)
 
     def __repr__(self):
@@ -815,7 +819,7 @@ class ListElement(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         _list = getattr(instance, field_name)
         _list.append(value)
 
-- 
2.43.0


From 801de2033a9da0683df2c6f953ee865aef363af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 17/89] fix: attributes are parsed under their tagname

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9c27d90..ec6fb52 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -687,7 +687,7 @@ class Attribute(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        xmlvalue = xmlelement.get(field_name)
+        xmlvalue = xmlelement.get(self.tagname or field_name)
         if xmlvalue is None:
             xmlvalue = self.default
         value = self._type.pythonvalue(xmlvalue)
-- 
2.43.0


From 6a73acae69abe8bd71e1cc0b1ad6989339c00e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 18/89] fix: instances do not share the lists of referenced
 groups

---
 soapfish/xsd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index ec6fb52..7bca51f 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -27,7 +27,6 @@ Design Decision Log.
 For information on XML schema validation, see https://lxml.de/validation.html#xmlschema
 """
 
-import copy
 import decimal
 import enum
 import functools
@@ -722,7 +721,7 @@ class Ref(Element):
 
     def empty_value(self):
         self._evaluate_type()
-        return copy.copy(self._type)
+        return type(self._type)()
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-- 
2.43.0


From efe3b13e4d586b06a62efcba5a7846d21bcc9f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:18 +0000
Subject: [PATCH 19/89] fix: references to complex types are parsed from the
 element they are rendered to

---
 soapfish/xsd.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 7bca51f..9e7edad 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -725,7 +725,7 @@ class Ref(Element):
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-            if self._required:
+            if self._minOccurs:
                 raise ValueError('Value None is not acceptable for required field.')
             else:
                 return
@@ -739,6 +739,15 @@ class Ref(Element):
         self._type.render(ref_element, value, namespace, elementFormDefault)
         parent.append(ref_element)
 
+    def parse(self, instance, field_name, xmlelement):
+        self._evaluate_type()
+        if isinstance(self._type, ComplexType) and not isinstance(self._type, Group):
+            # Not a group, the value has been rendered as an element of its own.
+            for subelement in instance._find_subelement(self, xmlelement):
+                super().parse(instance, field_name, subelement)
+        else:
+            super().parse(instance, field_name, xmlelement)
+
 
 class Content(Ref):
     """Direct access to element.text. Note that <> will be escaped."""
-- 
2.43.0


From 50567f3677aa12b29d772d3f77edb315c84b68c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 20/89] fix: numeric types keep exact values, combine all
 facets and check the lexical space

---
 soapfish/xsd.py | 153 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 98 insertions(+), 55 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9e7edad..0f6b21a 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -339,75 +339,105 @@ class Time(SimpleType):
 
 
 class Decimal(SimpleType):
+    # To be defined in children.
+    enumeration = None
+    fractionDigits = None
+    maxExclusive = None
+    maxInclusive = None
+    minExclusive = None
+    minInclusive = None
+    pattern = None
+    totalDigits = None
+
+    LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)')
 
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None,
                  maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None, totalDigits=None):
-        self.enumeration = enumeration
-        self.fractionDigits = fractionDigits
-        self.maxExclusive = maxExclusive
-        self.maxInclusive = maxInclusive
-        self.minExclusive = minExclusive
-        self.minInclusive = minInclusive
-        self.pattern = pattern
-        self.totalDigits = totalDigits
+        # Override static values
+        if enumeration is not None:
+            self.enumeration = enumeration
+        if fractionDigits is not None:
+            self.fractionDigits = fractionDigits
+        if maxExclusive is not None:
+            self.maxExclusive = maxExclusive
+        if maxInclusive is not None:
+            self.maxInclusive = maxInclusive
+        if minExclusive is not None:
+            self.minExclusive = minExclusive
+        if minInclusive is not None:
+            self.minInclusive = minInclusive
+        if pattern is not None:
+            self.pattern = pattern
+        if totalDigits is not None:
+            self.totalDigits = totalDigits
 
     def _check_restrictions(self, value):
-        if self.enumeration is not None and value not in self.enumeration:
+        # The facets are about the number as it is written, so do not compare binary floating point numbers.
+        exact = self._exact(value)
+
+        if self.enumeration is not None and exact not in [self._exact(v) for v in self.enumeration]:
             raise ValueError(f'{value} not in enumeration {self.enumeration}')
 
-        if self.fractionDigits is not None:
-            strvalue = str(value)
-            if self.fractionDigits == 0:
-                if '.' in strvalue:
-                    raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
-            else:
-                if '.' not in strvalue:
-                    raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
-                fr = strvalue.split('.')[1]
-                if len(fr) != self.fractionDigits:
-                    raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
+        strvalue = self.xmlvalue(value)
+        fraction = strvalue.partition('.')[2]
+
+        if self.fractionDigits is not None and len(fraction) != int(self.fractionDigits):
+            raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
 
-        if self.maxExclusive is not None and value >= self.maxExclusive:
+        bounds = (self.maxExclusive, self.maxInclusive, self.minExclusive, self.minInclusive)
+        if exact.is_nan() and any(bound is not None for bound in bounds):
+            raise ValueError(f'Value {value} is not comparable to the limits')
+        if self.maxExclusive is not None and exact >= self._exact(self.maxExclusive):
             raise ValueError(f'Value {value} greater or equal to maxExclusive {self.maxExclusive}')
-        if self.maxInclusive is not None and value > self.maxInclusive:
+        if self.maxInclusive is not None and exact > self._exact(self.maxInclusive):
             raise ValueError(f'Value {value} greater than maxInclusive {self.maxInclusive}')
-        if self.minExclusive is not None and value <= self.minExclusive:
+        if self.minExclusive is not None and exact <= self._exact(self.minExclusive):
             raise ValueError(f'Value {value} smaller or equal to minExclusive {self.minExclusive}')
-        if self.minInclusive is not None and value < self.minInclusive:
+        if self.minInclusive is not None and exact < self._exact(self.minInclusive):
             raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-            if re.fullmatch(self.pattern, str(value)) is None:
+            if re.fullmatch(self.pattern, strvalue) is None:
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-            strvalue = str(value)
-            length = len(strvalue)
-            if '.' in strvalue:
-                length -= 1
-            if length > self.totalDigits:
+            integral = strvalue.partition('.')[0].lstrip('-').lstrip('0')
+            if len(integral + fraction.rstrip('0')) > int(self.totalDigits):
                 raise ValueError(f'Number of total digits of {strvalue} is bigger than {self.totalDigits}.')
 
         return value
 
+    @staticmethod
+    def _exact(value):
+        return decimal.Decimal(str(value))
+
+    def _parse(self, value):
+        value = value.strip(' \t\r\n')
+        if self.LEXICAL_REGEX.fullmatch(value) is None:
+            raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
+        return float(value)
+
     def accept(self, value):
         if value is None:
             return None
-        elif isinstance(value, decimal.Decimal):
-            value = str(value)
-        elif isinstance(value, (float, int)):
+        elif isinstance(value, bool):
+            raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
+        elif isinstance(value, (decimal.Decimal, float, int)):
             pass  # value is just value
         elif isinstance(value, str):
-            value = float(value)
+            value = self._parse(value)
         else:
             raise ValueError(f"Incorrect value '{value}' for Decimal field.")
 
+        if self.LEXICAL_REGEX.fullmatch(self.xmlvalue(value)) is None:
+            raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
         self._check_restrictions(value)
         return value
 
     def xmlvalue(self, value):
-        return str(value)
+        # There is no exponent in the XML representation of a decimal number.
+        return format(self._exact(value), 'f')
 
     def pythonvalue(self, xmlvalue):
         if xmlvalue == 'nil':
@@ -417,6 +447,8 @@ class Decimal(SimpleType):
 
 
 class Double(Decimal):
+    LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([Ee][-+]?[0-9]+)?|-?INF|NaN')
+
     def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None):
         super().__init__(
@@ -424,38 +456,49 @@ class Double(Decimal):
             minInclusive=minInclusive, pattern=pattern,
         )
 
+    def xmlvalue(self, value):
+        return {'inf': 'INF', '-inf': '-INF', 'nan': 'NaN'}.get(str(value), str(value))
 
-class Float(Decimal):
-    def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
-                 pattern=None):
-        super().__init__(
-            enumeration=enumeration, maxExclusive=maxExclusive, maxInclusive=maxInclusive, minExclusive=minExclusive,
-            minInclusive=minInclusive, pattern=pattern,
-        )
+
+class Float(Double):
+    pass
 
 
 class Integer(Decimal):
     overrides = {'fractionDigits': 0, 'pattern': r'[-+]?[0-9]+'}
 
+    LEXICAL_REGEX = re.compile(r'[-+]?[0-9]+')
+
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None, maxInclusive=None, minExclusive=None,
                  minInclusive=None, pattern=None, totalDigits=None):
-        facets = {k: v for k, v in locals().items() if k not in {'self', '__class__'}}
+        super().__init__(
+            enumeration=enumeration, fractionDigits=fractionDigits, maxExclusive=maxExclusive,
+            maxInclusive=maxInclusive, minExclusive=minExclusive, minInclusive=minInclusive, pattern=pattern,
+            totalDigits=totalDigits,
+        )
+        builtin = {}
         for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
-            facets.update(c.overrides)
-        super().__init__(**facets)
+            builtin.update(c.overrides)
+        for name, value in builtin.items():
+            facet = getattr(self, name)
+            # The value space of the type can be narrowed by facets but it can not be extended.
+            if (
+                facet is None or name == 'fractionDigits'
+                or name == 'minInclusive' and self._exact(facet) < value
+                or name == 'maxInclusive' and self._exact(facet) > value
+            ):
+                setattr(self, name, value)
+
+    def _parse(self, value):
+        value = value.strip(' \t\r\n')
+        if self.LEXICAL_REGEX.fullmatch(value) is None:
+            raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
+        return int(value)
 
     def accept(self, value):
-        if value is None:
-            return None
-        elif isinstance(value, int):
-            pass  # value is just value continue.
-        elif isinstance(value, str):
-            value = int(value)
-        else:
+        if value is not None and not isinstance(value, (int, str)):
             raise ValueError(f"Incorrect value '{value}' for Decimal field.")
-
-        self._check_restrictions(value)
-        return value
+        return super().accept(value)
 
 
 class NonNegativeInteger(Integer):
-- 
2.43.0


From a6b568d1beeeead4716e044db2f60134685774af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 21/89] fix: booleans accept 1 and 0 in XML and can be rendered
 whatever was assigned

---
 soapfish/xsd.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 0f6b21a..cdbf751 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -194,8 +194,10 @@ class String(SimpleType):
 
 class Boolean(SimpleType):
     def accept(self, value):
-        if value in [True, False, None]:
-            return value
+        if value is None:
+            return None
+        elif value in [True, False]:
+            return bool(value)
         else:
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
@@ -210,12 +212,13 @@ class Boolean(SimpleType):
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
     def pythonvalue(self, value):
-        if value == 'false':
+        if value == 'nil' or value is None:
+            return None
+        lexical = value.strip(' \t\r\n')
+        if lexical in ('false', '0'):
             return False
-        elif value == 'true':
+        elif lexical in ('true', '1'):
             return True
-        elif value == 'nil' or value is None:
-            return None
         else:
             raise ValueError(f'Boolean value error - {value}')
 
-- 
2.43.0


From 9a01ba41a005409fc72f86256ab06db3d037b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 22/89] fix: dates and times are written completely, negative
 years are not read as positive

---
 soapfish/xsd.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index cdbf751..00733eb 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -230,9 +230,8 @@ class Date(SimpleType):
     #   3.2.9.2 Constraining facets
 
     YEAR_MONTH_DAY_REGEX = re.compile(r'''
-        ^(\-)?
-        (?P<year>\d{4,})\-(?P<month>\d{2})\-(?P<day>\d{2})
-        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-9]{2})?))?$''', re.VERBOSE)
+        (?P<year>[0-9]{4,})\-(?P<month>[0-9]{2})\-(?P<day>[0-9]{2})
+        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-9]{2})))?''', re.VERBOSE)
 
     def accept(self, value):
         if value is None:
@@ -247,7 +246,7 @@ class Date(SimpleType):
         raise ValueError(f'Incorrect type value {value!r} for date field.')
 
     def xmlvalue(self, value):
-        timestring_without_tz = value.strftime('%Y-%m-%d')
+        timestring_without_tz = f'{value.year:04d}' + value.strftime('-%m-%d')
         tz = getattr(value, 'tzinfo', None)
         if not tz:
             return timestring_without_tz
@@ -259,7 +258,7 @@ class Date(SimpleType):
         if not isinstance(value, str):
             raise ValueError(f'Expected a string, not {value!r}')
 
-        match = self.YEAR_MONTH_DAY_REGEX.match(value)
+        match = self.YEAR_MONTH_DAY_REGEX.fullmatch(value.strip(' \t\r\n'))
         if match is None:
             raise ValueError(f'Unable to parse date string {value!r}')
         year = int(match.group('year'))
@@ -281,6 +280,10 @@ class Date(SimpleType):
         return timezone(sign * timedelta(hours=hours, minutes=minutes), name='UTC' + offset)
 
 
+def fraction_to_string(value):
+    return f'.{value.microsecond:06d}'.rstrip('0') if value.microsecond else ''
+
+
 class DateTime(SimpleType):
     # Example text value: 2001-10-26T21:32:52
 
@@ -296,7 +299,7 @@ class DateTime(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%Y-%m-%dT%H:%M:%S')
+        timestring_without_tz = f'{value.year:04d}' + value.strftime('-%m-%dT%H:%M:%S') + fraction_to_string(value)
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
@@ -321,7 +324,7 @@ class Time(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%H:%M:%S')
+        timestring_without_tz = value.strftime('%H:%M:%S') + fraction_to_string(value)
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
-- 
2.43.0


From fa7e86382ce32014a9687db4b96125eeba7f5670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 23/89] fix: whitespace around dates and times is not
 significant

---
 soapfish/xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 00733eb..0ad188c 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -306,7 +306,7 @@ class DateTime(SimpleType):
         return timestring_without_tz + timezone_offset_to_string(tz.utcoffset(value))
 
     def pythonvalue(self, value):
-        return None if value is None or value == 'nil' else iso8601.parse_date(value)
+        return None if value is None or value == 'nil' else iso8601.parse_date(value.strip(' \t\r\n'))
 
 
 class Time(SimpleType):
@@ -337,7 +337,7 @@ class Time(SimpleType):
     def _parse(value):
         # Horrible hacky approach to implement this quickly:
         try:
-            dt = iso8601.parse_date('1900-01-01T' + value)
+            dt = iso8601.parse_date('1900-01-01T' + value.strip(' \t\r\n'))
         except Exception as e:
             raise ValueError(str(e)) from e
         else:
-- 
2.43.0


From 23738fb20ee1190af0e4a3de34415a9803bff592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 24/89] fix: comments do not cut off the text of an element

---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 0ad188c..9747747 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -108,7 +108,9 @@ class SimpleType(Type):
         parent.text = self.xmlvalue(value)
 
     def parse_xmlelement(self, xmlelement):
-        return self.pythonvalue(xmlelement.text)
+        # The text may be interrupted by comments and processing instructions.
+        text = (xmlelement.text or '') + ''.join(child.tail or '' for child in xmlelement)
+        return self.pythonvalue(text or None)
 
     def xmlvalue(self, value):
         raise NotImplementedError
-- 
2.43.0


From 8bf57c6cd1d92826f6f173ea7842e9d68b0fa879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 25/89] fix: repeated elements check their items and size
 whatever list operation is used

---
 soapfish/xsd.py | 58 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9747747..94ca896 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -812,18 +812,59 @@ class TypedList(list):
         super().__init__()
         self._list = element
 
-    def append(self, value):
+    def __reduce__(self):
+        # Items are known to be acceptable when copying or unpickling.
+        return TypedList._restore, (self._list, list(self))
+
+    @classmethod
+    def _restore(cls, element, items):
+        restored = cls(element)
+        list.extend(restored, items)
+        return restored
+
+    def _accept(self, value):
         self._list._evaluate_type()
         if value is NIL:
             if not self._list.nillable:
                 raise ValueError('Nil value in not nillable list.')
-            accepted_value = NIL
-        else:
-            accepted_value = self._list._type.accept(value)
-        if self._list._maxOccurs is not None and (len(self) + 1 > self._list._maxOccurs):
+            return NIL
+        return self._list._type.accept(value)
+
+    def _check_size(self, size):
+        if self._list._maxOccurs is not None and size > self._list._maxOccurs:
             raise ValueError(f'You must not add more than {self._list._maxOccurs} items to this list.')
+
+    def append(self, value):
+        accepted_value = self._accept(value)
+        self._check_size(len(self) + 1)
         super().append(accepted_value)
 
+    def insert(self, index, value):
+        accepted_value = self._accept(value)
+        self._check_size(len(self) + 1)
+        super().insert(index, accepted_value)
+
+    def extend(self, values):
+        self[len(self):] = values
+
+    def __iadd__(self, values):
+        self.extend(values)
+        return self
+
+    def __imul__(self, factor):
+        self[:] = list(self) * factor
+        return self
+
+    def __setitem__(self, index, value):
+        if isinstance(index, slice):
+            accepted_value = [self._accept(v) for v in value]
+            result = list(self)
+            result[index] = accepted_value
+            self._check_size(len(result))
+        else:
+            accepted_value = self._accept(value)
+        super().__setitem__(index, accepted_value)
+
 
 class ListElement(Element):
     """
@@ -848,7 +889,12 @@ class ListElement(Element):
         self._minOccurs = minOccurs
 
     def accept(self, value):
-        return value
+        if isinstance(value, str):
+            raise ValueError(f'Expected a list of items and not {value!r}.')
+        # Always a list of its own as instances must not share their lists.
+        items = TypedList(self)
+        items.extend(value if value is not None else ())
+        return items
 
     def empty_value(self):
         return TypedList(self)
-- 
2.43.0


From afd3704ec1b75f98125e11f598666ebab6eb8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 26/89] fix: choices are parsed from the element which contains
 them

---
 soapfish/xsd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 94ca896..028e290 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1069,7 +1069,11 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         for attribute in instance._meta.attributes:
             attribute.parse(instance, attribute._name, xmlelement)
 
-        is_choice = (instance._meta.cls.INDICATOR == Choice)
+        # The element of a choice may be passed without the element around it.
+        is_choice = (
+            instance._meta.cls.INDICATOR == Choice
+            and not any(cls._find_subelement(field, xmlelement) for field in instance._meta.fields)
+        )
         for field in instance._meta.fields:
             if is_choice:
                 if not cls._is_matching_element(field, xmlelement):
-- 
2.43.0


From 38ed2642c078e0f407306149bbe9a783b347fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 27/89] fix: parsing a document returns it and leaves its class
 alone, tagnames are rendered

---
 soapfish/xsd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 028e290..8d8bbc2 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1157,7 +1157,7 @@ class Document(ComplexType):
         field = self._meta.fields[0]  # The only field.
         mockelement = Document.MockElement()
         instance = getattr(self, field._name)
-        field.render(mockelement, field._name, instance, self.NAMESPACE)
+        field.render(mockelement, field.tagname or field._name, instance, self.NAMESPACE)
         return etree.tostring(mockelement.element, pretty_print=True)
 
     # TODO: Add schema support.
@@ -1165,7 +1165,9 @@ class Document(ComplexType):
     def parsexml(cls, xml):
         field = cls._meta.fields[0]  # The only field.
         xmlelement = etree.fromstring(xml)
-        field.parse(cls, field._name, xmlelement)
+        instance = cls()
+        field.parse(instance, field._name, xmlelement)
+        return instance
 
 
 class List(SimpleType):
-- 
2.43.0


From 9e6d3dedbe534d3526b022f8142ee2abcaf0a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 28/89] fix: schemas can be generated for classes with
 attributes

---
 soapfish/py2xsd.py  | 2 +-
 soapfish/xsdspec.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 320c689..a9bbcef 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -36,7 +36,7 @@ def get_xsd_type(_type):
 
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
-    xsdattr.name = attribute._name
+    xsdattr.name = attribute.tagname if attribute.tagname else attribute._name
     xsdattr.use = attribute.use
     xsdattr.type = get_xsd_type(attribute._type)
     return xsdattr
diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index da64a39..d1a72ea 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -79,10 +79,10 @@ class Sequence(xsd.ComplexType):
 
 class Attribute(xsd.ComplexType):
     NAMESPACE = ns.xsd
-    name = xsd.Attribute(xsd.String)
-    ref = xsd.Attribute(xsd.String)
-    type = xsd.Attribute(xsd.String)
-    use = xsd.Attribute(xsd.String)
+    name = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    ref = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    type = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    use = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
     simpleType = xsd.Element(SimpleType, minOccurs=0)
 
 
-- 
2.43.0


From 88dd18808bb3c52d24b1a0a963eee1250accc782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 29/89] fix: all built-in types are known to the schema
 generation

---
 soapfish/py2xsd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index a9bbcef..67c0c93 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -13,10 +13,12 @@ from .utils import uncapitalize, walk_schema_tree
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
-    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte,
+    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte, xsd.NonNegativeInteger, xsd.NonPositiveInteger,
+    xsd.NegativeInteger, xsd.PositiveInteger,
 ]
 
-STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration]
+STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration, xsd.NMTOKEN,
+                xsd.NMTOKENS]
 
 ALL_TYPES = NUMERIC_TYPES + STRING_TYPES
 
@@ -29,7 +31,8 @@ def get_xsd_type(_type):
     """Check if type_ is a basic type in the XSD scope otherwise it must be user defined type."""
     base_class = _type.__class__.__bases__[0]
     if base_class == xsd.SimpleType or _type.__class__ in ALL_TYPES:
-        return 'xsd:' + uncapitalize(_type.__class__.__name__)
+        name = _type.__class__.__name__
+        return 'xsd:' + (name if name.isupper() else uncapitalize(name))
     else:
         return 'sns:' + uncapitalize(_type.__class__.__name__)
 
-- 
2.43.0


From 0413b32faf30420f1f992376d674609b7bacd63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 30/89] fix: generated schemas contain all facets of simple
 types

---
 soapfish/py2xsd.py | 85 +++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 46 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 67c0c93..f512f01 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -22,6 +22,11 @@ STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType,
 
 ALL_TYPES = NUMERIC_TYPES + STRING_TYPES
 
+FACETS = [
+    'minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive', 'fractionDigits', 'totalDigits', 'length',
+    'minLength', 'maxLength', 'whiteSpace',
+]
+
 
 logger = logging.getLogger('soapfish')
 
@@ -37,11 +42,36 @@ def get_xsd_type(_type):
         return 'sns:' + uncapitalize(_type.__class__.__name__)
 
 
+def create_restriction(_type, base):
+    """Create a restriction with all facets of the (simple) type."""
+    restriction = xsdspec.Restriction()
+    restriction.base = base
+
+    for value in getattr(_type, 'enumeration', None) or ():
+        value = value if isinstance(value, str) else _type.xmlvalue(value)
+        restriction.enumerations.append(xsdspec.Enumeration.create(value))
+
+    if getattr(_type, 'pattern', None):
+        restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
+
+    for facet in FACETS:
+        value = getattr(_type, facet, None)
+        if value is not None:
+            if facet.endswith('clusive') and not isinstance(value, str):
+                value = _type.xmlvalue(value)
+            setattr(restriction, facet, xsdspec.RestrictionValue(value=str(value)))
+    return restriction
+
+
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname if attribute.tagname else attribute._name
     xsdattr.use = attribute.use
-    xsdattr.type = get_xsd_type(attribute._type)
+    if inspect.isclass(attribute._passed_type):
+        xsdattr.type = get_xsd_type(attribute._type)
+    else:
+        xsdattr.simpleType = xsdspec.SimpleType()
+        xsdattr.simpleType.restriction = create_restriction(attribute._type, get_xsd_type(attribute._type))
     return xsdattr
 
 
@@ -53,42 +83,14 @@ def create_xsd_element(element):
     if hasattr(element, '_maxOccurs'):
         xsd_element.maxOccurs = element._maxOccurs
 
-    # SimpleType defined in place.
-    parent_type = element._type.__class__.__bases__[0]
-    _type = element._type
-
-    if not inspect.isclass(element._passed_type):
-        xsd_element.simpleType = xsdspec.SimpleType()
-        xsd_element.simpleType.restriction = xsdspec.Restriction()
-        xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
-
-        if hasattr(element._type, 'enumeration') and element._type.enumeration and parent_type == xsd.SimpleType:
-            for value in element._type.enumeration:
-                enum = xsdspec.Enumeration.create(value)
-                xsd_element.simpleType.restriction.enumerations.append(enum)
-
-        if hasattr(_type, 'fractionDigits') and _type.fractionDigits:
-            xsd_element.simpleType.restriction.fractionDigits = xsdspec.RestrictionValue(value=str(_type.fractionDigits))
-
-        if hasattr(_type, 'pattern') and _type.pattern:
-            xsd_element.simpleType.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
-
-        if hasattr(_type, 'minInclusive') and _type.minInclusive:
-            xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=str(_type.minInclusive))
-
-        if hasattr(_type, 'minExclusive') and _type.minExclusive:
-            xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=str(_type.minExclusive))
-
-        if hasattr(_type, 'maxExclusive') and _type.maxExclusive:
-            xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=str(_type.maxExclusive))
-
-        if hasattr(_type, 'maxInclusive') and _type.maxInclusive:
-            xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=str(_type.maxInclusive))
-
-        if hasattr(_type, 'totalDigits') and _type.totalDigits:
-            xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
-    else:
+    if inspect.isclass(element._passed_type):
         xsd_element.type = get_xsd_type(element._type)
+    elif isinstance(element._type, xsd.ComplexType):
+        xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
+    else:
+        # SimpleType defined in place.
+        xsd_element.simpleType = xsdspec.SimpleType()
+        xsd_element.simpleType.restriction = create_restriction(element._type, get_xsd_type(element._type))
     return xsd_element
 
 
@@ -127,16 +129,7 @@ def xsd_complexType(complexType, named=True):
 def xsd_simpleType(st):
     xsd_simpleType = xsdspec.SimpleType()
     xsd_simpleType.name = uncapitalize(st.__name__)
-    xsd_restriction = xsdspec.Restriction()
-    xsd_restriction.base = get_xsd_type(st.__bases__[0]())
-    if hasattr(st, 'enumeration') and st.enumeration:
-        for enum in st.enumeration:
-            xsd_restriction.enumerations.append(xsdspec.Enumeration.create(enum))
-    if hasattr(st, 'fractionDigits') and st.fractionDigits:
-        xsd_restriction.fractionDigits = xsdspec.RestrictionValue(value=st.fractionDigits)
-    elif hasattr(st, 'pattern') and st.pattern:
-        xsd_restriction.pattern = xsdspec.Pattern(value=st.pattern)
-    xsd_simpleType.restriction = xsd_restriction
+    xsd_simpleType.restriction = create_restriction(st(), get_xsd_type(st.__bases__[0]()))
     return xsd_simpleType
 
 
-- 
2.43.0


From 0b5a88b26b9bc8cdd421235c8a64d671e9747acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 31/89] fix: lists without limits are unbounded in generated
 schemas

---
 soapfish/py2xsd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index f512f01..7ecc4c1 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -80,8 +80,10 @@ def create_xsd_element(element):
     xsd_element.name = element.tagname if element.tagname else element._name
     xsd_element.nillable = element.nillable
     xsd_element.minOccurs = element._minOccurs
-    if hasattr(element, '_maxOccurs'):
-        xsd_element.maxOccurs = element._maxOccurs
+    if isinstance(element, xsd.ListElement):
+        # Lists are not limited by default, unlike elements in a schema.
+        xsd_element.minOccurs = element._minOccurs or 0
+        xsd_element.maxOccurs = element._maxOccurs if element._maxOccurs is not None else xsd.UNBOUNDED
 
     if inspect.isclass(element._passed_type):
         xsd_element.type = get_xsd_type(element._type)
-- 
2.43.0


From a1f147d0e531c951ceef48b3a7be93748def6b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 32/89] fix: schemas can be generated for elements of
 restricted simple types and nillable elements

---
 soapfish/py2xsd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 7ecc4c1..92fefbd 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -185,8 +185,13 @@ def generate_elements(xsd_schema, schema):
 
         if isinstance(element._passed_type, str) or inspect.isclass(element._passed_type):
             xsd_element.type = get_xsd_type(element._type)
-        else:
+        elif isinstance(element._type, xsd.ComplexType):
             xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
+        else:
+            xsd_element.simpleType = xsdspec.SimpleType()
+            xsd_element.simpleType.restriction = create_restriction(element._type, get_xsd_type(element._type))
+        if element.nillable:
+            xsd_element.nillable = True
 
         xsd_schema.elements.append(xsd_element)
 
-- 
2.43.0


From 753f9a01bd36fd6dd7502d1894928099d65af7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 33/89] fix: generated classes are defined after their bases

---
 soapfish/xsd2py.py | 60 ++++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 37 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index f8aee95..8c994c2 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import functools
 import itertools
 import logging
 import os
@@ -11,7 +10,7 @@ from urllib.parse import urljoin
 from lxml import etree
 
 from . import xsdspec
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
+from .utils import find_xsd_namespaces, get_rendering_environment, open_document, remove_namespace, resolve_location
 
 logger = logging.getLogger('soapfish')
 
@@ -77,44 +76,30 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
     return code.encode(encoding) if encoding else code
 
 
-def _reorder_complexTypes(schema):
-    """Reorder complexTypes to render base extension/restriction elements render before the children."""
-    weights = {}
-    for n, complex_type in enumerate(schema.complexTypes):
-        content = complex_type.complexContent
-        if content:
-            extension = content.extension
-            restriction = content.restriction
-            if extension:
-                base = extension.base
-            elif restriction:
-                base = restriction.base
-        else:
-            base = ''
+def _get_base(type_):
+    """Return the (qualified) name of the type a simple or complex type is derived from."""
+    content = getattr(type_, 'complexContent', None)
+    derivation = (content.extension or content.restriction) if content else getattr(type_, 'restriction', None)
+    return derivation.base if derivation else None
 
-        weights[complex_type.name] = (n, base)
 
-    def _cmp(a, b):
-        a = getattr(a, 'name', a)
-        b = getattr(b, 'name', b)
+def _reorder_types(types):
+    """Return types in a stable order where bases are in front of all types derived from them."""
+    by_name = {t.name: t for t in types}
+    ordered, seen = [], set()
 
-        w_a, base_a = weights[a]
-        w_b, base_b = weights[b]
-        # a and b are not extension/restriction
-        if not base_a and not base_b:
-            return w_a - w_b
-        is_extension = lambda obj, base: obj == base
-        has_namespace = lambda base: ':' in base
-        # a is a extension/restriction of b: a > b
-        if is_extension(b, base_a) or has_namespace(base_a):
-            return 1
-        # b is a extension/restriction of a: a < b
-        elif is_extension(a, base_b) or has_namespace(base_b):
-            return -1
-        # inconclusive, do the same test with their bases
-        return _cmp(base_a or a, base_b or b)
+    def visit(t):
+        if t.name in seen:
+            return
+        seen.add(t.name)
+        base = by_name.get(remove_namespace(_get_base(t)))
+        if base is not None:
+            visit(base)
+        ordered.append(t)
 
-    schema.complexTypes.sort(key=functools.cmp_to_key(_cmp))
+    for t in types:
+        visit(t)
+    return ordered
 
 
 def schema_to_py(schema, xsd_namespaces,
@@ -126,7 +111,8 @@ def schema_to_py(schema, xsd_namespaces,
     if base_path:
         rewrite_paths(schema, cwd, base_path)
 
-    _reorder_complexTypes(schema)
+    schema.simpleTypes = _reorder_types(schema.simpleTypes)
+    schema.complexTypes = _reorder_types(schema.complexTypes)
 
     if known_paths is None:
         known_paths = []
-- 
2.43.0


From 660acbf40b4cd77b69aa5e76e98e550d14c61602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:18 +0000
Subject: [PATCH 34/89] fix: order of WSDL schemas and base directory of WSDL
 imports

---
 soapfish/wsdl2py.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 1e3f323..163f7fe 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import collections
 import logging
 import os
 import sys
@@ -18,18 +17,22 @@ logger = logging.getLogger('soapfish')
 
 # --- Helpers -----------------------------------------------------------------
 def reorder_schemas(schemas):
-    schemas, targets, counter, x = [], set(), len(schemas), collections.deque(schemas)
-    while x and counter > 0:
-        counter -= 1
-        schema = x.popleft()
-        ns = {i.namespace for i in schema.imports}
-        if x and ns and ns - targets:
-            x.append(schema)
-        else:
-            schemas.append(schema)
-            targets.add(schema.targetNamespace)
-    schemas.extend(x)  # always add remaining unorderable schemas...
-    return schemas
+    """Return schemas in a stable order where imported schemas are in front of the ones which import them."""
+    ordered, seen = [], []
+
+    def visit(schema):
+        if any(schema is s for s in seen):
+            return
+        seen.append(schema)
+        for i in schema.imports:
+            for s in schemas:
+                if s.targetNamespace == i.namespace:
+                    visit(s)
+        ordered.append(schema)
+
+    for schema in schemas:
+        visit(schema)
+    return ordered
 
 
 def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
@@ -42,7 +45,7 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
         seen = set()
 
     for i in definitions.imports:
-        path, cwd, location = resolve_location(i.location, cwd)
+        path, import_cwd, location = resolve_location(i.location, cwd)
 
         if path in seen:
             continue
@@ -57,7 +60,7 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
         imported = wsdl.Definitions.parse_xmlelement(xml)
 
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=cwd, seen=seen)
+            merge_imports(wsdl, imported, xsd_namespaces, cwd=import_cwd, seen=seen)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
-- 
2.43.0


From 6c433575bcb18b2dfd2f22a6c6acff24762225da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 35/89] fix: relative locations in remote documents are
 resolved against these documents

---
 soapfish/utils.py  | 14 ++++++++++----
 soapfish/xsd2py.py |  7 ++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index fe387ce..78f52c1 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -5,7 +5,7 @@ import logging
 import os
 import re
 from datetime import datetime, timedelta, timezone
-from urllib.parse import urlparse, urlunparse
+from urllib.parse import urljoin, urlparse, urlunparse
 
 import requests
 from jinja2 import Environment, PackageLoader
@@ -16,11 +16,17 @@ logger = logging.getLogger('soapfish')
 
 
 # --- File Functions ----------------------------------------------------------
+def join_url(cwd, path):
+    # The directory is a base for URLs only with a slash at the end.
+    return urljoin(cwd if cwd.endswith('/') else cwd + '/', path)
+
+
 def resolve_location(path, cwd):
-    if '://' in path:
-        location = path
+    if '://' in path or '://' in cwd:
+        path = location = path if '://' in path else join_url(cwd, path)
+        cwd = urljoin(path, '.')
     else:
-        path = os.path.join(cwd, path)
+        path = os.path.normpath(os.path.join(cwd, path))
         location = os.path.relpath(path, cwd)
         cwd = os.path.dirname(path)
     return path, cwd, location
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 8c994c2..dc4acca 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -5,12 +5,13 @@ import itertools
 import logging
 import os
 import sys
-from urllib.parse import urljoin
 
 from lxml import etree
 
 from . import xsdspec
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, remove_namespace, resolve_location
+from .utils import (
+    find_xsd_namespaces, get_rendering_environment, join_url, open_document, remove_namespace, resolve_location,
+)
 
 logger = logging.getLogger('soapfish')
 
@@ -28,7 +29,7 @@ def rewrite_paths(schema, cwd, base_path):
             continue
         elif '://' in cwd:
             # remote files must handle paths as url.
-            i.schemaLocation = urljoin(cwd, i.schemaLocation)
+            i.schemaLocation = join_url(cwd, i.schemaLocation)
         else:
             # local files should handle relative paths.
             path = os.path.normpath(os.path.join(cwd, i.schemaLocation))
-- 
2.43.0


From 5735f1f9977133473b4078821955c5aabc4d72ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 36/89] fix: documents and types are known to all schemas code
 is generated for

---
 soapfish/wsdl2py.py | 2 +-
 soapfish/xsd2py.py  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 163f7fe..76c08d4 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -90,7 +90,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     definitions = wsdl.Definitions.parse_xmlelement(xml)
     merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
 
-    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace}
+    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_paths': [], 'known_types': []}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
 
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index dc4acca..54ed747 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -160,7 +160,9 @@ def main(argv=None):
     xml = stdin.read() if opt.xsd == '-' else open_document(opt.xsd)
     cwd = opt.xsd if '://' in opt.xsd else os.path.abspath(opt.xsd)
     cwd = os.path.dirname(cwd)
-    code = generate_code_from_xsd(xml, encoding='utf-8', cwd=cwd)
+    # The document itself may be imported by one of the documents it refers to.
+    known_paths = [opt.xsd if '://' in opt.xsd else os.path.basename(opt.xsd)]
+    code = generate_code_from_xsd(xml, known_paths=known_paths, encoding='utf-8', cwd=cwd)
 
     opt.output.write(code.strip())
 
-- 
2.43.0


From 1d55a032e078269b648e80bf7b63728ca94736ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 37/89] fix: elements with a tagname are not parsed from
 elements named like the field

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8d8bbc2..201e452 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1056,7 +1056,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if not isinstance(xmlelement.tag, str):  # comments, processing instructions and entities
             return False
         ns, tag = gettagns(xmlelement.tag)
-        return tag == field._name or tag == field.tagname
+        return tag == (field.tagname or field._name)
 
     @classmethod
     def _find_subelement(cls, field, xmlelement):
-- 
2.43.0


From ad49bcc4ffb548ceef5cc3aa3784eb02d86318e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 38/89] fix: generated code keeps facets, occurrence, embedded
 types and names

---
 soapfish/templates/lib.jinja2 | 88 ++++++++++++++++-------------------
 soapfish/utils.py             | 36 ++++++++++++--
 2 files changed, 70 insertions(+), 54 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 555aca6..f52bc37 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -23,7 +23,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup="{{ e.substitutionGroup }}"{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type or e.simpleType %}{{ type_expression(e, known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.nillable %}, nillable=True{% endif %}{% if e.substitutionGroup %}, substitutionGroup="{{ e.substitutionGroup }}"{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -45,7 +45,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ type_expression(attribute, known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -55,7 +55,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %})
+    {{ name|fix_keyword }} = xsd.Element({{ type_expression(element, known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -63,44 +63,34 @@ class {{ group.name|capitalize }}(xsd.Group):
 
 {% macro render_xsd_Restriction(name, restriction, known_types=None) -%}
 class {{ name|capitalize }}({{ restriction|type(known_types) }}):
-{%- if restriction.enumerations %}
-    enumeration = [{% for enum in restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}]
-{%- endif %}
-{%- if restriction.pattern %}
-    pattern = r'{{ restriction.pattern.value }}'
-{%- endif %}
-{%- if restriction.minInclusive %}
-    minInclusive = r'{{ restriction.minInclusive.value }}'
-{%- elif restriction.minExclusive %}
-    minExclusive = r'{{ restriction.minExclusive.value }}'
-{%- endif %}
-{%- if restriction.maxInclusive %}
-    maxInclusive = r'{{ restriction.maxInclusive.value }}'
-{%- elif restriction.maxExclusive %}
-    maxExclusive = r'{{ restriction.maxExclusive.value }}'
-{%- endif %}
-{%- if not restriction.enumerations and not restriction.pattern
-        and not restriction.minInclusive and not restriction.minExclusive
-        and not restriction.maxInclusive and not restriction.maxExclusive %}
+{%- for facet in facets(restriction) %}
+    {{ facet.0 }} = {{ facet.1 }}
+{%- else %}
     pass
-{%- endif %}
+{%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
 {%- endmacro %}
 
 {% macro render_complexType(class_name, content, known_types=None) -%}
 {%- set ct = content %}
+{%- set derivation = ct.complexContent.restriction or ct.complexContent.extension if ct.complexContent else ct %}
+{%- for container in (derivation.sequence, derivation.all, derivation.choice) if container %}
+{%- for element in container.elements if element.complexType %}
+{{ render_complexType(nested_name(class_name, element), element.complexType, known_types) }}
+{%- endfor %}
+{%- endfor %}
 {%- if not ct.sequence and not ct.complexContent %}
 class {{ class_name|capitalize }}(xsd.ComplexType):
     pass
 {%- endif %}
 {%- if ct.complexContent %}
     {%- if ct.complexContent.restriction %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.RESTRICTION
     {%- set content = ct.complexContent.restriction %}
     {%- else %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.EXTENSION
     {%- set content = ct.complexContent.extension %}
     {%- endif %}
@@ -121,13 +111,13 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ type_expression(attribute, known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
     {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
 {%- endfor %}
 {%- for element in elements -%}
-    {{ render_xsd_element(element, known_types) }}
+    {{ render_xsd_element(element, known_types, class_name) }}
 {%- endfor %}
 {%- if content.sequence %}
 {{ render_create_method(elements, known_types) }}
@@ -136,28 +126,28 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {# blank line #}
 {%- endmacro %}
 
-{% macro render_xsd_element(element, known_types=None) -%}
-    {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
-    {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
-    {%- endif %}
-    {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
-    {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
-    {%- endif %}
-    {%- if element.name in keywords %}tagname='{{ element.name }}',{% endif %}
-    {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.pattern %}pattern=r'{{ element.simpleType.restriction.pattern.value }}',{% endif %}
-    {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
-    {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value }},{% endif %}))
+{% macro nested_name(class_name, element) -%}
+{{ class_name|capitalize }}_{{ element.name|capitalize }}
+{%- endmacro %}
+
+{% macro type_expression(obj, known_types=None) -%}
+{%- if obj.simpleType and not obj.ref and not obj.type -%}
+{%- set restriction = obj.simpleType.restriction -%}
+{{ restriction|type(known_types) }}({% for facet in facets(restriction) %}{{ facet.0 }}={{ facet.1 }}{% if not loop.last %}, {% endif %}{% endfor %})
+{%- else -%}
+{{ obj|type(known_types) }}
+{%- endif -%}
+{%- endmacro %}
+
+{% macro render_xsd_element(element, known_types=None, class_name=None) -%}
+    {%- set is_list = element.maxOccurs and element.maxOccurs > 1 %}
+    {%- if element.type or element.simpleType or element.complexType %}
+    {{ element.name|fix_keyword }} = xsd.{{ 'ListElement' if is_list else 'Element' }}(
+    {%- if element.complexType %}{{ nested_name(class_name, element) }}(){% else %}{{ type_expression(element, known_types) }}{% endif %}
+    {%- if is_list or element.name|fix_keyword != element.name %}, tagname='{{ element.name }}'{% endif %}
+    {%- if element.minOccurs is not none %}, minOccurs={{ element.minOccurs }}{% elif is_list %}, minOccurs=1{% endif %}
+    {%- if is_list %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}
+    {%- if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 78f52c1..5665de5 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -89,7 +89,18 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     from . import soap, xsd, xsdspec, wsdl
 
     def capitalize(value):
-        return value[0].upper() + value[1:]
+        value = re.sub(r'\W', '_', value[0].upper() + value[1:])
+        return f'{value}_' if value in keywords else value
+
+    def field_name(value):
+        # The names of fields must not hide anything of the class they belong to.
+        name = re.sub(r'\W', '_', value)
+        if name in keywords or name in ('cls', 'create', 'instance') or hasattr(xsd.ComplexType, name):
+            name = f'_{name}'
+        return f'x{name}' if name.startswith('__') else name
+
+    def raw(value):
+        return repr(value) if re.search(r"['\n\r]|\\$", value) else f"r'{value}'"
 
     def use(value):
         from . import xsd
@@ -123,9 +134,6 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
                 qname = obj.ref
             elif obj.type:
                 qname = obj.type
-            elif obj.simpleType:
-                # FIXME: Determine how to handle embedded types...
-                raise NotImplementedError('Unable to handle embedded type.')
         elif isinstance(obj, (xsdspec.Extension, xsdspec.Restriction)):
             if obj.base:
                 qname = obj.base
@@ -148,6 +156,21 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         else:
             return f"__name__ + '.{name}'"
 
+    def facets(restriction):
+        """Return the names of the facets of a restriction and the Python code for their values."""
+        result = []
+        if restriction.enumerations:
+            result.append(('enumeration', repr([e.value for e in restriction.enumerations])))
+        if restriction.pattern:
+            result.append(('pattern', raw(restriction.pattern.value)))
+        for name in ('minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive', 'fractionDigits', 'totalDigits',
+                     'length', 'minLength', 'maxLength', 'whiteSpace'):
+            if getattr(restriction, name):
+                value = getattr(restriction, name).value
+                is_number = name.endswith(('Digits', 'ength'))
+                result.append((name, str(int(value)) if is_number else raw(value)))
+        return result
+
     keywords = set(keyword.kwlist)
 
     env = Environment(
@@ -156,9 +179,11 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     )
     env.filters.update(
         capitalize=capitalize,
-        fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
+        fix_keyword=lambda x: field_name(str(x)),
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
+        raw=raw,
         remove_namespace=remove_namespace,
+        repr=repr,
         type=get_type,
         url_component=url_component,
         url_regex=url_regex,
@@ -167,6 +192,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     )
     env.globals.update(
         SOAPTransport=soap.SOAP_HTTP_Transport,
+        facets=facets,
         keywords=keywords,
         get_by_name=wsdl.get_by_name,
         get_message_header=wsdl.get_message_header,
-- 
2.43.0


From dcd9448ad4d76118adc0007da0a4f8a2f4df7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 39/89] fix: generated schema has one limit per side when a
 facet narrows a built-in integer

---
 soapfish/py2xsd.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 92fefbd..3ffaa9a 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -1,8 +1,10 @@
 #!/usr/bin/env python
 
 import argparse
+import decimal
 import inspect
 import logging
+import operator
 import sys
 from importlib.machinery import SourceFileLoader
 
@@ -54,8 +56,15 @@ def create_restriction(_type, base):
     if getattr(_type, 'pattern', None):
         restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
 
-    for facet in FACETS:
-        value = getattr(_type, facet, None)
+    facets = {facet: getattr(_type, facet, None) for facet in FACETS}
+    # A restriction may have only one lower and one upper limit: the other one is redundant.
+    for limit, tighter in (('min', operator.ge), ('max', operator.le)):
+        inclusive, exclusive = facets[f'{limit}Inclusive'], facets[f'{limit}Exclusive']
+        if inclusive is not None and exclusive is not None:
+            exclusive_only = tighter(decimal.Decimal(str(exclusive)), decimal.Decimal(str(inclusive)))
+            facets[f'{limit}Inclusive' if exclusive_only else f'{limit}Exclusive'] = None
+
+    for facet, value in facets.items():
         if value is not None:
             if facet.endswith('clusive') and not isinstance(value, str):
                 value = _type.xmlvalue(value)
-- 
2.43.0


From 9965d7000d9b079bff13015ee0374c8c30f74d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:00 +0000
Subject: [PATCH 40/89] fix: an empty string element is an empty string when
 parsed

---
 soapfish/soap11.py | 2 +-
 soapfish/xsd.py    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index dde9fad..c14f48f 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -26,7 +26,7 @@ def get_error_response(code, message, actor=None, header=None):
 
 
 def parse_fault_message(fault):
-    return fault.faultcode, fault.faultstring, fault.faultactor
+    return fault.faultcode, fault.faultstring or None, fault.faultactor or None
 
 
 class Code(str, enum.Enum):
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 201e452..1c9b40e 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -180,6 +180,10 @@ class String(SimpleType):
     def pythonvalue(self, xmlvalue):
         return xmlvalue
 
+    def parse_xmlelement(self, xmlelement):
+        # An empty element is an empty string, a missing element is no value.
+        return super().parse_xmlelement(xmlelement) or self.pythonvalue('')
+
     def _clean_whitespace(self, value):
         if self.whiteSpace == 'preserve':
             # do nothing, just preserve the value
-- 
2.43.0


From 5506951c6a3590bbec13d1ef5b11b48589eb3aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 41/89] fix: a SOAP error with any kind of message is answered
 with a fault

---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index a759ba8..6ed8dae 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -204,7 +204,8 @@ class SOAPDispatcher:
         if isinstance(response.soap_body, SOAPError):
             error = response.soap_body
             # Characters which are not allowed in XML can not be part of the fault.
-            message = re.sub('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '\ufffd', error.message)
+            message = error.message if error.message is None else str(error.message)
+            message = message and re.sub('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '\ufffd', message)
             response.http_content = SOAP.get_error_response(error.code, message, header=response.soap_header)
             response.http_status_code = 500
         else:
-- 
2.43.0


From 58d6bd343305d72992570029e237f445e89e4a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 42/89] fix: the client stub reads response headers declared by
 the service

---
 soapfish/soap.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index e8ca771..cd1d156 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -5,7 +5,7 @@ import string
 
 import requests
 
-from . import core, namespaces as ns, soap11, soap12, wsa
+from . import core, namespaces as ns, soap11, soap12, wsa, xsd
 from .utils import uncapitalize
 
 SOAP_HTTP_Transport = ns.wsdl_soap_http
@@ -104,8 +104,10 @@ class Stub:
         soap = self.service.version
         envelope = soap.Envelope.parsexml(content)
 
-        if envelope.Header and method and method.output_header:
-            response_header = envelope.Header.parse_as(method.output_header)
+        # As for requests the header of the operation takes precedence over the one of the service.
+        output_header = method and (method.output_header or self.service.output_header)
+        if envelope.Header not in (None, xsd.NIL) and output_header:
+            response_header = envelope.Header.parse_as(output_header)
         else:
             response_header = None
 
-- 
2.43.0


From 5b1fe84ef584996287906f95bfa800d5e1490c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 43/89] fix: facets of decimal numbers are about the text they
 are read from

---
 soapfish/xsd.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 1c9b40e..cca548d 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -384,14 +384,13 @@ class Decimal(SimpleType):
         if totalDigits is not None:
             self.totalDigits = totalDigits
 
-    def _check_restrictions(self, value):
+    def _check_restrictions(self, value, strvalue):
         # The facets are about the number as it is written, so do not compare binary floating point numbers.
         exact = self._exact(value)
 
         if self.enumeration is not None and exact not in [self._exact(v) for v in self.enumeration]:
             raise ValueError(f'{value} not in enumeration {self.enumeration}')
 
-        strvalue = self.xmlvalue(value)
         fraction = strvalue.partition('.')[2]
 
         if self.fractionDigits is not None and len(fraction) != int(self.fractionDigits):
@@ -414,7 +413,7 @@ class Decimal(SimpleType):
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-            integral = strvalue.partition('.')[0].lstrip('-').lstrip('0')
+            integral = strvalue.partition('.')[0].lstrip('+-').lstrip('0')
             if len(integral + fraction.rstrip('0')) > int(self.totalDigits):
                 raise ValueError(f'Number of total digits of {strvalue} is bigger than {self.totalDigits}.')
 
@@ -436,21 +435,30 @@ class Decimal(SimpleType):
         elif isinstance(value, bool):
             raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
         elif isinstance(value, (decimal.Decimal, float, int)):
-            pass  # value is just value
+            strvalue = self._literal(value)
         elif isinstance(value, str):
+            strvalue = value.strip(' \t\r\n')
             value = self._parse(value)
         else:
             raise ValueError(f"Incorrect value '{value}' for Decimal field.")
 
-        if self.LEXICAL_REGEX.fullmatch(self.xmlvalue(value)) is None:
+        if self.LEXICAL_REGEX.fullmatch(strvalue) is None:
             raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
-        self._check_restrictions(value)
+        self._check_restrictions(value, strvalue)
         return value
 
-    def xmlvalue(self, value):
+    def _literal(self, value):
         # There is no exponent in the XML representation of a decimal number.
         return format(self._exact(value), 'f')
 
+    def xmlvalue(self, value):
+        literal = self._literal(value)
+        if self.fractionDigits:
+            # A number which has been parsed does not have its trailing zeros anymore.
+            integral, _, fraction = literal.partition('.')
+            literal = integral + '.' + fraction.ljust(int(self.fractionDigits), '0')
+        return literal
+
     def pythonvalue(self, xmlvalue):
         if xmlvalue == 'nil':
             return None
@@ -468,7 +476,7 @@ class Double(Decimal):
             minInclusive=minInclusive, pattern=pattern,
         )
 
-    def xmlvalue(self, value):
+    def _literal(self, value):
         return {'inf': 'INF', '-inf': '-INF', 'nan': 'NaN'}.get(str(value), str(value))
 
 
-- 
2.43.0


From 0ccffb836dbabad061ea6feec3d906da18a89a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 44/89] fix: decimal numbers keep all their digits when parsed

---
 soapfish/xsd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index cca548d..477fc5c 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -427,7 +427,9 @@ class Decimal(SimpleType):
         value = value.strip(' \t\r\n')
         if self.LEXICAL_REGEX.fullmatch(value) is None:
             raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
-        return float(value)
+        # Not every decimal number can be represented by a float without loss.
+        number, exact = float(value), decimal.Decimal(value)
+        return number if self._exact(number) == exact else exact
 
     def accept(self, value):
         if value is None:
@@ -476,6 +478,9 @@ class Double(Decimal):
             minInclusive=minInclusive, pattern=pattern,
         )
 
+    def _parse(self, value):
+        return float(super()._parse(value))
+
     def _literal(self, value):
         return {'inf': 'INF', '-inf': '-INF', 'nan': 'NaN'}.get(str(value), str(value))
 
-- 
2.43.0


From 6005fa29661a054d992e1cce156732a4079f9087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 45/89] fix: decimal numbers with a fixed number of digits can
 be parsed

---
 soapfish/xsd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 477fc5c..d857d91 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -427,9 +427,10 @@ class Decimal(SimpleType):
         value = value.strip(' \t\r\n')
         if self.LEXICAL_REGEX.fullmatch(value) is None:
             raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
-        # Not every decimal number can be represented by a float without loss.
+        # Not every decimal number can be represented by a float without loss, the number of its digits never.
         number, exact = float(value), decimal.Decimal(value)
-        return number if self._exact(number) == exact else exact
+        is_lossless = self._exact(number) == exact and self.fractionDigits is None and self.pattern is None
+        return number if is_lossless else exact
 
     def accept(self, value):
         if value is None:
-- 
2.43.0


From d080da16aa83fbe614c66f642af0bc09f7e576db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 46/89] fix: dates with additional leading zeros are no dates

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index d857d91..253788c 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -236,7 +236,7 @@ class Date(SimpleType):
     #   3.2.9.2 Constraining facets
 
     YEAR_MONTH_DAY_REGEX = re.compile(r'''
-        (?P<year>[0-9]{4,})\-(?P<month>[0-9]{2})\-(?P<day>[0-9]{2})
+        (?P<year>0[0-9]{3}|[1-9][0-9]{3,})\-(?P<month>[0-9]{2})\-(?P<day>[0-9]{2})
         (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-9]{2})))?''', re.VERBOSE)
 
     def accept(self, value):
-- 
2.43.0


From 47b96a421aaa6ade9f88133ec9712189994431f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 47/89] fix: objects of classes which refer to themselves can
 be constructed

---
 soapfish/xsd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 253788c..50d3b04 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -662,6 +662,9 @@ class Element:
 
     def accept(self, value):
         """Check if the value correct from type defined in constructions."""
+        if value is None:
+            # Do not evaluate the type, it may be the one whose instance is being constructed.
+            return None
         self._evaluate_type()
         if value is NIL:
             if self.nillable:
-- 
2.43.0


From 90fd6050c7da69294bb2415e05c41f23bb12c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 48/89] fix: an empty choice is not mistaken for one of its
 elements

---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 50d3b04..4d963e4 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1090,9 +1090,11 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         for attribute in instance._meta.attributes:
             attribute.parse(instance, attribute._name, xmlelement)
 
-        # The element of a choice may be passed without the element around it.
+        # The element of a choice may be passed without the element around it (as a document of its own: the element
+        # around an empty choice may have any name).
         is_choice = (
             instance._meta.cls.INDICATOR == Choice
+            and xmlelement.getparent() is None
             and not any(cls._find_subelement(field, xmlelement) for field in instance._meta.fields)
         )
         for field in instance._meta.fields:
-- 
2.43.0


From 5dbe09fcefd926a09303603f7318cf1fc0bd5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 49/89] fix: names which are not ASCII can be written

---
 soapfish/py2wsdl.py       | 2 +-
 soapfish/py2xsd.py        | 6 +++---
 soapfish/soap_dispatch.py | 4 ++--
 soapfish/xsd.py           | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 1fafa64..eff139b 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -140,7 +140,7 @@ def main(argv=None):
     module = SourceFileLoader('', opt.module).load_module()
     tree = generate_wsdl(module.SERVICE)
 
-    opt.output.write(etree.tostring(tree, pretty_print=True))
+    opt.output.write(etree.tostring(tree, encoding='UTF-8', pretty_print=True))
 
     return 0
 
diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 3ffaa9a..f53c98d 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -237,7 +237,7 @@ def schema_validator(schemas):
 
         def resolve(self, url, id_, context):
             if url in self.lookup:
-                schema_string = etree.tostring(generate_xsd(self.lookup[url]))
+                schema_string = etree.tostring(generate_xsd(self.lookup[url]), encoding='UTF-8')
                 return self.resolve_string(schema_string, context)
             # prevent unwanted network access
             raise ValueError(f'Cannot resolve {url!r} - not a known soapfish schema')
@@ -259,7 +259,7 @@ def schema_validator(schemas):
     # Also having shared resolvers is not a good idea because a user might want
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
-    schema_xml = b''.join(etree.tostring(generate_xsd(s)) for s in schemas)
+    schema_xml = b''.join(etree.tostring(generate_xsd(s), encoding='UTF-8') for s in schemas)
     schema_element = etree.fromstring(schema_xml, parser)
     xml_schema = etree.XMLSchema(schema_element)
     return xml_schema.assertValid
@@ -284,7 +284,7 @@ def main(argv=None):
     module = SourceFileLoader('', opt.module).load_module()
     tree = generate_xsd(module.Schema)
 
-    opt.output.write(etree.tostring(tree, pretty_print=True))
+    opt.output.write(etree.tostring(tree, encoding='UTF-8', pretty_print=True))
 
     return 0
 
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 6ed8dae..69df4cd 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -40,14 +40,14 @@ class SOAPDispatcher:
         if wsdl is None:
             wsdlelement = py2wsdl.generate_wsdl(self.service)
             self._rewrite_locations(wsdlelement)
-            wsdl = etree.tostring(wsdlelement, pretty_print=True)
+            wsdl = etree.tostring(wsdlelement, encoding='UTF-8', pretty_print=True)
         self.wsdl = wsdl
 
         if xsds is None:
             def callback(item):
                 xsdelement = py2xsd.generate_xsd(item)
                 self._rewrite_locations(xsdelement)
-                return etree.tostring(xsdelement, pretty_print=True)
+                return etree.tostring(xsdelement, encoding='UTF-8', pretty_print=True)
             xsds = walk_schema_tree(self.service.schemas, callback)
         self.xsds = xsds
 
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 4d963e4..44a84b5 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1147,7 +1147,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         self.render(xmlelement, self, namespace, elementFormDefault)
         if schema is not None:
             schema.assertValid(xmlelement)
-        return etree.tostring(xmlelement, pretty_print=pretty_print)
+        return etree.tostring(xmlelement, encoding='UTF-8', pretty_print=pretty_print)
 
     @classmethod
     def _force_elements_type_evalution(cls):
@@ -1181,7 +1181,7 @@ class Document(ComplexType):
         mockelement = Document.MockElement()
         instance = getattr(self, field._name)
         field.render(mockelement, field.tagname or field._name, instance, self.NAMESPACE)
-        return etree.tostring(mockelement.element, pretty_print=True)
+        return etree.tostring(mockelement.element, encoding='UTF-8', pretty_print=True)
 
     # TODO: Add schema support.
     @classmethod
-- 
2.43.0


From ce02c571d0c5a680465c981807e129a5200c4225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 50/89] fix: absent attributes get their default whatever its
 type

---
 soapfish/xsd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 44a84b5..6eec358 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -759,9 +759,8 @@ class Attribute(Element):
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
         xmlvalue = xmlelement.get(self.tagname or field_name)
-        if xmlvalue is None:
-            xmlvalue = self.default
-        value = self._type.pythonvalue(xmlvalue)
+        # The default is a Python value, not text.
+        value = self._type.pythonvalue(xmlvalue) if xmlvalue is not None else self.default
         setattr(instance, field_name, value)
 
 
-- 
2.43.0


From 3df97d071966bee54af664c84fe138c52df19ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 51/89] fix: generated schemas do not repeat the facets a
 derived type inherits

---
 soapfish/py2xsd.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index f53c98d..1b812bd 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -44,19 +44,23 @@ def get_xsd_type(_type):
         return 'sns:' + uncapitalize(_type.__class__.__name__)
 
 
-def create_restriction(_type, base):
-    """Create a restriction with all facets of the (simple) type."""
+def create_restriction(_type, base, inherited=None):
+    """Create a restriction with all facets of the (simple) type, except those of the type it is derived from."""
     restriction = xsdspec.Restriction()
     restriction.base = base
 
-    for value in getattr(_type, 'enumeration', None) or ():
+    def own(facet):
+        value = getattr(_type, facet, None)
+        return None if inherited is not None and value == getattr(inherited, facet, None) else value
+
+    for value in own('enumeration') or ():
         value = value if isinstance(value, str) else _type.xmlvalue(value)
         restriction.enumerations.append(xsdspec.Enumeration.create(value))
 
-    if getattr(_type, 'pattern', None):
+    if own('pattern'):
         restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
 
-    facets = {facet: getattr(_type, facet, None) for facet in FACETS}
+    facets = {facet: own(facet) for facet in FACETS}
     # A restriction may have only one lower and one upper limit: the other one is redundant.
     for limit, tighter in (('min', operator.ge), ('max', operator.le)):
         inclusive, exclusive = facets[f'{limit}Inclusive'], facets[f'{limit}Exclusive']
@@ -140,7 +144,8 @@ def xsd_complexType(complexType, named=True):
 def xsd_simpleType(st):
     xsd_simpleType = xsdspec.SimpleType()
     xsd_simpleType.name = uncapitalize(st.__name__)
-    xsd_simpleType.restriction = create_restriction(st(), get_xsd_type(st.__bases__[0]()))
+    base = st.__bases__[0]()
+    xsd_simpleType.restriction = create_restriction(st(), get_xsd_type(base), inherited=base)
     return xsd_simpleType
 
 
-- 
2.43.0


From 0a5fe91c0c42b83ab478258635789a7308805c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 52/89] fix: elements of the application named message or Fault
 are not read as those of the envelope

---
 soapfish/soap11.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index c14f48f..63aab8d 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -55,6 +55,11 @@ class Body(xsd.ComplexType):
     message = xsd.ClassNamedElement(xsd.NamedType, minOccurs=0)
     Fault = xsd.Element(Fault, minOccurs=0)
 
+    @classmethod
+    def _is_matching_element(cls, field, xmlelement):
+        # Anything but a fault is left to content(), elements of the application may have the names of the fields.
+        return field._name == 'Fault' and xmlelement.tag == f'{{{cls.SCHEMA.targetNamespace}}}Fault'
+
     def parse_as(self, ContentType):
         return ContentType.parse_xmlelement(self.content())
 
-- 
2.43.0


From 635a09f73d6af8e2750bc02a6ef6bc308aa04475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 53/89] fix: schemas may be included by the schemas they
 include

---
 soapfish/py2xsd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 1b812bd..4abe16d 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -242,7 +242,10 @@ def schema_validator(schemas):
 
         def resolve(self, url, id_, context):
             if url in self.lookup:
-                schema_string = etree.tostring(generate_xsd(self.lookup[url]), encoding='UTF-8')
+                schema = self.lookup[url]
+                if schema in schemas:  # The definitions are there already, they must not be repeated.
+                    schema = xsd.Schema(schema.targetNamespace)
+                schema_string = etree.tostring(generate_xsd(schema), encoding='UTF-8')
                 return self.resolve_string(schema_string, context)
             # prevent unwanted network access
             raise ValueError(f'Cannot resolve {url!r} - not a known soapfish schema')
-- 
2.43.0


From 47cf776e1852f1bf006cee18ca55bf268c7ed841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 54/89] fix: only addresses of the WSDL are filled in, not
 other attributes

---
 soapfish/soap_dispatch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 69df4cd..9b265fa 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -229,10 +229,10 @@ class SOAPDispatcher:
         if scheme and host:
             quotes = {'"': '&quot;', "'": '&apos;'}
             context = {'scheme': escape(scheme, quotes), 'host': escape(host, quotes)}
-            # Only the addresses are templates, anything else has to be served as is.
+            # Only the addresses are templates, anything else (the other attributes, too) has to be served as is.
             wsdl = re.sub(
-                r'''\slocation\s*=\s*("[^"]*"|'[^']*')''',
-                lambda m: string.Template(m.group()).safe_substitute(context),
+                r'''\s([^\s=<>"']+)\s*=\s*("[^"]*"|'[^']*')''',
+                lambda m: string.Template(m[0]).safe_substitute(context) if m[1] == 'location' else m[0],
                 wsdl.decode(),
             ).encode()
         response = SOAPResponse('wsdl', http_content=wsdl, http_headers={'Content-Type': 'text/xml'})
-- 
2.43.0


From 62ece1ecce87c4c0402bfd98c49732ed881c713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 55/89] fix: client stubs can call operations without output

---
 soapfish/soap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index cd1d156..875a78a 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -121,7 +121,8 @@ class Stub:
         else:
             _type = method.output
 
-        body = envelope.Body.parse_as(_type)
+        # The body of a response is empty if the operation has no output or its handler returned nothing.
+        body = envelope.Body.parse_as(_type) if _type and envelope.Body.content() is not None else None
         return core.SOAPResponse(body, soap_header=response_header)
 
     def call(self, operationName, parameter, header=None):
-- 
2.43.0


From b8d0d280d99b657e994a47c5da8c0de7b8a5547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 56/89] fix: namespaces and locations with quotes do not break
 generated code

---
 soapfish/templates/lib.jinja2 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index f52bc37..006dc90 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -15,9 +15,9 @@
 Schema_{{ schema_name(schema) }} = xsd.Schema(
     imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    targetNamespace='{{ schema.targetNamespace }}',
+    targetNamespace={{ schema.targetNamespace|repr }},
     {%- if location %}
-    location='{{ location|url_template }}',{% endif %}
+    location={{ location|url_template|repr }},{% endif %}
     elementFormDefault='{{ schema.elementFormDefault }}',
     simpleTypes=[{% for st in schema.simpleTypes %}{{ st.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-- 
2.43.0


From 3a78629dca12d4c4e021c5cfc9999de26e1854d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 57/89] fix: attributes whose types are given by name can be
 written into a schema

---
 soapfish/py2xsd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 4abe16d..ea08576 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -77,6 +77,7 @@ def create_restriction(_type, base, inherited=None):
 
 
 def xsd_attribute(attribute):
+    attribute._evaluate_type()
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname if attribute.tagname else attribute._name
     xsdattr.use = attribute.use
-- 
2.43.0


From c8015a1616b9372803e3b7f33204d2ca8107b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 58/89] fix: fields of generated classes do not hide the xsd
 module

---
 soapfish/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 5665de5..7dbb179 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -95,7 +95,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def field_name(value):
         # The names of fields must not hide anything of the class they belong to.
         name = re.sub(r'\W', '_', value)
-        if name in keywords or name in ('cls', 'create', 'instance') or hasattr(xsd.ComplexType, name):
+        if name in keywords or name in ('cls', 'create', 'globals', 'instance', 'xsd') or hasattr(xsd.ComplexType, name):
             name = f'_{name}'
         return f'x{name}' if name.startswith('__') else name
 
-- 
2.43.0


From 47c54e4867804d935ead9c1289c6035e55ac78b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 59/89] fix: references to attribute groups may have names
 which are no Python names

---
 soapfish/templates/lib.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 006dc90..3f11d4a 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -114,7 +114,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {{ name|fix_keyword }} = xsd.Attribute({{ type_expression(attribute, known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
-    {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
+    {{ attrGroupRef.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
 {%- endfor %}
 {%- for element in elements -%}
     {{ render_xsd_element(element, known_types, class_name) }}
-- 
2.43.0


From b7b6207e83b1ed80abba90b27bdc8842c8b905a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 60/89] fix: a field of a generated class does not replace the
 parsed XML element

---
 soapfish/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 7dbb179..e2bc946 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -95,7 +95,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def field_name(value):
         # The names of fields must not hide anything of the class they belong to.
         name = re.sub(r'\W', '_', value)
-        if name in keywords or name in ('cls', 'create', 'globals', 'instance', 'xsd') or hasattr(xsd.ComplexType, name):
+        if name in keywords or name in ('_xmlelement', 'cls', 'create', 'globals', 'instance', 'xsd') or hasattr(xsd.ComplexType, name):
             name = f'_{name}'
         return f'x{name}' if name.startswith('__') else name
 
-- 
2.43.0


From 5137a09767004397215df7edb3f31fec7cf79327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 61/89] fix: restrictions of named simple types in place do not
 repeat the facets of the type

---
 soapfish/py2xsd.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index ea08576..2299b52 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -76,6 +76,10 @@ def create_restriction(_type, base, inherited=None):
     return restriction
 
 
+def create_restriction_in_place(_type):
+    return create_restriction(_type, get_xsd_type(_type), inherited=type(_type)())
+
+
 def xsd_attribute(attribute):
     attribute._evaluate_type()
     xsdattr = xsdspec.Attribute()
@@ -85,7 +89,7 @@ def xsd_attribute(attribute):
         xsdattr.type = get_xsd_type(attribute._type)
     else:
         xsdattr.simpleType = xsdspec.SimpleType()
-        xsdattr.simpleType.restriction = create_restriction(attribute._type, get_xsd_type(attribute._type))
+        xsdattr.simpleType.restriction = create_restriction_in_place(attribute._type)
     return xsdattr
 
 
@@ -106,7 +110,7 @@ def create_xsd_element(element):
     else:
         # SimpleType defined in place.
         xsd_element.simpleType = xsdspec.SimpleType()
-        xsd_element.simpleType.restriction = create_restriction(element._type, get_xsd_type(element._type))
+        xsd_element.simpleType.restriction = create_restriction_in_place(element._type)
     return xsd_element
 
 
@@ -204,7 +208,7 @@ def generate_elements(xsd_schema, schema):
             xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
         else:
             xsd_element.simpleType = xsdspec.SimpleType()
-            xsd_element.simpleType.restriction = create_restriction(element._type, get_xsd_type(element._type))
+            xsd_element.simpleType.restriction = create_restriction_in_place(element._type)
         if element.nillable:
             xsd_element.nillable = True
 
-- 
2.43.0


From 324b186fa39d04a5cfc580128af3ca124a9a2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 62/89] fix: types named like a built-in type are generated
 after their bases

---
 soapfish/xsd2py.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 54ed747..64e2694 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -84,7 +84,7 @@ def _get_base(type_):
     return derivation.base if derivation else None
 
 
-def _reorder_types(types):
+def _reorder_types(types, xsd_namespaces=()):
     """Return types in a stable order where bases are in front of all types derived from them."""
     by_name = {t.name: t for t in types}
     ordered, seen = [], set()
@@ -93,8 +93,10 @@ def _reorder_types(types):
         if t.name in seen:
             return
         seen.add(t.name)
-        base = by_name.get(remove_namespace(_get_base(t)))
-        if base is not None:
+        qname = _get_base(t)
+        prefix = qname.split(':')[0] if qname and ':' in qname else None
+        base = by_name.get(remove_namespace(qname))
+        if base is not None and prefix not in xsd_namespaces:
             visit(base)
         ordered.append(t)
 
@@ -112,8 +114,8 @@ def schema_to_py(schema, xsd_namespaces,
     if base_path:
         rewrite_paths(schema, cwd, base_path)
 
-    schema.simpleTypes = _reorder_types(schema.simpleTypes)
-    schema.complexTypes = _reorder_types(schema.complexTypes)
+    schema.simpleTypes = _reorder_types(schema.simpleTypes, xsd_namespaces)
+    schema.complexTypes = _reorder_types(schema.complexTypes, xsd_namespaces)
 
     if known_paths is None:
         known_paths = []
-- 
2.43.0


From b17e115ff48f568d03e22b8315e709ca55c78e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 63/89] fix: fields of generated classes may be named like the
 type of another field

---
 soapfish/templates/lib.jinja2 | 3 +++
 soapfish/utils.py             | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 3f11d4a..9cf17fe 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -42,6 +42,7 @@ class {{ name|capitalize }}(xsd.List):
 {%- endmacro %}
 
 {% macro render_xsd_AttributeGroup(attrGroup, known_types=None) -%}
+{%- set known_types = class_scope(known_types, attrGroup.attributes) %}
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
@@ -52,6 +53,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 {%- endmacro %}
 
 {% macro render_xsd_Group(group, known_types=None) -%}
+{%- set known_types = class_scope(known_types, group.sequence.elements) %}
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
@@ -109,6 +111,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     INDICATOR = xsd.Choice
     {%- set elements = content.choice.elements %}
 {%- endif %}
+{%- set known_types = class_scope(known_types, content.attributes, content.attributeGroups, elements) %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
     {{ name|fix_keyword }} = xsd.Attribute({{ type_expression(attribute, known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
diff --git a/soapfish/utils.py b/soapfish/utils.py
index e2bc946..3aa410b 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -151,11 +151,18 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
 
         if ns in xsd_namespaces:
             return f'xsd.{name}'
+        elif isinstance(known_types, dict) and name in known_types:
+            return known_types[name]
         elif known_types is not None and name in known_types:
             return str(name)
         else:
             return f"__name__ + '.{name}'"
 
+    def class_scope(known_types, *fields):
+        """Return the code for the known types in the body of a class: its fields may hide types of the same name."""
+        hidden = {field_name(remove_namespace(f.ref) or f.name) for f in itertools.chain(*(x or () for x in fields))}
+        return {name: f"globals()['{name}']" if name in hidden else name for name in known_types or ()}
+
     def facets(restriction):
         """Return the names of the facets of a restriction and the Python code for their values."""
         result = []
@@ -192,6 +199,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     )
     env.globals.update(
         SOAPTransport=soap.SOAP_HTTP_Transport,
+        class_scope=class_scope,
         facets=facets,
         keywords=keywords,
         get_by_name=wsdl.get_by_name,
-- 
2.43.0


From 9766c7bd56084577c35d669f85f5f5874fbaafe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 64/89] fix: fields of generated classes do not hide the
 decorator of create()

---
 soapfish/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 3aa410b..aabef66 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -95,7 +95,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def field_name(value):
         # The names of fields must not hide anything of the class they belong to.
         name = re.sub(r'\W', '_', value)
-        if name in keywords or name in ('_xmlelement', 'cls', 'create', 'globals', 'instance', 'xsd') or hasattr(xsd.ComplexType, name):
+        if name in keywords or name in ('_xmlelement', 'classmethod', 'cls', 'create', 'globals', 'instance', 'xsd') or hasattr(xsd.ComplexType, name):
             name = f'_{name}'
         return f'x{name}' if name.startswith('__') else name
 
-- 
2.43.0


From 4567f8ae4a808fa2325f40019a4522663e1235a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 65/89] fix: validators accept schemas whose locations are
 templates, as generated code has them

---
 soapfish/py2xsd.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 2299b52..ab3da7d 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -239,19 +239,29 @@ def schema_validator(schemas):
 
     The method takes care of resolving imported (soapfish) schemas but prevents any unwanted network access.
     """
+    lookup = walk_schema_tree(schemas, lambda x: x)
+    # Locations may be anything, e.g. templates: use names for the documents which are valid as URIs.
+    names = {location: f'schema{n}.xsd' for n, location in enumerate(lookup) if location}
+
+    def serialize(schema):
+        xml = generate_xsd(schema)
+        for reference in xml.iterchildren('{%s}import' % ns.xsd, '{%s}include' % ns.xsd):
+            if reference.get('schemaLocation') in names:
+                reference.set('schemaLocation', names[reference.get('schemaLocation')])
+        return etree.tostring(xml, encoding='UTF-8')
+
     class SchemaResolver(etree.Resolver):
 
         def __init__(self, schemas, *args, **kwargs):
             super().__init__(*args, **kwargs)
-            self.lookup = walk_schema_tree(schemas, lambda x: x)
+            self.lookup = {names[location]: schema for location, schema in lookup.items() if location}
 
         def resolve(self, url, id_, context):
             if url in self.lookup:
                 schema = self.lookup[url]
                 if schema in schemas:  # The definitions are there already, they must not be repeated.
                     schema = xsd.Schema(schema.targetNamespace)
-                schema_string = etree.tostring(generate_xsd(schema), encoding='UTF-8')
-                return self.resolve_string(schema_string, context)
+                return self.resolve_string(serialize(schema), context)
             # prevent unwanted network access
             raise ValueError(f'Cannot resolve {url!r} - not a known soapfish schema')
 
@@ -272,7 +282,7 @@ def schema_validator(schemas):
     # Also having shared resolvers is not a good idea because a user might want
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
-    schema_xml = b''.join(etree.tostring(generate_xsd(s), encoding='UTF-8') for s in schemas)
+    schema_xml = b''.join(serialize(s) for s in schemas)
     schema_element = etree.fromstring(schema_xml, parser)
     xml_schema = etree.XMLSchema(schema_element)
     return xml_schema.assertValid
-- 
2.43.0


From 0b5baee6b2c13fde3fc6d642912a451a190b9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 66/89] fix: code generated for an address which is a template,
 or has a quote or dollar sign in it, uses that address

---
 soapfish/templates/wsdl.jinja2 | 8 +++++---
 soapfish/utils.py              | 8 +++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 5476ef5..3d7bab8 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -109,7 +109,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {{ port.name }}_SERVICE = soap.Service(
     name='{{ port.name }}',
     targetNamespace='{{ definitions.targetNamespace }}',
-    location='{{ port.address.location|url_template }}',
+    location={{ port.address.location|url_template|repr }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- if soap_version.NAME == 'soap11' %}
     version=soap.SOAPVersion.SOAP11,
@@ -140,8 +140,10 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 class {{ port.name }}ServiceStub(soap.Stub):
     SERVICE = {{ port.name }}_SERVICE
-    SCHEME = '{{ port.address.location|url_component('scheme') }}'
-    HOST = '{{ port.address.location|url_component('netloc') }}'
+    {%- if not port.address.location|is_url_template %}
+    SCHEME = {{ port.address.location|url_component('scheme')|repr }}
+    HOST = {{ port.address.location|url_component('netloc')|repr }}
+    {%- endif %}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
     def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
diff --git a/soapfish/utils.py b/soapfish/utils.py
index aabef66..1a4c230 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -122,8 +122,13 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         except AttributeError as e:
             raise ValueError(f'Unknown URL component: {item}') from e
 
+    def is_url_template(url):
+        return '${scheme}' in url or '${host}' in url
+
     def url_template(url):
-        o = list(urlparse(url))
+        if is_url_template(url):
+            return url
+        o = [x.replace('$', '$$') for x in urlparse(url)]
         o[0:2] = ['${scheme}', '${host}']
         return urlunparse(o)
 
@@ -192,6 +197,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         remove_namespace=remove_namespace,
         repr=repr,
         type=get_type,
+        is_url_template=is_url_template,
         url_component=url_component,
         url_regex=url_regex,
         url_template=url_template,
-- 
2.43.0


From 1075f8a05e18495b4490787f50a3f9e371abbca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 67/89] fix: WSDL can be generated for methods without output

---
 soapfish/py2wsdl.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index eff139b..8da2854 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -77,12 +77,13 @@ def build_messages(wsdl, definitions, service):
         definitions.messages.append(inputMessage)
 
         outputMessage = wsdl.Message(name=method.operationName + 'Output')
-        part = wsdl.Part(name='body')
-        if isinstance(method.output, str):
-            part.element = 'sns:' + method.output
-        else:
-            part.type = 'sns:' + uncapitalize(method.output.__name__)
-        outputMessage.parts = [part]
+        if method.output is not None:
+            part = wsdl.Part(name='body')
+            if isinstance(method.output, str):
+                part.element = 'sns:' + method.output
+            else:
+                part.type = 'sns:' + uncapitalize(method.output.__name__)
+            outputMessage.parts = [part]
         definitions.messages.append(outputMessage)
 
 
-- 
2.43.0


From ce01b8b00a70cf6ce559c03971aec53b80c447f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 68/89] fix: WSDL refers to elements and types in the namespace
 of the schema which declares them

---
 soapfish/py2wsdl.py | 40 ++++++++++++++++++++++++++++++----------
 soapfish/utils.py   | 12 ++++++++++++
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 8da2854..df811df 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -8,9 +8,9 @@ from importlib.machinery import SourceFileLoader
 from lxml import etree
 
 from . import namespaces as ns, xsd
-from .py2xsd import generate_xsdspec
+from .py2xsd import generate_xsd, generate_xsdspec
 from .soap import SOAP_HTTP_Transport
-from .utils import uncapitalize
+from .utils import uncapitalize, walk_schemas
 from .wsdl import get_wsdl_classes
 
 logger = logging.getLogger('soapfish')
@@ -65,14 +65,23 @@ def build_portTypes(wsdl, definitions, service):
     definitions.portTypes.append(portType)
 
 
-def build_messages(wsdl, definitions, service):
+def build_messages(wsdl, definitions, service, prefixes):
+
+    def element_name(name):
+        schema = next((s for s in walk_schemas(service.schemas) if name in s.elements), service.schemas[0])
+        return f'{prefixes.get(schema.targetNamespace, "sns")}:{name}'
+
+    def type_name(cls):
+        schema = next((s for s in walk_schemas(service.schemas) if cls in s.complexTypes or cls in s.simpleTypes), service.schemas[0])
+        return f'{prefixes.get(schema.targetNamespace, "sns")}:{uncapitalize(cls.__name__)}'
+
     for method in service.methods:
         inputMessage = wsdl.Message(name=method.operationName + 'Input')
         part = wsdl.Part(name='body')
         if isinstance(method.input, str):
-            part.element = 'sns:' + method.input
+            part.element = element_name(method.input)
         else:
-            part.type = 'sns:' + uncapitalize(method.input.__name__)
+            part.type = type_name(method.input)
         inputMessage.parts = [part]
         definitions.messages.append(inputMessage)
 
@@ -80,9 +89,9 @@ def build_messages(wsdl, definitions, service):
         if method.output is not None:
             part = wsdl.Part(name='body')
             if isinstance(method.output, str):
-                part.element = 'sns:' + method.output
+                part.element = element_name(method.output)
             else:
-                part.type = 'sns:' + uncapitalize(method.output.__name__)
+                part.type = type_name(method.output)
             outputMessage.parts = [part]
         definitions.messages.append(outputMessage)
 
@@ -92,6 +101,12 @@ def build_types(wsdl, definitions, service):
     definitions.types = wsdl.Types(schemas=schemas)
 
 
+def generate_prefixes(schemas):
+    """Return the prefixes for the namespaces of the schemas and those they import."""
+    namespaces = dict.fromkeys(schema.targetNamespace for schema in walk_schemas(schemas) if schema.targetNamespace)
+    return {namespace: f'sns{n or ""}' for n, namespace in enumerate(namespaces)}
+
+
 def generate_wsdl(service):
     wsdl = get_wsdl_classes(service.version.BINDING_NAMESPACE)
     definitions = wsdl.Definitions(targetNamespace=service.targetNamespace)
@@ -99,13 +114,13 @@ def generate_wsdl(service):
     build_service(wsdl, definitions, service)
     build_bindings(wsdl, definitions, service)
     build_portTypes(wsdl, definitions, service)
-    build_messages(wsdl, definitions, service)
+    prefixes = generate_prefixes(service.schemas)
+    build_messages(wsdl, definitions, service, prefixes)
 
     xmlelement = etree.Element(
         '{%s}definitions' % ns.wsdl,
         nsmap={
-            # FIXME: Look up properly if multiple schemas...
-            'sns': service.schemas[0].targetNamespace,
+            **{prefix: namespace for namespace, prefix in prefixes.items()},
             'soap': service.version.BINDING_NAMESPACE,
             'tns': service.targetNamespace,
             'wsdl': ns.wsdl,
@@ -118,6 +133,11 @@ def generate_wsdl(service):
                        namespace=ns.wsdl,
                        elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
 
+    # A schema refers to its own types with the prefix sns, which stands for the namespace of the first one here.
+    for node, schema in zip(xmlelement.findall('{%s}types/{%s}schema' % (ns.wsdl, ns.xsd)), service.schemas):
+        if schema.targetNamespace != service.schemas[0].targetNamespace:
+            node.getparent().replace(node, generate_xsd(schema))
+
     return xmlelement
 
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 1a4c230..376a10a 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -226,6 +226,18 @@ def find_xsd_namespaces(xml):
     return {k for k, v in nsmap.items() if v in (ns.xsd, ns.xsd2000)}
 
 
+def walk_schemas(schemas):
+    """Iterate over the schemas and those they refer to: depth-first, each of them once as imports may be cyclic."""
+    pending, seen = list(schemas), []
+    while pending:
+        schema = pending.pop(0)
+        if any(schema is s for s in seen):
+            continue
+        seen.append(schema)
+        yield schema
+        pending[:0] = itertools.chain(schema.imports, schema.includes)
+
+
 def walk_schema_tree(schemas, callback, seen=None):
     if seen is None:
         seen = {}
-- 
2.43.0


From ae133f3ae0afc486b5a5e1775ac6affb058f7b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 69/89] fix: the parts of generated headers are named like
 their elements

---
 soapfish/templates/wsdl.jinja2 | 22 ++++++++++++++--------
 soapfish/xsd.py                | 10 +++++++++-
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 3d7bab8..5e8d73e 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -46,24 +46,30 @@ def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
 {%- if _imh %}
 class {{ _im.name }}Headers(BaseHeader):
-    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
-    {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {%- set schema = schema_select(definitions.types.schemas, [part.element]) or definitions.types.schemas|first %}
+    {%- if loop.first %}
+    SCHEMA = Schema_{{ schema_name(schema) }}
+    {%- endif %}
+    {{ part.name|fix_keyword }} = Schema_{{ schema_name(schema) }}.get_part_by_name({{ part.element|remove_namespace|repr }})
+    {%- else %}
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}(), tagname={{ part.name|repr }})
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif -%}
 {%- if _omh %}
 class {{ _om.name }}Headers(BaseHeader):
-    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
-    {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {%- set schema = schema_select(definitions.types.schemas, [part.element]) or definitions.types.schemas|first %}
+    {%- if loop.first %}
+    SCHEMA = Schema_{{ schema_name(schema) }}
+    {%- endif %}
+    {{ part.name|fix_keyword }} = Schema_{{ schema_name(schema) }}.get_part_by_name({{ part.element|remove_namespace|repr }})
+    {%- else %}
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}(), tagname={{ part.name|repr }})
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 6eec358..ffa0da3 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -40,7 +40,7 @@ import iso8601
 from lxml import etree
 
 from . import namespaces as ns
-from .utils import timezone_offset_to_string
+from .utils import timezone_offset_to_string, walk_schemas
 from .xsd_types import XSDDate
 
 logger = logging.getLogger(__name__)
@@ -1296,6 +1296,14 @@ class Schema:
             pending[:0] = itertools.chain(schema.imports, schema.includes)
         return None
 
+    def get_part_by_name(self, name):
+        """Return a field for the element of the given name for use in another class, e.g. as a part of a header."""
+        for schema in walk_schemas([self]):
+            if name in schema.elements:
+                element = schema.elements[name]
+                return Element(element._passed_type, tagname=name, nillable=element.nillable, namespace=schema.targetNamespace)
+        return None
+
 
 class Method:
     """
-- 
2.43.0


From de6e6e01e9ca1f1fb149e511e30d17078f8bbc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 70/89] fix: code can be generated for operations without
 response, with empty messages or without SOAP action

---
 soapfish/templates/wsdl.jinja2 | 14 +++++++-------
 soapfish/utils.py              |  7 +++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 5e8d73e..d799ab0 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,9 +28,9 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
+def {{ operation.name }}(request, {{ part_name(_im) or 'body' }}):
     # TODO: Put your implementation here.
-    return {{ _om.part.element|remove_namespace }}
+    return {{ part_name(_om) }}
 {# [blank line] #}
 {# [blank line] #}
 {%- endfor %}
@@ -77,7 +77,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {{ operation.name }}_method = xsd.Method(
     {% if is_server %}function={{ operation.name }},
     {% endif -%}
-    soapAction='{{ operation.operation.soapAction }}',
+    soapAction={{ (operation.operation.soapAction or '')|repr }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
     input='{{ _im.part.element|remove_namespace }}',
@@ -101,8 +101,8 @@ class {{ _om.name }}Headers(BaseHeader):
     output_header={{ _om.name }}Headers,
     {%- endif %}
     operationName='{{ operation.name }}',
-    {%- if operation.operation.style %}
-    style='{{ operation.operation.style }}',
+    {%- if operation.operation.style or binding.binding.style %}
+    style='{{ operation.operation.style or binding.binding.style }}',
     {%- endif %}
 )
 {# [blank line] #}
@@ -152,8 +152,8 @@ class {{ port.name }}ServiceStub(soap.Stub):
     {%- endif %}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
-        return self.call('{{ operation.name}}', {{ _im.part.element|remove_namespace }}, header=header)
+    def {{ operation.name }}(self{% if part_name(_im) %}, {{ part_name(_im) }}{% endif %}, header=None):
+        return self.call('{{ operation.name}}', {{ part_name(_im) }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 376a10a..22e14f2 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -168,6 +168,12 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         hidden = {field_name(remove_namespace(f.ref) or f.name) for f in itertools.chain(*(x or () for x in fields))}
         return {name: f"globals()['{name}']" if name in hidden else name for name in known_types or ()}
 
+    def part_name(message):
+        """Return the name of a parameter for the body of a message: None if it is empty or there is no message."""
+        if message is None or not message.parts:
+            return None
+        return remove_namespace(message.part.element or message.part.type)
+
     def facets(restriction):
         """Return the names of the facets of a restriction and the Python code for their values."""
         result = []
@@ -211,6 +217,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         get_by_name=wsdl.get_by_name,
         get_message_header=wsdl.get_message_header,
         get_message_object=wsdl.get_message_object,
+        part_name=part_name,
         preamble={'module': module, 'generated': datetime.now(timezone.utc)},
         schema_name=schema_name,
         schema_select=schema_select,
-- 
2.43.0


From 72eca47fce4cfb3ef28fa062ffffc1facc277b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 71/89] fix: names of operations, messages, ports and elements
 which are no Python names, or taken, can be used in a WSDL

---
 soapfish/templates/wsdl.jinja2 | 45 +++++++++++++++++-----------------
 soapfish/utils.py              | 12 +++++++++
 soapfish/wsdl2py.py            |  3 +++
 3 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index d799ab0..7e33daf 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,9 +28,9 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ part_name(_im) or 'body' }}):
+def {{ operation.name|identifier(defined) }}(request, {{ (part_name(_im) or 'body')|identifier(['request']) }}):
     # TODO: Put your implementation here.
-    return {{ part_name(_om) }}
+    return {% if part_name(_om) %}{{ part_name(_om)|identifier(['request']) }}{% else %}None{% endif %}
 {# [blank line] #}
 {# [blank line] #}
 {%- endfor %}
@@ -45,7 +45,7 @@ def {{ operation.name }}(request, {{ part_name(_im) or 'body' }}):
 {%- set _imh = get_message_header(definitions, binding, operation, 'input') %}
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
 {%- if _imh %}
-class {{ _im.name }}Headers(BaseHeader):
+class {{ (_im.name ~ 'Headers')|identifier(defined) }}(BaseHeader):
     {%- for part in _imh -%}
     {%- if part.element %}
     {%- set schema = schema_select(definitions.types.schemas, [part.element]) or definitions.types.schemas|first %}
@@ -60,7 +60,7 @@ class {{ _im.name }}Headers(BaseHeader):
 {# [blank line] #}
 {%- endif -%}
 {%- if _omh %}
-class {{ _om.name }}Headers(BaseHeader):
+class {{ (_om.name ~ 'Headers')|identifier(defined) }}(BaseHeader):
     {%- for part in _omh -%}
     {%- if part.element %}
     {%- set schema = schema_select(definitions.types.schemas, [part.element]) or definitions.types.schemas|first %}
@@ -74,33 +74,33 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endfor %}
 {# [blank line] #}
 {%- endif %}
-{{ operation.name }}_method = xsd.Method(
-    {% if is_server %}function={{ operation.name }},
+{{ operation.name|identifier }}_method = xsd.Method(
+    {% if is_server %}function={{ operation.name|identifier(defined) }},
     {% endif -%}
     soapAction={{ (operation.operation.soapAction or '')|repr }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
-    input='{{ _im.part.element|remove_namespace }}',
-    inputPartName='{{ _im.part.name }}',
+    input={{ _im.part.element|remove_namespace|repr }},
+    inputPartName={{ _im.part.name|repr }},
     {%- else -%}
     input={{ _im.part.type|remove_namespace|capitalize }},
     {%- endif -%}
     {%- endif -%}
     {%- if _imh %}
-    input_header={{ _im.name }}Headers,
+    input_header={{ (_im.name ~ 'Headers')|identifier(defined) }},
     {%- endif -%}
     {%- if _om.parts -%}
     {%- if _om.part.element %}
-    output='{{ _om.part.element|remove_namespace }}',
-    outputPartName='{{ _om.part.name }}',
+    output={{ _om.part.element|remove_namespace|repr }},
+    outputPartName={{ _om.part.name|repr }},
     {%- else -%}
     output={{ _om.part.type|remove_namespace|capitalize }},
     {%- endif -%}
     {%- endif -%}
     {%- if _omh %}
-    output_header={{ _om.name }}Headers,
+    output_header={{ (_om.name ~ 'Headers')|identifier(defined) }},
     {%- endif %}
-    operationName='{{ operation.name }}',
+    operationName={{ operation.name|repr }},
     {%- if operation.operation.style or binding.binding.style %}
     style='{{ operation.operation.style or binding.binding.style }}',
     {%- endif %}
@@ -112,9 +112,9 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service
 {# [blank line] #}
 {# [blank line] #}
-{{ port.name }}_SERVICE = soap.Service(
-    name='{{ port.name }}',
-    targetNamespace='{{ definitions.targetNamespace }}',
+{{ port.name|identifier }}_SERVICE = soap.Service(
+    name={{ port.name|repr }},
+    targetNamespace={{ definitions.targetNamespace|repr }},
     location={{ port.address.location|url_template|repr }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- if soap_version.NAME == 'soap11' %}
@@ -122,7 +122,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- else %}
     version=soap.SOAPVersion.SOAP12,
     {%- endif %}
-    methods=[{% for o in binding.operations %}{{ o.name }}_method{% if not loop.last %}, {% endif %}{% endfor %}],
+    methods=[{% for o in binding.operations %}{{ o.name|identifier }}_method{% if not loop.last %}, {% endif %}{% endfor %}],
 )
 {# [blank line] #}
 {# [blank line] #}
@@ -132,7 +132,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 # NOTE: Uncomment the following lines to turn on dispatching for Django:
 # from soapfish.django_ import django_dispatcher
-# dispatcher = django_dispatcher({{ port.name }}_SERVICE)
+# dispatcher = django_dispatcher({{ port.name|identifier }}_SERVICE)
 {# [blank line] #}
 {# [blank line] #}
 # NOTE: Put these lines in the urls.py for your project or application:
@@ -144,16 +144,17 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service Stub
 {# [blank line] #}
 {# [blank line] #}
-class {{ port.name }}ServiceStub(soap.Stub):
-    SERVICE = {{ port.name }}_SERVICE
+class {{ port.name|identifier }}ServiceStub(soap.Stub):
+    SERVICE = {{ port.name|identifier }}_SERVICE
     {%- if not port.address.location|is_url_template %}
     SCHEME = {{ port.address.location|url_component('scheme')|repr }}
     HOST = {{ port.address.location|url_component('netloc')|repr }}
     {%- endif %}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name }}(self{% if part_name(_im) %}, {{ part_name(_im) }}{% endif %}, header=None):
-        return self.call('{{ operation.name}}', {{ part_name(_im) }}, header=header)
+{%- set parameter = part_name(_im)|identifier(['header', 'self']) if part_name(_im) else None %}
+    def {{ operation.name|stub_method }}(self{% if parameter %}, {{ parameter }}{% endif %}, header=None):
+        return self.call({{ operation.name|repr }}, {{ parameter }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 22e14f2..2c9ce58 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -99,6 +99,16 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             name = f'_{name}'
         return f'x{name}' if name.startswith('__') else name
 
+    def identifier(value, reserved=()):
+        name = re.sub(r'\W', '_', value)
+        while name in keywords or name in reserved:
+            name = f'{name}_'
+        return name
+
+    def stub_method(value):
+        # The methods of a stub must not hide anything of the class they belong to.
+        return identifier(value, {*dir(soap.Stub), 'username', 'password', 'service', 'location'})
+
     def raw(value):
         return repr(value) if re.search(r"['\n\r]|\\$", value) else f"r'{value}'"
 
@@ -202,7 +212,9 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         raw=raw,
         remove_namespace=remove_namespace,
         repr=repr,
+        stub_method=stub_method,
         type=get_type,
+        identifier=identifier,
         is_url_template=is_url_template,
         url_component=url_component,
         url_regex=url_regex,
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 76c08d4..988fc44 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -3,6 +3,7 @@
 import argparse
 import logging
 import os
+import re
 import sys
 
 from lxml import etree
@@ -101,6 +102,8 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
         soap_version=soap_version,
         definitions=definitions,
         schemas=schemas,
+        # The names which the code for the operations must not hide:
+        defined={'BaseHeader', 'soap', 'wsa', 'xsd', *re.findall(r'^(?:class )?(\w+)', schemas, re.MULTILINE)},
         is_server=bool(target == 'server'),
         use_wsa=use_wsa,
     )
-- 
2.43.0


From 96f480ca55c6c2e45fbd266707dc6dc3603d199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 72/89] fix: content whose type belongs to another schema is
 rendered in the form of that schema

---
 soapfish/xsd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index ffa0da3..56c908d 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -679,6 +679,7 @@ class Element:
         if value is None:
             return
 
+        content_form = self._content_form(namespace, elementFormDefault)
         if self.namespace is not None:
             namespace = self.namespace
         if namespace is not None and elementFormDefault == ElementFormDefault.QUALIFIED:
@@ -688,9 +689,15 @@ class Element:
         if value is NIL:
             xmlelement.set(f'{{{ns.xsi}}}nil', 'true')
         else:
-            self._type.render(xmlelement, value, namespace, elementFormDefault)
+            self._type.render(xmlelement, value, namespace, content_form)
         parent.append(xmlelement)
 
+    def _content_form(self, namespace, elementFormDefault):
+        # Types of other schemas than the one of the parent have the form of their own schema.
+        schema = getattr(self._type, 'SCHEMA', None)
+        is_foreign = schema and namespace not in (None, schema.targetNamespace)
+        return schema.elementFormDefault if is_foreign else elementFormDefault
+
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
         value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
@@ -927,6 +934,7 @@ class ListElement(Element):
         if self._maxOccurs and len(items) > self._maxOccurs:
             raise ValueError('For %s maxOccurs=%d but list length %d.' % (field_name, self._maxOccurs, len(items)))
 
+        content_form = self._content_form(namespace, elementFormDefault)
         if self.namespace is not None:
             namespace = self.namespace
         if namespace is not None and elementFormDefault == ElementFormDefault.QUALIFIED:
@@ -939,7 +947,7 @@ class ListElement(Element):
             if item is NIL:
                 xmlelement.set(f'{{{ns.xsi}}}nil', 'true')
             else:
-                self._type.render(xmlelement, item, namespace, elementFormDefault)
+                self._type.render(xmlelement, item, namespace, content_form)
             parent.append(xmlelement)
 
     def parse(self, instance, field_name, xmlelement):
-- 
2.43.0


From 27fa7b5e11df704013f39719fda13305934463c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 73/89] fix: methods without input can be described in a WSDL
 and dispatched

---
 soapfish/py2wsdl.py       | 13 +++++++------
 soapfish/soap_dispatch.py |  2 ++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index df811df..fb838d8 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -77,12 +77,13 @@ def build_messages(wsdl, definitions, service, prefixes):
 
     for method in service.methods:
         inputMessage = wsdl.Message(name=method.operationName + 'Input')
-        part = wsdl.Part(name='body')
-        if isinstance(method.input, str):
-            part.element = element_name(method.input)
-        else:
-            part.type = type_name(method.input)
-        inputMessage.parts = [part]
+        if method.input is not None:
+            part = wsdl.Part(name='body')
+            if isinstance(method.input, str):
+                part.element = element_name(method.input)
+            else:
+                part.type = type_name(method.input)
+            inputMessage.parts = [part]
         definitions.messages.append(inputMessage)
 
         outputMessage = wsdl.Message(name=method.operationName + 'Output')
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 9b265fa..283d55f 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -118,6 +118,8 @@ class SOAPDispatcher:
             return soap_header.parse_as(self.service.input_header)
 
     def _parse_input(self, method, message):
+        if method.input is None:
+            return None
         input_parser = method.input
         if isinstance(method.input, str):
             element = self.service.find_element_by_name(method.input)
-- 
2.43.0


From 3ea066cd68b23ef9bdc28269f6cb8ac29836a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 74/89] fix: generated names starting with two underscores are
 not mangled in classes

---
 soapfish/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 2c9ce58..5f80c23 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -101,6 +101,8 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
 
     def identifier(value, reserved=()):
         name = re.sub(r'\W', '_', value)
+        if name.startswith('__'):  # would be mangled in classes
+            name = f'x{name}'
         while name in keywords or name in reserved:
             name = f'{name}_'
         return name
-- 
2.43.0


From 1cce6b016262c38b4907376fc0227601e81a6909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 75/89] fix: schemas can refer to types which their module
 defines later

---
 soapfish/py2xsd.py |  1 +
 soapfish/xsd.py    | 14 +++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index ab3da7d..15f8b1b 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -196,6 +196,7 @@ def generate_elements(xsd_schema, schema):
     for name, element in schema.elements.items():
         xsd_element = xsdspec.Element()
         xsd_element.name = name
+        element._evaluate_type()
 
         # TODO: Support non-string values for substitutionGroup:
         if element.substitutionGroup is not None:
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 56c908d..a5f5f6e 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1281,8 +1281,7 @@ class Schema:
         self._force_elements_type_evalution(self.attributeGroups)
         self._force_elements_type_evalution(self.groups)
 
-        for element in self.elements.values():
-            element._evaluate_type()
+        self._force_elements_type_evalution(self.elements.values())
 
     def __init_schema(self, types):
         for _type in types:
@@ -1290,7 +1289,15 @@ class Schema:
 
     def _force_elements_type_evalution(self, types):
         for t in types:
-            t._force_elements_type_evalution()
+            try:
+                if isinstance(t, Element):
+                    t._evaluate_type()
+                else:
+                    t._force_elements_type_evalution()
+            except AttributeError:
+                # The module does not define the type yet, e.g. if it belongs to a schema which includes this one: it
+                # will be evaluated when needed.
+                pass
 
     def get_element_by_name(self, name):
         pending, seen = [self], []
@@ -1300,6 +1307,7 @@ class Schema:
                 continue
             seen.append(schema)
             if name in schema.elements:
+                schema.elements[name]._evaluate_type()
                 return schema.elements[name]
             pending[:0] = itertools.chain(schema.imports, schema.includes)
         return None
-- 
2.43.0


From 6be5b5b35c74dc6572139586c52403d28c42d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 76/89] fix: generated header classes are unique per message
 and parts

---
 soapfish/templates/wsdl.jinja2 | 14 ++++++++------
 soapfish/wsdl2py.py            | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 7e33daf..a64dbd1 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -44,8 +44,9 @@ def {{ operation.name|identifier(defined) }}(request, {{ (part_name(_im) or 'bod
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {%- set _imh = get_message_header(definitions, binding, operation, 'input') %}
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
-{%- if _imh %}
-class {{ (_im.name ~ 'Headers')|identifier(defined) }}(BaseHeader):
+{%- set _imh_class, _imh_is_new = header_class(_im, _imh) if _imh else (None, False) %}
+{%- if _imh_is_new %}
+class {{ _imh_class }}(BaseHeader):
     {%- for part in _imh -%}
     {%- if part.element %}
     {%- set schema = schema_select(definitions.types.schemas, [part.element]) or definitions.types.schemas|first %}
@@ -59,8 +60,9 @@ class {{ (_im.name ~ 'Headers')|identifier(defined) }}(BaseHeader):
     {%- endfor %}
 {# [blank line] #}
 {%- endif -%}
-{%- if _omh %}
-class {{ (_om.name ~ 'Headers')|identifier(defined) }}(BaseHeader):
+{%- set _omh_class, _omh_is_new = header_class(_om, _omh) if _omh else (None, False) %}
+{%- if _omh_is_new %}
+class {{ _omh_class }}(BaseHeader):
     {%- for part in _omh -%}
     {%- if part.element %}
     {%- set schema = schema_select(definitions.types.schemas, [part.element]) or definitions.types.schemas|first %}
@@ -87,7 +89,7 @@ class {{ (_om.name ~ 'Headers')|identifier(defined) }}(BaseHeader):
     {%- endif -%}
     {%- endif -%}
     {%- if _imh %}
-    input_header={{ (_im.name ~ 'Headers')|identifier(defined) }},
+    input_header={{ _imh_class }},
     {%- endif -%}
     {%- if _om.parts -%}
     {%- if _om.part.element %}
@@ -98,7 +100,7 @@ class {{ (_om.name ~ 'Headers')|identifier(defined) }}(BaseHeader):
     {%- endif -%}
     {%- endif -%}
     {%- if _omh %}
-    output_header={{ (_om.name ~ 'Headers')|identifier(defined) }},
+    output_header={{ _omh_class }},
     {%- endif %}
     operationName={{ operation.name|repr }},
     {%- if operation.operation.style or binding.binding.style %}
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 988fc44..b702aad 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -98,12 +98,24 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     env = get_rendering_environment(xsd_namespaces, module='soapfish.wsdl2py')
     tpl = env.get_template('wsdl.jinja2')
 
+    # The names which the code for the operations must not hide:
+    defined = {'BaseHeader', 'soap', 'wsa', 'xsd', *re.findall(r'^(?:class )?(\w+)', schemas, re.MULTILINE)}
+    header_classes = {}
+
+    def header_class(message, parts):
+        """Return the name of the class for a header and whether it is a new one: messages may have several headers."""
+        key = (message.name, *((part.name, part.element, part.type) for part in parts))
+        is_new = key not in header_classes
+        if is_new:
+            header_classes[key] = env.filters['identifier'](f'{message.name}Headers', {*defined, *header_classes.values()})
+        return header_classes[key], is_new
+
     code = tpl.render(
         soap_version=soap_version,
         definitions=definitions,
         schemas=schemas,
-        # The names which the code for the operations must not hide:
-        defined={'BaseHeader', 'soap', 'wsa', 'xsd', *re.findall(r'^(?:class )?(\w+)', schemas, re.MULTILINE)},
+        defined=defined,
+        header_class=header_class,
         is_server=bool(target == 'server'),
         use_wsa=use_wsa,
     )
-- 
2.43.0


From 50b7ebbca4c6a6a8bb89c43bc00b29763b08c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 77/89] fix: an included schema without target namespace gets
 the one of the schema which includes it

---
 soapfish/xsd2py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 64e2694..5e2eb68 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -71,8 +71,8 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
         return ''
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
-                        location, cwd=cwd, base_path=base_path,
-                        standalone=standalone)
+                        location, parent_namespace=parent_namespace, cwd=cwd,
+                        base_path=base_path, standalone=standalone)
 
     return code.encode(encoding) if encoding else code
 
-- 
2.43.0


From 3064021cea8b6e0d6bf026a3b075d40e12129142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 78/89] fix: documents which several schemas refer to are read
 once

---
 soapfish/xsd2py.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 5e2eb68..e99cb22 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -40,6 +40,9 @@ def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path
     assert isinstance(i, (xsdspec.Import, xsdspec.Include))
     path, cwd, location = resolve_location(i.schemaLocation, base_path)
     tag = i.__class__.__name__.lower()
+    # Skip if this file has already been included:
+    if location in known_paths:
+        return ''
     logger.info('Generating code for xsd:%s=%s', tag, path)
     xml = open_document(path)
 
-- 
2.43.0


From 3a6b4f857feae67448be887ad1aa8965721e28ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 79/89] fix: imports of several schemas of a namespace are kept
 apart in generated code

---
 soapfish/templates/lib.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 9cf17fe..23bfce0 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -13,7 +13,7 @@
 
 {% macro render_Schema(schema, location, known_types=None) -%}
 Schema_{{ schema_name(schema) }} = xsd.Schema(
-    imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    imports=[{% for i in schema.imports %}Schema_{{ schema_name(i, i.schemaLocation) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     targetNamespace={{ schema.targetNamespace|repr }},
     {%- if location %}
-- 
2.43.0


From 4f5c971fe179cb562bfe45f84b584dc034def60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:14 +0000
Subject: [PATCH 80/89] fix: locations in imported WSDL documents are relative
 to them, which may import the main document

---
 soapfish/wsdl2py.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index b702aad..b719b43 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -11,7 +11,7 @@ from lxml import etree
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
-from .xsd2py import schema_to_py
+from .xsd2py import rewrite_paths, schema_to_py
 
 logger = logging.getLogger('soapfish')
 
@@ -64,6 +64,8 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
             merge_imports(wsdl, imported, xsd_namespaces, cwd=import_cwd, seen=seen)
 
         if imported.types and imported.types.schemas:
+            for schema in imported.types.schemas:
+                rewrite_paths(schema, import_cwd, cwd)
             if not definitions.types:
                 definitions.types = wsdl.Types()
             definitions.types.schemas = deduplicate(imported.types.schemas + definitions.types.schemas)
@@ -74,7 +76,7 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
         definitions.portTypes = deduplicate(imported.portTypes + definitions.portTypes)
 
 
-def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=None):
+def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=None, path=None):
 
     if isinstance(xml, bytes):
         xml = etree.fromstring(xml)
@@ -89,7 +91,8 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
 
     wsdl = get_wsdl_classes(soap_version.BINDING_NAMESPACE)
     definitions = wsdl.Definitions.parse_xmlelement(xml)
-    merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
+    # The document itself may be imported by one of the documents it refers to.
+    merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd, seen={path})
 
     kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_paths': [], 'known_types': []}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
@@ -150,7 +153,8 @@ def main(argv=None):
     xml = stdin.read() if opt.wsdl == '-' else open_document(opt.wsdl)
     cwd = opt.wsdl if '://' in opt.wsdl else os.path.abspath(opt.wsdl)
     cwd = os.path.dirname(cwd)
-    code = generate_code_from_wsdl(xml, opt.target, opt.use_wsa, cwd=cwd)
+    path = opt.wsdl if '://' in opt.wsdl else os.path.abspath(opt.wsdl)
+    code = generate_code_from_wsdl(xml, opt.target, opt.use_wsa, cwd=cwd, path=path)
 
     opt.output.write(code.strip())
 
-- 
2.43.0


From 276efbdcd60ad558de57ef0f4b6cd7613339bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 81/89] fix: imports of namespaces whose schema is unknown do
 not break generated modules

---
 soapfish/templates/lib.jinja2 |  4 ++--
 soapfish/templates/xsd.jinja2 |  7 ++++---
 soapfish/wsdl2py.py           |  2 +-
 soapfish/xsd2py.py            | 17 ++++++++++++-----
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 23bfce0..08f25c1 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -11,9 +11,9 @@
 {%- endif -%}
 {%- endmacro %}
 
-{% macro render_Schema(schema, location, known_types=None) -%}
+{% macro render_Schema(schema, location, known_types=None, known_namespaces=()) -%}
 Schema_{{ schema_name(schema) }} = xsd.Schema(
-    imports=[{% for i in schema.imports %}Schema_{{ schema_name(i, i.schemaLocation) }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    imports=[{% for i in schema.imports if i.schemaLocation or i.namespace in known_namespaces %}Schema_{{ schema_name(i, i.schemaLocation) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     targetNamespace={{ schema.targetNamespace|repr }},
     {%- if location %}
diff --git a/soapfish/templates/xsd.jinja2 b/soapfish/templates/xsd.jinja2
index be4442b..5629613 100644
--- a/soapfish/templates/xsd.jinja2
+++ b/soapfish/templates/xsd.jinja2
@@ -8,12 +8,12 @@ from soapfish import xsd
 {#- XSD Includes -#}
 {%- for i in schema.includes %}
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
-{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
+{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path, known_namespaces) }}
 {%- endfor %}
 {#- XSD Imports -#}
 {%- for i in schema.imports %}
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
-{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
+{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path, known_namespaces) }}
 {%- endfor %}
 # {% if location %}{{ location }} - {% endif -%} {{ schema.targetNamespace }}{# Output the name of the schema in a comment. #}
 {# [blank line] #}
@@ -45,5 +45,6 @@ from soapfish import xsd
 {% for element in schema.elements if element.complexType -%}
 {{ lib.render_complexType(element.name, element.complexType, known_types) }}
 {%- endfor %}
-{{ lib.render_Schema(schema, location, known_types) }}
+{{ lib.render_Schema(schema, location, known_types, known_namespaces) }}
+{%- do known_namespaces.append(schema.targetNamespace) %}
 {#- vim:set et ft=django nowrap sts=4 sw=4 ts=4: -#}
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index b719b43..4132fb2 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -94,7 +94,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     # The document itself may be imported by one of the documents it refers to.
     merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd, seen={path})
 
-    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_paths': [], 'known_types': []}
+    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_paths': [], 'known_types': [], 'known_namespaces': []}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
 
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index e99cb22..385c038 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -36,7 +36,7 @@ def rewrite_paths(schema, cwd, base_path):
             i.schemaLocation = os.path.relpath(path, base_path)
 
 
-def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path):
+def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path, known_namespaces=None):
     assert isinstance(i, (xsdspec.Import, xsdspec.Include))
     path, cwd, location = resolve_location(i.schemaLocation, base_path)
     tag = i.__class__.__name__.lower()
@@ -48,13 +48,14 @@ def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path
 
     return generate_code_from_xsd(xml, known_paths, known_types, location,
                                   parent_namespace, encoding=None, cwd=cwd,
-                                  base_path=base_path, standalone=False)
+                                  base_path=base_path, standalone=False,
+                                  known_namespaces=known_namespaces)
 
 
 def generate_code_from_xsd(xml, known_paths=None, known_types=None,
                            location=None, parent_namespace=None,
                            encoding='utf8', cwd=None, base_path=None,
-                           standalone=True):
+                           standalone=True, known_namespaces=None):
 
     if isinstance(xml, bytes):
         xml = etree.fromstring(xml)
@@ -75,7 +76,8 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
                         location, parent_namespace=parent_namespace, cwd=cwd,
-                        base_path=base_path, standalone=standalone)
+                        base_path=base_path, standalone=standalone,
+                        known_namespaces=known_namespaces)
 
     return code.encode(encoding) if encoding else code
 
@@ -111,7 +113,7 @@ def _reorder_types(types, xsd_namespaces=()):
 def schema_to_py(schema, xsd_namespaces,
                  known_paths=None, known_types=None, location=None,
                  parent_namespace=None, cwd=None, base_path=None,
-                 standalone=False):
+                 standalone=False, known_namespaces=None):
     if base_path is None:
         base_path = cwd
     if base_path:
@@ -131,8 +133,13 @@ def schema_to_py(schema, xsd_namespaces,
     if known_types is None:
         known_types = []
 
+    # The namespaces of the schemas which are defined so far: others may be imported without a location, too.
+    if known_namespaces is None:
+        known_namespaces = []
+
     env = get_rendering_environment(xsd_namespaces, module='soapfish.xsd2py')
     env.globals.update(
+        known_namespaces=known_namespaces,
         known_paths=known_paths,
         known_types=known_types,
         location=location,
-- 
2.43.0


From 09bd2d6b67ad7e5aa6bf1a72e74e03a77f7ec84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 82/89] fix: parsing with a schema does not open documents
 which the schema refers to

---
 soapfish/py2xsd.py | 7 +++++--
 soapfish/xsd.py    | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 15f8b1b..be120da 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -240,6 +240,10 @@ def schema_validator(schemas):
 
     The method takes care of resolving imported (soapfish) schemas but prevents any unwanted network access.
     """
+    return build_xml_schema(schemas).assertValid
+
+
+def build_xml_schema(schemas):
     lookup = walk_schema_tree(schemas, lambda x: x)
     # Locations may be anything, e.g. templates: use names for the documents which are valid as URIs.
     names = {location: f'schema{n}.xsd' for n, location in enumerate(lookup) if location}
@@ -285,8 +289,7 @@ def schema_validator(schemas):
     # conflicting namespace urls).
     schema_xml = b''.join(serialize(s) for s in schemas)
     schema_element = etree.fromstring(schema_xml, parser)
-    xml_schema = etree.XMLSchema(schema_element)
-    return xml_schema.assertValid
+    return etree.XMLSchema(schema_element)
 
 
 # --- Program -----------------------------------------------------------------
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a5f5f6e..2e0aab5 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1140,8 +1140,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
             parser = etree.fromstring
         else:
             if not isinstance(schema, etree.XMLSchema):
-                from .py2xsd import generate_xsd
-                schema = etree.XMLSchema(generate_xsd(schema))
+                from .py2xsd import build_xml_schema
+                schema = build_xml_schema([schema])
             xmlparser = etree.XMLParser(schema=schema)
             parser = functools.partial(etree.fromstring, parser=xmlparser)
         xmlelement = parser(xml)
-- 
2.43.0


From 1cb6ecb2e5b6e4906348e25464f8bb5f31c0a69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:19 +0000
Subject: [PATCH 83/89] fix: WSDLs imported by absolute and relative paths are
 read once for a relative directory, too

---
 soapfish/wsdl2py.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 4132fb2..184ccb3 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -81,8 +81,13 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     if isinstance(xml, bytes):
         xml = etree.fromstring(xml)
 
+    # Documents are known by their absolute paths: they may be referred to by absolute and relative ones.
     if cwd is None:
         cwd = os.getcwd()
+    elif '://' not in cwd:
+        cwd = os.path.abspath(cwd)
+    if path is not None and '://' not in path:
+        path = os.path.abspath(path)
 
     xsd_namespaces = find_xsd_namespaces(xml)
 
-- 
2.43.0


From 7f24093775610e3d6095073790aa0ba9ba0ebb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:14 +0000
Subject: [PATCH 84/89] fix: numbers and dates without a value are written like
 those of the other types

---
 soapfish/xsd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 2e0aab5..3dcafd9 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -252,6 +252,8 @@ class Date(SimpleType):
         raise ValueError(f'Incorrect type value {value!r} for date field.')
 
     def xmlvalue(self, value):
+        if value is None:
+            return 'nil'
         timestring_without_tz = f'{value.year:04d}' + value.strftime('-%m-%d')
         tz = getattr(value, 'tzinfo', None)
         if not tz:
@@ -455,6 +457,8 @@ class Decimal(SimpleType):
         return format(self._exact(value), 'f')
 
     def xmlvalue(self, value):
+        if value is None:
+            return 'nil'
         literal = self._literal(value)
         if self.fractionDigits:
             # A number which has been parsed does not have its trailing zeros anymore.
-- 
2.43.0


From cf11717ee710f05292727084563b173d58bf3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:39 +0000
Subject: [PATCH 85/89] fix: NIL stays NIL in copied and unpickled objects

---
 soapfish/xsd.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 3dcafd9..c48df25 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -45,7 +45,15 @@ from .xsd_types import XSDDate
 
 logger = logging.getLogger(__name__)
 
-NIL = object()
+
+class Nil:
+    """The type of NIL, which is the same object when it has been copied or unpickled."""
+
+    def __reduce__(self):
+        return 'NIL'
+
+
+NIL = Nil()
 UNBOUNDED = decimal.Decimal('infinity')
 
 
-- 
2.43.0


From ad279e15269af9cb499942caf9d9e06aefbd4c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:52 +0000
Subject: [PATCH 86/89] fix: generated header classes with parts of types
 belong to a schema, too

---
 soapfish/templates/wsdl.jinja2 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index a64dbd1..626814e 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -48,11 +48,11 @@ def {{ operation.name|identifier(defined) }}(request, {{ (part_name(_im) or 'bod
 {%- if _imh_is_new %}
 class {{ _imh_class }}(BaseHeader):
     {%- for part in _imh -%}
-    {%- if part.element %}
-    {%- set schema = schema_select(definitions.types.schemas, [part.element]) or definitions.types.schemas|first %}
+    {%- set schema = (part.element and schema_select(definitions.types.schemas, [part.element])) or definitions.types.schemas|first %}
     {%- if loop.first %}
     SCHEMA = Schema_{{ schema_name(schema) }}
     {%- endif %}
+    {%- if part.element %}
     {{ part.name|fix_keyword }} = Schema_{{ schema_name(schema) }}.get_part_by_name({{ part.element|remove_namespace|repr }})
     {%- else %}
     {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}(), tagname={{ part.name|repr }})
@@ -64,11 +64,11 @@ class {{ _imh_class }}(BaseHeader):
 {%- if _omh_is_new %}
 class {{ _omh_class }}(BaseHeader):
     {%- for part in _omh -%}
-    {%- if part.element %}
-    {%- set schema = schema_select(definitions.types.schemas, [part.element]) or definitions.types.schemas|first %}
+    {%- set schema = (part.element and schema_select(definitions.types.schemas, [part.element])) or definitions.types.schemas|first %}
     {%- if loop.first %}
     SCHEMA = Schema_{{ schema_name(schema) }}
     {%- endif %}
+    {%- if part.element %}
     {{ part.name|fix_keyword }} = Schema_{{ schema_name(schema) }}.get_part_by_name({{ part.element|remove_namespace|repr }})
     {%- else %}
     {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}(), tagname={{ part.name|repr }})
-- 
2.43.0


From e6803b2deff17fa7e2839e2cb3704e3bcc8df501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:42 +0000
Subject: [PATCH 87/89] fix: schemas of several namespaces in a WSDL refer to
 their own types and elements

---
 soapfish/py2wsdl.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index fb838d8..05d975d 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -8,7 +8,7 @@ from importlib.machinery import SourceFileLoader
 from lxml import etree
 
 from . import namespaces as ns, xsd
-from .py2xsd import generate_xsd, generate_xsdspec
+from .py2xsd import generate_xsdspec
 from .soap import SOAP_HTTP_Transport
 from .utils import uncapitalize, walk_schemas
 from .wsdl import get_wsdl_classes
@@ -136,8 +136,11 @@ def generate_wsdl(service):
 
     # A schema refers to its own types with the prefix sns, which stands for the namespace of the first one here.
     for node, schema in zip(xmlelement.findall('{%s}types/{%s}schema' % (ns.wsdl, ns.xsd)), service.schemas):
-        if schema.targetNamespace != service.schemas[0].targetNamespace:
-            node.getparent().replace(node, generate_xsd(schema))
+        for element in node.iter('{%s}*' % ns.xsd):
+            for name in ('base', 'substitutionGroup', 'type'):
+                prefix, _, value = element.get(name, '').partition(':')
+                if prefix == 'sns':
+                    element.set(name, f'{prefixes.get(schema.targetNamespace, "sns")}:{value}')
 
     return xmlelement
 
-- 
2.43.0


From 46184eaf7475d6725d02421be72cba82b82db323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 88/89] fix: heads of substitution groups may have any prefix
 in the document they come from

---
 soapfish/py2xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index be120da..5faaaae 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -200,8 +200,8 @@ def generate_elements(xsd_schema, schema):
 
         # TODO: Support non-string values for substitutionGroup:
         if element.substitutionGroup is not None:
-            value = element.substitutionGroup
-            xsd_element.substitutionGroup = value if value.startswith('sns:') else f'sns:{value}'
+            # The prefix may be one of the document which the element comes from.
+            xsd_element.substitutionGroup = 'sns:' + element.substitutionGroup.split(':')[-1]
 
         if isinstance(element._passed_type, str) or inspect.isclass(element._passed_type):
             xsd_element.type = get_xsd_type(element._type)
-- 
2.43.0


From d68fe9157f523565e3ce130978802b6b702e0516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:18 +0000
Subject: [PATCH 89/89] fix: several schemas can be validated together

---
 soapfish/py2xsd.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 5faaaae..cdf47ab 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -247,14 +247,39 @@ def build_xml_schema(schemas):
     lookup = walk_schema_tree(schemas, lambda x: x)
     # Locations may be anything, e.g. templates: use names for the documents which are valid as URIs.
     names = {location: f'schema{n}.xsd' for n, location in enumerate(lookup) if location}
+    # If there are several schemas a document imports one for each of their namespaces, which includes the schemas.
+    documents = {}
+    spaces = {}
+    if len(schemas) != 1:
+        for n, schema in enumerate(schemas):
+            documents[f'root{n}.xsd'] = schema
+            names.update((location, f'root{n}.xsd') for location in names if lookup[location] is schema)
+            spaces.setdefault(schema.targetNamespace, []).append(f'root{n}.xsd')
+    space_names = {namespace: f'namespace{n}.xsd' for n, namespace in enumerate(spaces)}
 
     def serialize(schema):
         xml = generate_xsd(schema)
         for reference in xml.iterchildren('{%s}import' % ns.xsd, '{%s}include' % ns.xsd):
-            if reference.get('schemaLocation') in names:
-                reference.set('schemaLocation', names[reference.get('schemaLocation')])
+            location = reference.get('schemaLocation')
+            name = names.get(location)
+            if reference.tag == '{%s}import' % ns.xsd and (location is None or name in documents):
+                name = space_names.get(reference.get('namespace'), name)
+            if name:
+                reference.set('schemaLocation', name)
         return etree.tostring(xml, encoding='UTF-8')
 
+    def serialize_references(tag, namespace, references):
+        xml = etree.Element('{%s}schema' % ns.xsd)
+        if namespace is not None:
+            xml.set('targetNamespace', namespace)
+        for attributes in references:
+            etree.SubElement(xml, '{%s}%s' % (ns.xsd, tag), {k: v for k, v in attributes.items() if v is not None})
+        return etree.tostring(xml, encoding='UTF-8')
+
+    def serialize_all():
+        references = [{'namespace': namespace, 'schemaLocation': name} for namespace, name in space_names.items()]
+        return serialize_references('import', 'urn:soapfish:schemas', references)
+
     class SchemaResolver(etree.Resolver):
 
         def __init__(self, schemas, *args, **kwargs):
@@ -262,6 +287,12 @@ def build_xml_schema(schemas):
             self.lookup = {names[location]: schema for location, schema in lookup.items() if location}
 
         def resolve(self, url, id_, context):
+            for namespace, name in space_names.items():
+                if url == name:
+                    references = [{'schemaLocation': root} for root in spaces[namespace]]
+                    return self.resolve_string(serialize_references('include', namespace, references), context)
+            if url in documents:
+                return self.resolve_string(serialize(documents[url]), context)
             if url in self.lookup:
                 schema = self.lookup[url]
                 if schema in schemas:  # The definitions are there already, they must not be repeated.
@@ -287,7 +318,7 @@ def build_xml_schema(schemas):
     # Also having shared resolvers is not a good idea because a user might want
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
-    schema_xml = b''.join(serialize(s) for s in schemas)
+    schema_xml = serialize(schemas[0]) if len(schemas) == 1 else serialize_all()
     schema_element = etree.fromstring(schema_xml, parser)
     return etree.XMLSchema(schema_element)
 
-- 
2.43.0

