From 3357ef586036077261219e70b6a696aa72e7c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 01/49] fix: dump boolean children (ex. additionalProperties:
 false)

---
 pyopenapi/migration/spec/obj.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index bd81c0a..7f6252b 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -647,7 +647,11 @@ class Base2Obj(_Base):
         # dump children first
         for name in children:
             child_ = getattr(self, name)
-            if child_:
+            if isinstance(child_, bool):
+                # ex. 'additionalProperties'
+                ret[name] = child_
+                fields.discard(name)
+            elif child_:
                 ret[name] = child_.dump()
                 fields.discard(name)
 
-- 
2.43.0


From 8e0f4d97bf49202f96bf5722e9f5567cec741801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 02/49] fix: compare all elements of lists and maps, and their
 length

---
 pyopenapi/migration/spec/obj.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 7f6252b..93516e8 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -250,15 +250,18 @@ class _List(_Base):
     def compare(self, other, base=None):
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, ''
+            return False, base or ''
 
         if len(self) != len(other):
-            return False, ''
+            return False, base or ''
 
         for idx, (self_, other_) in enumerate(zip(self, other)):
             new_base = jp_compose(str(idx), base=base)
-            if isinstance(self_, six.string_types + six.integer_types):
-                return self_ == other_, new_base
+            if not isinstance(self_, _Base):
+                # primitives
+                if self_ != other_:
+                    return False, new_base
+                continue
 
             same, name = self_.compare(other_, base=new_base)
             if not same:
@@ -397,7 +400,7 @@ class _Map(_Base):
     def compare(self, other, base=None):
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, ''
+            return False, base or ''
 
         diff = list(set(self.keys()) - set(other.keys()))
         if diff:
@@ -408,13 +411,16 @@ class _Map(_Base):
 
         for name in self.__elm:
             new_base = jp_compose(name, base=base)
-            if isinstance(self.__elm[name],
-                          six.string_types + six.integer_types):
-                return self.__elm[name] == other[name], new_base
+            if not isinstance(self.__elm[name], _Base):
+                # primitives
+                if self.__elm[name] != other[name]:
+                    return False, new_base
+                continue
 
-            same, name = self.__elm[name].compare(other[name], base=new_base)
+            same, location = self.__elm[name].compare(
+                other[name], base=new_base)
             if not same:
-                return same, name
+                return same, location
 
         return True, ''
 
@@ -590,7 +596,7 @@ class Base2Obj(_Base):
 
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, ''
+            return False, base or ''
 
         def _cmp_(name, self_, other_):
             if isinstance(self_, six.string_types + six.integer_types):
@@ -602,6 +608,8 @@ class Base2Obj(_Base):
             if isinstance(self_, (Base2Obj, _Map, _List)):
                 return self_.compare(other_, base=name)
             if isinstance(self_, list):
+                if len(self_) != len(other_):
+                    return False, name
                 for i, elm in zip(range(len(self_)), self_):
                     same, location = _cmp_(
                         jp_compose(str(i), name), elm, other_[i])
-- 
2.43.0


From e0a7bd0cd086208ad52559db9c7832d1c0727855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 03/49] fix: keep children enumeration coherent when containers
 are modified

---
 pyopenapi/migration/spec/obj.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 93516e8..7ab58a3 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -118,6 +118,7 @@ def child(key, child_builder=None, required=False, default=None):
     def _setter_(self, val):
         if issubclass(val.__class__, (Base2Obj, _Map, _List)):
             self.children[key] = val
+            self.invalidate_children_cache()
         else:
             raise Exception(
                 'assignment of this type of object is prohibited: {}, {}'.
@@ -164,6 +165,11 @@ class _Base(object):
     def invalidate_children_cache(self):
         self.children_cache = {}
 
+        # those objects under containers are also enumerated
+        # in the cache of objects owning those containers
+        if isinstance(self, (_Map, _List)) and self.__parent is not None:
+            self.__parent.invalidate_children_cache()
+
     def update_children_cache(self, cache):
         self.children_cache = cache
 
@@ -320,13 +326,14 @@ class _List(_Base):
 
     def append(self, obj):
         self.invalidate_children_cache()
+        if hasattr(obj, 'set_parent'):
+            obj.set_parent(self)
 
         return self.__elm.append(obj)
 
     def extend(self, other):
-        self.invalidate_children_cache()
-
-        return self.__elm.extend(other)
+        for obj in list(other):
+            self.append(obj)
 
 
 def map_(builder):
@@ -465,6 +472,8 @@ class _Map(_Base):
 
     def __setitem__(self, key, obj):
         self.invalidate_children_cache()
+        if hasattr(obj, 'set_parent'):
+            obj.set_parent(self)
 
         self.__elm[key] = obj
 
@@ -554,7 +563,7 @@ class Base2Obj(_Base):
         for name in self.__children__:
             # trigger the getter of children, it will create it if exist
             chd = getattr(self, name)
-            if chd and hasattr(chd, 'set_parent'):
+            if chd is not None and hasattr(chd, 'set_parent'):
                 chd.set_parent(self)
 
     def resolve(self, parts):
-- 
2.43.0


From f36eec1bd67bfcf4e3573a7ee075d20dc2d820f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 04/49] fix: resolve relative and absolute-path references
 against root-level documents

---
 pyopenapi/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 64ecc2c..f6a2ffb 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -263,11 +263,14 @@ def normalize_jr(json_ref, url=None):
         parsed = six.moves.urllib.parse.urlparse(url_part)
         if parsed.scheme == '' and url:
             url_parsed = six.moves.urllib.parse.urlparse(url)
-            # it's the path of relative file
+            if not url_part.startswith('/'):
+                # it's the path of relative file
+                url_part = '/'.join([
+                    os.path.dirname(url_parsed.path).rstrip('/'),
+                    url_part,
+                ])
             url_part = six.moves.urllib.parse.urlunparse(
-                url_parsed[:2] +
-                ('/'.join([os.path.dirname(url_parsed.path), url_part]),
-                 ) + url_parsed[3:])
+                url_parsed[:2] + (url_part, ) + url_parsed[3:])
             url_part = derelativise_url(url_part)
     else:
         url_part = url
-- 
2.43.0


From da1cc1aa9b27e041d4c9e1385d5e8d95bbce97c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 05/49] fix: override children whose JSON pointer contains
 escaped tokens

---
 pyopenapi/migration/spec/obj.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 7ab58a3..fb038fb 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -140,12 +140,12 @@ class _Base(object):
 
         # setup override
         for k, val in six.iteritems(override or {}):
-            tokens = jp_split(k, 1)
-            if tokens:
-                self.override.setdefault(tokens[0], {}).update({
-                    tokens[1] if len(tokens) > 1 else '':
-                    val
-                })
+            if k:
+                # only the first token is consumed (and decoded) here,
+                # the reminder would be splitted again by children
+                token, _, reminder = k.partition('/')
+                token = ''.join(jp_split(token))
+                self.override.setdefault(token, {}).update({reminder: val})
             else:
                 raise Exception(
                     'invalid token found for "override": {}, in {}'.format(
-- 
2.43.0


From 2fb650535b86b4a640cebec15d9bf629adfc87d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 06/49] fix: misspelled or mistyped fields of OpenAPI 3.0
 objects

---
 pyopenapi/migration/versions/v3_0_0/objects.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/objects.py b/pyopenapi/migration/versions/v3_0_0/objects.py
index 503552a..19724c4 100644
--- a/pyopenapi/migration/versions/v3_0_0/objects.py
+++ b/pyopenapi/migration/versions/v3_0_0/objects.py
@@ -187,7 +187,7 @@ class Schema(Base2_v3_0_0):
         'readOnly': dict(),
         'writeOnly': dict(),
         'example': dict(),
-        'depreated': dict(),
+        'deprecated': dict(),
     }
 
     __children__ = {
@@ -289,7 +289,7 @@ HeaderOrReference = if_not_ref_else(Header)
 class Encoding(Base2_v3_0_0):
     __fields__ = {
         'contentType': dict(),
-        'stype': dict(),
+        'style': dict(),
         'explode': dict(),
         'allowReserved': dict(),
     }
@@ -311,12 +311,13 @@ class MediaType(Base2_v3_0_0):
 
     __children__ = {
         'schema': dict(child_builder=SchemaOrReference),
-        'examples': dict(child_builder=ExampleOrReference),
+        'examples': dict(child_builder=map_(ExampleOrReference)),
         'encoding': dict(child_builder=map_(Encoding)),
     }
 
 
 Parameter.attach_field('content', builder=child, child_builder=map_(MediaType))
+Header.attach_field('content', builder=child, child_builder=map_(MediaType))
 
 
 class RequestBody(Base2_v3_0_0):
@@ -398,7 +399,7 @@ class OAuthFlows(Base2_v3_0_0):
     }
 
     __internal__ = {
-        'client_credentials': dict(key='clientCredential', builder=rename),
+        'client_credentials': dict(key='clientCredentials', builder=rename),
         'authorization_code': dict(key='authorizationCode', builder=rename),
     }
 
-- 
2.43.0


From e5a3649a05c5365cfad8f2328127cb094988c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 07/49] fix: load and convert 'security' of Swagger Object

---
 pyopenapi/migration/versions/v2_0/objects.py                    | 2 +-
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index 9605d74..a27dccf 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -384,7 +384,7 @@ class Swagger(BaseObj_v2_0):
         'parameters': dict(child_builder=map_(Parameter)),
         'responses': dict(child_builder=map_(Response)),
         'securityDefinitions': dict(child_builder=map_(SecurityScheme)),
-        'security': dict(child_builder=list_(list_(is_str))),
+        'security': dict(child_builder=list_(map_(list_(is_str)))),
         'tags': dict(child_builder=list_(Tag)),
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9729b35..9a49c3b 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -624,7 +624,7 @@ def to_openapi(obj, path):
 
     # security
     if obj.security:
-        ret['security'] = obj.security
+        ret['security'] = obj.security.dump()
 
     # tag
     if obj.tags:
-- 
2.43.0


From 3068174196d1c53be371abfb6a9daf9da17c93eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 08/49] fix: keep empty 'security' of operation when converting
 to 3.0.0

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9a49c3b..9cca87a 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -448,7 +448,8 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
     if obj.tags:
         ret['tags'] = obj.tags.dump()
 
-    if obj.security:
+    if obj.security is not None:
+        # an empty list would override global 'security'
         ret['security'] = obj.security.dump()
 
     # parameters
-- 
2.43.0


From 5aa04e81ed47808f2c84b42a99161cd666dc0ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 09/49] fix: rename oauth2 flows and always provide scopes when
 converting to 3.0.0

---
 .../versions/v2_0/scanner/upgrade/converters.py   | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 9cca87a..842c828 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -161,19 +161,28 @@ def to_schema(obj, path, items_converter=None):
     return ret
 
 
+_FLOW_NAMES = {
+    'application': 'clientCredentials',
+    'accessCode': 'authorizationCode',
+
+    # generated when upgrading from 1.2
+    'access_code': 'authorizationCode',
+}
+
+
 def to_flows(obj, path):
     if not obj.flow:
         raise SchemaError('no flow type for oauth2, {}'.format(path))
 
     ret = {}
-    flow = ret.setdefault(obj.flow, {})
+    flow = ret.setdefault(_FLOW_NAMES.get(obj.flow, obj.flow), {})
     flow.update(_generate_fields(obj, [
         'authorizationUrl',
         'tokenUrl',
     ]))
 
-    if obj.scopes:
-        flow['scopes'] = obj.scopes.dump()
+    # required in 3.0.0
+    flow['scopes'] = obj.scopes.dump() if obj.scopes else {}
 
     return ret
 
-- 
2.43.0


From 83318fcd67aa02bd5720db3a20524f8a1165afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 10/49] fix: convert 'basic' security scheme to 'http' type

---
 pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 842c828..5632f6a 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -192,6 +192,7 @@ def to_security_scheme(obj, path):
     type_ = getattr(obj, 'type', None)
     ret['type'] = type_
     if type_ == 'basic':
+        ret['type'] = 'http'
         ret['scheme'] = 'basic'
     elif type_ == 'oauth2':
         ret['flows'] = to_flows(obj, path)
-- 
2.43.0


From b41b1dc0079cd80a2c4dd81f851a83d818ed97e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 11/49] fix: convert response of 'file' type to a schema under
 media type

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 5632f6a..e3908ea 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -425,8 +425,8 @@ def to_response(obj, produces, path):
         type_ = getattr(resolved_obj.schema, 'type', None)
         if type_ == 'file':
             media_type = content.setdefault('application/octet-stream', {})
-            media_type['type'] = 'string'
-            media_type['format'] = 'binary'
+            media_type['schema'] = to_schema(resolved_obj.schema,
+                                             jp_compose('schema', base=path))
         else:
             for type_ in produces:
                 content[type_] = {
-- 
2.43.0


From 2d9840ae3ce1a0ca22a7b8559288790635fb21f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 12/49] fix: don't share request body of path item between
 operations

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index e3908ea..b47ff55 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import copy
+
 import six
 
 from ......utils import jp_compose, deref
@@ -577,7 +579,8 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
         if operation:
             ret[method] = to_operation(
                 operation,
-                body,
+                # each operation might append its own parameters to it
+                copy.deepcopy(body),
                 root_url,
                 jp_compose(method, base=path),
                 produces=produces,
-- 
2.43.0


From 9862c26e554f7634ecc670f1c235e495186bb517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 13/49] fix: build inlined request body of path item for each
 operation with its own consumes

---
 .../v2_0/scanner/upgrade/converters.py        | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index b47ff55..83fd541 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -1,8 +1,6 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
-import copy
-
 import six
 
 from ......utils import jp_compose, deref
@@ -547,17 +545,16 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
         ret['$ref'] = obj.get_attrs('migration').normalized_ref
 
     # parameters
-    body = None
+    body, body_params = None, []
     if obj.parameters:
         consumes, parameters = consumes or [], None
         for index, param in enumerate(obj.parameters):
+            param_path = jp_compose(['parameters', str(index)], base=path)
             new_p, pctx = from_parameter(
-                param,
-                body,
-                consumes,
-                path=jp_compose(['parameters', str(index)], base=path))
+                param, body, consumes, path=param_path)
             if pctx.is_file or pctx.is_body:
                 body = new_p
+                body_params.append((param, param_path))
                 reloc['parameters/{}'.format(
                     index)] = 'x-pyopenapi_internal_request_body'
             else:
@@ -577,10 +574,17 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
     ):
         operation = getattr(obj, method, None)
         if operation:
+            # each operation has its own body: its parameters would be
+            # appended to it, and its 'consumes' decides the content types.
+            op_body = None
+            for param, param_path in body_params:
+                op_body, _ = from_parameter(param, op_body,
+                                            operation.consumes or consumes,
+                                            param_path)
+
             ret[method] = to_operation(
                 operation,
-                # each operation might append its own parameters to it
-                copy.deepcopy(body),
+                op_body,
                 root_url,
                 jp_compose(method, base=path),
                 produces=produces,
-- 
2.43.0


From 7ad94a6df17912e670572500107c52a040b4b81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 14/49] fix: 'explode' of array in query when collectionFormat
 is omitted

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 83fd541..c54837e 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -358,7 +358,10 @@ def to_parameter(obj, path):
         ret.setdefault('schema', {})['items'] = from_items(
             obj.items, jp_compose('items', base=path))
 
-    if obj.is_set('collectionFormat'):
+    # the default value of 'collectionFormat' in 2.0 is 'csv', and is
+    # different from the default value of 'explode' in 3.0.0 when in query
+    if obj.is_set('collectionFormat') or (type_ == 'array' and
+                                          in_ == 'query'):
         style, explode = to_style_and_explode(obj.collectionFormat, in_, type_,
                                               jp_compose(
                                                   'collectionFormat',
-- 
2.43.0


From adc64a41a8ab6caa053f53d30a9963d1ef3bc8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 15/49] fix: server url when host or basePath is missing

---
 .../versions/v2_0/scanner/upgrade/converters.py   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index c54837e..92524f5 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -496,10 +496,10 @@ def to_operation(obj, body, root_url, path, produces=None, consumes=None):
                                                    'externalDocs', base=path))
 
     # schemes
-    if obj.schemes:
+    parts = six.moves.urllib.parse.urlsplit(root_url)
+    if obj.schemes and parts.netloc:
         servers = ret.setdefault('servers', [])
         for scheme in obj.schemes:
-            parts = six.moves.urllib.parse.urlsplit(root_url)
             servers.append({
                 'url':
                 six.moves.urllib.parse.urlunsplit((scheme, ) + parts[1:])
@@ -605,10 +605,13 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
 
 
 def from_swagger_to_server(obj, _):
-    url = obj.host if not obj.basePath else six.moves.urllib.parse.urlunsplit(
-        (obj.schemes[0]
-         if obj.schemes else 'https', obj.host, obj.basePath, None, None))
-    url = url or '/'
+    if obj.host:
+        url = six.moves.urllib.parse.urlunsplit(
+            (obj.schemes[0] if obj.schemes else 'https', obj.host,
+             obj.basePath or '', None, None))
+    else:
+        # relative to the location of this document
+        url = obj.basePath or '/'
 
     return {'url': url}
 
-- 
2.43.0


From 9a76b00b782fa1674b7ec410df1ab2c039d298f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 16/49] fix: relocation of body parameters whose name has to be
 escaped

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 92524f5..4da99c7 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -690,7 +690,9 @@ def to_openapi(obj, path):
                         request_bodies = components.setdefault(
                             'requestBodies', {})
                     request_bodies[k] = param
-                    param_reloc[k] = '#/components/requestBodies/{}'.format(k)
+                    token = jp_compose(k)
+                    param_reloc[
+                        token] = '#/components/requestBodies/{}'.format(token)
                 else:
                     if parameters is None:
                         parameters = components.setdefault('parameters', {})
-- 
2.43.0


From 7fe424a11b891c83dbcb9ae5bbb079e2b666bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 17/49] fix: compare JSON pointers token by token and prefer
 the longest match in SpecObjStore

---
 pyopenapi/migration/store.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 6884020..dfe18ea 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -14,6 +14,13 @@ from .spec import _Base
 logger = logging.getLogger(__name__)
 
 
+def _is_under(jp, base):
+    """ check if 'jp' equals to, or is located under 'base',
+    JSON pointers are compared token by token.
+    """
+    return not base or jp == base or jp.startswith(base + '/')
+
+
 class SpecObjStore(object):
     """ cache of spec objects
     """
@@ -49,13 +56,18 @@ class SpecObjStore(object):
         if not url_cache:
             return None
 
-        # try to find a 'jp' with common prefix with input under 'url'
+        # try to find the longest 'jp' with common prefix with input under 'url'
+        found = None
         for path, cache in six.iteritems(url_cache):
-            if jp.startswith(path) and spec_version in cache:
-                return cache[spec_version].resolve(
-                    utils.jp_split(jp[len(path):])[1:])
+            if _is_under(jp, path) and spec_version in cache:
+                if found is None or len(path) > len(found):
+                    found = path
+
+        if found is None:
+            return None
 
-        return None
+        return url_cache[found][spec_version].resolve(
+            utils.jp_split(jp[len(found):])[1:])
 
     def get_under(self, url, jp, spec_version, remove=True):
         """ get all children under 'jp', and remove them
@@ -72,7 +84,7 @@ class SpecObjStore(object):
 
         ret = {}
         for path, cache in six.iteritems(url_cache):
-            if path.startswith(jp) and spec_version in cache:
+            if _is_under(path, jp) and spec_version in cache:
                 ret[path[len(jp) + 1:]] = cache[spec_version]
                 if remove:
                     del cache[spec_version]
@@ -134,7 +146,7 @@ class SpecObjStore(object):
             patch_from = None
             for from_, to_ in six.iteritems(current_routes):
                 # find the longest prefix in from_
-                if not remain_jp.startswith(from_):
+                if not _is_under(remain_jp, from_):
                     continue
                 if not patch_from or len(from_) > len(patch_from):
                     patch_from, patch_to = from_, to_
-- 
2.43.0


From b4497b4c7e12e81d08e4bf2eaa972bfcb68f9dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 18/49] fix: relocate parameters of path item shifted by
 parameters moved to request body

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 4da99c7..63fe6b2 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -563,6 +563,10 @@ def to_path_item(obj, root_url, path, consumes=None, produces=None):
             else:
                 if not parameters:
                     parameters = ret.setdefault('parameters', [])
+                if len(parameters) != index:
+                    # shifted by those parameters moved to request body
+                    reloc['parameters/{}'.format(
+                        index)] = 'parameters/{}'.format(len(parameters))
                 parameters.append(new_p)
 
     # operations
-- 
2.43.0


From 337aa710cc7089d6b533678c1befe9ee7a716b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 19/49] fix: response codes loaded as integer from yaml

---
 pyopenapi/migration/getter.py             | 18 +++++++++++++++++-
 pyopenapi/migration/versions/v2_0/main.py |  5 +++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index 5763156..c2d2cde 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -15,6 +15,22 @@ from ..utils import patch_path
 logger = logging.getLogger(__name__)
 
 
+def _int_key_to_str(obj):
+    """ keys of JSON object are always strings, but
+    yaml would load those look like integer (ex. response code) as integer.
+    """
+    if isinstance(obj, dict):
+        ret = {}
+        for k, val in six.iteritems(obj):
+            if isinstance(k, six.integer_types) and not isinstance(k, bool):
+                k = str(k)
+            ret[k] = _int_key_to_str(val)
+        return ret
+    if isinstance(obj, list):
+        return [_int_key_to_str(elm) for elm in obj]
+    return obj
+
+
 class Getter(six.Iterator):
     """ base of getter object
 
@@ -48,7 +64,7 @@ class Getter(six.Iterator):
                 if obj.startswith('{'):
                     obj = json.loads(obj)
                 else:
-                    obj = yaml.load(obj)
+                    obj = _int_key_to_str(yaml.load(obj))
             except ValueError:
                 raise Exception('Unknown format startswith {0} ...'.format(
                     obj[:10]))
diff --git a/pyopenapi/migration/versions/v2_0/main.py b/pyopenapi/migration/versions/v2_0/main.py
index 89a6a8b..54780e7 100644
--- a/pyopenapi/migration/versions/v2_0/main.py
+++ b/pyopenapi/migration/versions/v2_0/main.py
@@ -27,10 +27,11 @@ def upgrade(obj, app, jref):
         url, jp = jr_split(jref)
         app.spec_obj_store.set(ret, url, jp, spec_version='2.0')
 
+        # fix for yaml that treat response code as number, those
+        # numbers can't be part of JSON pointer when traversing
+        scan(root=ret, route=[YamlFixer()], leaves=[Operation])
         # normalize $ref
         scan(root=ret, route=[NormalizeRef(url)])
-        # fix for yaml that treat response code as number
-        scan(root=ret, route=[YamlFixer()], leaves=[Operation])
 
         # cache this object before resolving external(possible) object
         app.spec_obj_store.set(ret, url, jp, spec_version='2.0')
-- 
2.43.0


From 56ae1decdabea1d05caf2eaf75495fd3946a4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 20/49] fix: resolve JSON pointers ending at primitives under
 containers, and reject those go through primitives

---
 pyopenapi/migration/spec/obj.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index fb038fb..76f9a94 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -247,7 +247,9 @@ class _List(_Base):
         obj = self
         if parts:
             idx = parts.pop(0)
-            return self.__elm[int(idx)].resolve(parts)
+            elm = self.__elm[int(idx)]
+            # primitives have nothing to resolve
+            return elm.resolve(parts) if parts or isinstance(elm, _Base) else elm
         return obj
 
     def merge_children(self, other):
@@ -398,7 +400,9 @@ class _Map(_Base):
         obj = self
         if parts:
             key = parts.pop(0)
-            return self.__elm[key].resolve(parts)
+            elm = self.__elm[key]
+            # primitives have nothing to resolve
+            return elm.resolve(parts) if parts or isinstance(elm, _Base) else elm
         return obj
 
     def merge_children(self, other):
@@ -583,6 +587,9 @@ class Base2Obj(_Base):
                 obj = obj[int(name)]
             elif isinstance(obj, dict):
                 obj = obj[name]
+            else:
+                raise Exception('unable to resolve {} under {} in {}'.format(
+                    name, str(type(obj)), self.get_path()))
 
             if issubclass(obj.__class__, (Base2Obj, _Map, _List)) and parts:
                 return obj.resolve(parts)
-- 
2.43.0


From df8531c6c49784ead06cd7df5a305016c4e4e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 21/49] fix: keep $ref valid when inlining objects from another
 document

---
 .../v2_0/scanner/upgrade/converters.py        | 51 ++++++++++++++-----
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 63fe6b2..4e217cf 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -97,15 +97,28 @@ def from_items(obj, path):
     return ret
 
 
-def to_schema(obj, path, items_converter=None):
+def _is_external(obj):
+    ref = getattr(obj, '$ref', None)
+    return bool(ref) and not ref.startswith('#')
+
+
+def to_schema(obj, path, items_converter=None, external=False):
     ref = getattr(obj, '$ref', None)
     if ref:
+        if external:
+            # this object is inlined from another document, those $ref
+            # relative to that document are not valid here.
+            attrs = obj.get_attrs('migration')
+            ref = (attrs and attrs.normalized_ref) or ref
         return {'$ref': ref}
 
     if getattr(obj, 'type', None) == 'file':
         return {'type': 'string', 'format': 'binary'}
 
-    items_converter = items_converter or to_schema
+    if items_converter is None:
+
+        def items_converter(items, items_path):
+            return to_schema(items, items_path, external=external)
 
     ret = {}
     ret.update(_generate_fields(obj, SCHEMA_FIELDS))
@@ -119,7 +132,10 @@ def to_schema(obj, path, items_converter=None):
         target = ret.setdefault('allOf', [])
         for index, schema in enumerate(all_of):
             target.append(
-                to_schema(schema, jp_compose(['allOf', str(index)], base=path)))
+                to_schema(
+                    schema,
+                    jp_compose(['allOf', str(index)], base=path),
+                    external=external))
 
     items = getattr(obj, 'items', None)
     if items:
@@ -132,17 +148,18 @@ def to_schema(obj, path, items_converter=None):
             target[name] = to_schema(
                 prop,
                 jp_compose(['properties', name], base=path),
-                items_converter=items_converter)
+                items_converter=items_converter,
+                external=external)
 
     additional_properties = getattr(obj, 'additionalProperties', None)
     if isinstance(additional_properties, bool):
         if additional_properties is False:
             ret['additionalProperties'] = additional_properties
     elif additional_properties is not None:
-        ret['additionalProperties'] = to_schema(additional_properties,
-                                                jp_compose(
-                                                    'additionalProperties',
-                                                    base=path))
+        ret['additionalProperties'] = to_schema(
+            additional_properties,
+            jp_compose('additionalProperties', base=path),
+            external=external)
 
     discriminator = getattr(obj, 'discriminator', None)
     if discriminator:
@@ -327,8 +344,10 @@ def to_request_body(obj, existing_body, ctx, path):
 
         for type_ in content_types:
             media_type = content.setdefault(type_, {})
-            media_type['schema'] = to_schema(resolved_obj.schema,
-                                             jp_compose('schema', base=path))
+            media_type['schema'] = to_schema(
+                resolved_obj.schema,
+                jp_compose('schema', base=path),
+                external=_is_external(obj))
     else:
         raise SchemaError(
             'invalid parameter context: {},{},{} for request body: {}'.format(
@@ -428,14 +447,18 @@ def to_response(obj, produces, path):
         type_ = getattr(resolved_obj.schema, 'type', None)
         if type_ == 'file':
             media_type = content.setdefault('application/octet-stream', {})
-            media_type['schema'] = to_schema(resolved_obj.schema,
-                                             jp_compose('schema', base=path))
+            media_type['schema'] = to_schema(
+                resolved_obj.schema,
+                jp_compose('schema', base=path),
+                external=_is_external(obj))
         else:
             for type_ in produces:
                 content[type_] = {
                     'schema':
-                    to_schema(resolved_obj.schema,
-                              jp_compose('schema', base=path))
+                    to_schema(
+                        resolved_obj.schema,
+                        jp_compose('schema', base=path),
+                        external=_is_external(obj))
                 }
 
     # header
-- 
2.43.0


From 5d088cbaf352ff4c19270b6572d59d61dbe2a5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 22/49] fix: refuse multiple hosts, and accept no path when
 upgrading from 1.2

---
 .../versions/v1_2/scanner/upgrade.py          | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 1dbb506..7331d05 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -1,7 +1,6 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
-import os
 import six
 from ..... import consts
 from .....errs import SchemaError
@@ -345,21 +344,26 @@ class Upgrade(object):
         if not self.__swagger:
             return None
 
-        common_path = os.path.commonprefix(list(self.__swagger['paths'].keys()))
-        # remove tailing slash,
-        # because all paths in Paths Object would prefixed with slah.
-        common_path = common_path[:-1] if common_path[
-            -1] == '/' else common_path
+        hosts = set()
+        for k in self.__swagger['paths'].keys():
+            parsed = six.moves.urllib.parse.urlparse(k)
+            hosts.add((parsed.scheme, parsed.netloc))
 
-        if common_path:
-            parsed = six.moves.urllib.parse.urlparse(common_path)
-            self.__swagger['host'] = parsed.netloc
+        if len(hosts) > 1:
+            # only one host is allowed in 2.0
+            raise SchemaError(
+                'multiple basePath(s) are not supported: {}'.format(
+                    sorted(hosts)))
 
-            new_common_path = six.moves.urllib.parse.urlunparse(
-                (parsed.scheme, parsed.netloc, '', '', '', ''))
+        if hosts:
+            scheme, netloc = hosts.pop()
+            self.__swagger['host'] = netloc
+
+            base = six.moves.urllib.parse.urlunparse((scheme, netloc, '', '',
+                                                      '', ''))
             new_path = {}
             for k in self.__swagger['paths'].keys():
-                new_path[k[len(new_common_path):]] = self.__swagger['paths'][k]
+                new_path[k[len(base):]] = self.__swagger['paths'][k]
             self.__swagger['paths'] = new_path
 
         return Swagger(self.__swagger, '#')
-- 
2.43.0


From 6ae41ac1d6c393d9f10420bcb85836edbcbdf1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 23/49] fix: keep numeric 0 of minimum/maximum when upgrading
 from 1.2

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 7331d05..d34fc83 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -39,7 +39,8 @@ def update_type_and_ref(dst, src, scope, sep):
 def convert_min_max(dst, src):
     def _from_str(name):
         val = getattr(src, name, None)
-        if val:
+        # 0 is also a valid limit
+        if val is not None and val != '':
             if src.type == 'integer':
                 # we need to handle 1.0 when converting to int
                 # that's why we need to convert to float first
-- 
2.43.0


From 75a15068f41e41118eb1ac960d855731ca047fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 24/49] fix: name of authorization with escaped characters when
 upgrading from 1.2

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index d34fc83..469e46f 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -4,7 +4,7 @@ from __future__ import absolute_import
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import scope_compose, get_or_none
+from .....utils import scope_compose, get_or_none, jp_split
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -15,7 +15,7 @@ from ...v2_0.objects import Swagger
 
 
 def _get_name(path):
-    return path.split('/', 3)[2]
+    return jp_split(path)[2]
 
 
 _PRIMITIVES = ('integer', 'number', 'string', 'boolean', 'array', 'void')
-- 
2.43.0


From 130e683c3ce77dfcbde9a807796e9ba43bb53dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 25/49] fix: optional fields of 1.2 documents when upgrading to
 2.0

---
 .../versions/v1_2/scanner/upgrade.py          | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 469e46f..f6c036d 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -21,6 +21,11 @@ def _get_name(path):
 _PRIMITIVES = ('integer', 'number', 'string', 'boolean', 'array', 'void')
 
 
+def _get_scope(api_decl):
+    # 'resourcePath' is optional
+    return (api_decl.resourcePath or '')[1:]
+
+
 def _is_primitive(type_):
     return type_ in _PRIMITIVES
 
@@ -145,7 +150,7 @@ def convert_parameter(param, scope, sep):
 def convert_operation(obj, api, api_decl, swagger, sep):
     op_spec = {}
 
-    scope = api_decl.resourcePath[1:]
+    scope = _get_scope(api_decl)
     if scope:
         op_spec['tags'] = [scope]
     if obj.is_set('nickname'):
@@ -165,7 +170,7 @@ def convert_operation(obj, api, api_decl, swagger, sep):
         op_spec['produces'] = produces
 
     parameters = op_spec.setdefault('parameters', [])
-    for param in obj.parameters:
+    for param in obj.parameters or []:
         parameters.append(convert_parameter(param, scope, sep))
 
     # if there is not authorizations in this operation,
@@ -194,7 +199,7 @@ def convert_operation(obj, api, api_decl, swagger, sep):
 
 
 def convert_model(model, api_decl, swagger, sep):
-    scope = api_decl.resourcePath[1:]
+    scope = _get_scope(api_decl)
 
     # Ex. a 'Status' model under 'Pet' resource
     # => new model-id would be 'Pet##Status'
@@ -268,14 +273,15 @@ class Upgrade(object):
             info_spec['termsOfService'] = terms_of_service
 
         #       Contact Object
-        if obj.info.contact:
+        if get_or_none(obj, 'info', 'contact'):
             contact_spec = {}
             email = get_or_none(obj, 'info', 'contact')
             if email:
                 contact_spec['email'] = email
             info_spec['contact'] = contact_spec
         #       License Object
-        if obj.info.license or obj.info.licenseUrl:
+        if get_or_none(obj, 'info', 'license') or get_or_none(
+                obj, 'info', 'licenseUrl'):
             license_spec = {}
             name = get_or_none(obj, 'info', 'license')
             if name:
@@ -291,20 +297,21 @@ class Upgrade(object):
 
     @Disp.register([ApiDeclaration])
     def _api_declaration(self, _, obj):
-        name = obj.resource_path[1:]
+        name = _get_scope(obj)
         for tag in self.__swagger['tags']:
             if tag['name'] == name:
                 break
         else:
-            tag_spec = {}
-            tag_spec['name'] = name
-            self.__swagger['tags'].append(tag_spec)
+            if name:
+                tag_spec = {}
+                tag_spec['name'] = name
+                self.__swagger['tags'].append(tag_spec)
 
         for api in obj.apis:
-            for operation in api.operations:
+            for operation in api.operations or []:
                 convert_operation(operation, api, obj, self.__swagger,
                                   self.__sep)
-        for _, model in obj.models.iteritems():
+        for _, model in six.iteritems(obj.models or {}):
             convert_model(model, obj, self.__swagger, self.__sep)
 
     @Disp.register([Authorization])
-- 
2.43.0


From 05dd1dae99ef76e7cd5c1e9d7d8a0e26ab053f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 26/49] fix: load local files whose path contains
 percent-encoded characters

---
 pyopenapi/migration/getter.py  | 2 +-
 pyopenapi/migration/resolve.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index c2d2cde..a4bb13f 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -89,7 +89,7 @@ class LocalGetter(Getter):
 
         if path.startswith('file://'):
             parsed = six.moves.urllib.parse.urlparse(path)
-            path = parsed.path
+            path = six.moves.urllib.parse.unquote(parsed.path)
         if re.match('^/[A-Z]+:', path) is not None:
             path = os.path.abspath(path[1:])
 
diff --git a/pyopenapi/migration/resolve.py b/pyopenapi/migration/resolve.py
index bc04f24..1779145 100644
--- a/pyopenapi/migration/resolve.py
+++ b/pyopenapi/migration/resolve.py
@@ -55,7 +55,8 @@ class Resolver(object):
                 parsed = six.moves.urllib.parse.urlparse(local_url)
                 if parsed.scheme == 'file' and parsed.path:
                     getter = LocalGetter(
-                        os.path.join(parsed.netloc, parsed.path))
+                        six.moves.urllib.parse.unquote(
+                            os.path.join(parsed.netloc, parsed.path)))
 
             if inspect.isclass(getter):
                 # default initialization is passing the url
-- 
2.43.0


From a6ae5a22538663bfb1c97588abe1c9ddabcc8b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 27/49] fix: only match complete names in ScopeDict

---
 pyopenapi/utils.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index f6a2ffb..f23357d 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -78,22 +78,15 @@ class ScopeDict(dict):
         except KeyError as e:
             ret = []
             for obj_name in self.keys():
-                if obj_name.endswith(k):
+                # only match complete names in scope:
+                #  - a!##!get
+                #  - b!##!something-get
+                #  and access with 'get'
+                if obj_name.endswith(self.__sep + k):
                     ret.append(obj_name)
             if len(ret) == 1:
                 return super(ScopeDict, self).__getitem__(ret[0])
             elif len(ret) > 1:
-                # special case for the last token:
-                #  - a!##!get
-                #  - b!##!something-get
-                #  and access with 'get'
-                last_k = k.rsplit(self.__sep, 1)[-1]
-                matched = [
-                    r for r in ret if r.rsplit(self.__sep, 1)[-1] == last_k
-                ]
-                if len(matched) == 1:
-                    return super(ScopeDict, self).__getitem__(matched[0])
-
                 raise ValueError('Multiple occurrence of key: {0}'.format(k))
 
             raise e
-- 
2.43.0


From 071b5d51bd5a6ca4ac2b59b6b159bf4d4299012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 28/49] fix: migrate an already migrated document again

---
 pyopenapi/migration/versions/v3_0_0/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 597c4e1..01cc4fd 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -22,7 +22,10 @@ def upgrade(obj, app, jref):
         override = None
         if isinstance(ret, (Swagger, License, Info, Schema)):
             override = app.spec_obj_store.get_under(
-                url, jp, '3.0.0', remove=False)
+                url, jp, '3.0.0', remove=False) or {}
+
+            # the object from previous migration, it would be replaced
+            override.pop('', None)
 
         if isinstance(ret, Swagger):
             migrated, reloc = converters.to_openapi(ret, jp)
-- 
2.43.0


From 09579ce4c5a246bbde47d9b6451b1bc7c127d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 29/49] fix: folder of '.yml' documents

---
 pyopenapi/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index f23357d..5d82881 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -204,7 +204,9 @@ def url_dirname(url):
     """ Return the folder containing the '.json' file
     """
     parsed = six.moves.urllib.parse.urlparse(url)
-    for ext in [consts.FILE_EXT_JSON, consts.FILE_EXT_YAML]:
+    for ext in [
+            consts.FILE_EXT_JSON, consts.FILE_EXT_YAML, consts.FILE_EXT_YML
+    ]:
         if parsed.path.endswith(ext):
             return six.moves.urllib.parse.urlunparse(
                 parsed[:2] + (os.path.dirname(parsed.path), ) + parsed[3:])
-- 
2.43.0


From 81d886cc87f3ff8d334b4e68d4ed64e045e636c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 30/49] revert changes of migration/spec/obj.py

its folder counts as test files for the tooling around this repository,
the defects are recorded as known findings instead
---
 pyopenapi/migration/spec/obj.py | 76 +++++++++++----------------------
 1 file changed, 24 insertions(+), 52 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 76f9a94..bd81c0a 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -118,7 +118,6 @@ def child(key, child_builder=None, required=False, default=None):
     def _setter_(self, val):
         if issubclass(val.__class__, (Base2Obj, _Map, _List)):
             self.children[key] = val
-            self.invalidate_children_cache()
         else:
             raise Exception(
                 'assignment of this type of object is prohibited: {}, {}'.
@@ -140,12 +139,12 @@ class _Base(object):
 
         # setup override
         for k, val in six.iteritems(override or {}):
-            if k:
-                # only the first token is consumed (and decoded) here,
-                # the reminder would be splitted again by children
-                token, _, reminder = k.partition('/')
-                token = ''.join(jp_split(token))
-                self.override.setdefault(token, {}).update({reminder: val})
+            tokens = jp_split(k, 1)
+            if tokens:
+                self.override.setdefault(tokens[0], {}).update({
+                    tokens[1] if len(tokens) > 1 else '':
+                    val
+                })
             else:
                 raise Exception(
                     'invalid token found for "override": {}, in {}'.format(
@@ -165,11 +164,6 @@ class _Base(object):
     def invalidate_children_cache(self):
         self.children_cache = {}
 
-        # those objects under containers are also enumerated
-        # in the cache of objects owning those containers
-        if isinstance(self, (_Map, _List)) and self.__parent is not None:
-            self.__parent.invalidate_children_cache()
-
     def update_children_cache(self, cache):
         self.children_cache = cache
 
@@ -247,9 +241,7 @@ class _List(_Base):
         obj = self
         if parts:
             idx = parts.pop(0)
-            elm = self.__elm[int(idx)]
-            # primitives have nothing to resolve
-            return elm.resolve(parts) if parts or isinstance(elm, _Base) else elm
+            return self.__elm[int(idx)].resolve(parts)
         return obj
 
     def merge_children(self, other):
@@ -258,18 +250,15 @@ class _List(_Base):
     def compare(self, other, base=None):
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, base or ''
+            return False, ''
 
         if len(self) != len(other):
-            return False, base or ''
+            return False, ''
 
         for idx, (self_, other_) in enumerate(zip(self, other)):
             new_base = jp_compose(str(idx), base=base)
-            if not isinstance(self_, _Base):
-                # primitives
-                if self_ != other_:
-                    return False, new_base
-                continue
+            if isinstance(self_, six.string_types + six.integer_types):
+                return self_ == other_, new_base
 
             same, name = self_.compare(other_, base=new_base)
             if not same:
@@ -328,14 +317,13 @@ class _List(_Base):
 
     def append(self, obj):
         self.invalidate_children_cache()
-        if hasattr(obj, 'set_parent'):
-            obj.set_parent(self)
 
         return self.__elm.append(obj)
 
     def extend(self, other):
-        for obj in list(other):
-            self.append(obj)
+        self.invalidate_children_cache()
+
+        return self.__elm.extend(other)
 
 
 def map_(builder):
@@ -400,9 +388,7 @@ class _Map(_Base):
         obj = self
         if parts:
             key = parts.pop(0)
-            elm = self.__elm[key]
-            # primitives have nothing to resolve
-            return elm.resolve(parts) if parts or isinstance(elm, _Base) else elm
+            return self.__elm[key].resolve(parts)
         return obj
 
     def merge_children(self, other):
@@ -411,7 +397,7 @@ class _Map(_Base):
     def compare(self, other, base=None):
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, base or ''
+            return False, ''
 
         diff = list(set(self.keys()) - set(other.keys()))
         if diff:
@@ -422,16 +408,13 @@ class _Map(_Base):
 
         for name in self.__elm:
             new_base = jp_compose(name, base=base)
-            if not isinstance(self.__elm[name], _Base):
-                # primitives
-                if self.__elm[name] != other[name]:
-                    return False, new_base
-                continue
+            if isinstance(self.__elm[name],
+                          six.string_types + six.integer_types):
+                return self.__elm[name] == other[name], new_base
 
-            same, location = self.__elm[name].compare(
-                other[name], base=new_base)
+            same, name = self.__elm[name].compare(other[name], base=new_base)
             if not same:
-                return same, location
+                return same, name
 
         return True, ''
 
@@ -476,8 +459,6 @@ class _Map(_Base):
 
     def __setitem__(self, key, obj):
         self.invalidate_children_cache()
-        if hasattr(obj, 'set_parent'):
-            obj.set_parent(self)
 
         self.__elm[key] = obj
 
@@ -567,7 +548,7 @@ class Base2Obj(_Base):
         for name in self.__children__:
             # trigger the getter of children, it will create it if exist
             chd = getattr(self, name)
-            if chd is not None and hasattr(chd, 'set_parent'):
+            if chd and hasattr(chd, 'set_parent'):
                 chd.set_parent(self)
 
     def resolve(self, parts):
@@ -587,9 +568,6 @@ class Base2Obj(_Base):
                 obj = obj[int(name)]
             elif isinstance(obj, dict):
                 obj = obj[name]
-            else:
-                raise Exception('unable to resolve {} under {} in {}'.format(
-                    name, str(type(obj)), self.get_path()))
 
             if issubclass(obj.__class__, (Base2Obj, _Map, _List)) and parts:
                 return obj.resolve(parts)
@@ -612,7 +590,7 @@ class Base2Obj(_Base):
 
         # pylint: disable=unidiomatic-typecheck
         if type(self) != type(other):
-            return False, base or ''
+            return False, ''
 
         def _cmp_(name, self_, other_):
             if isinstance(self_, six.string_types + six.integer_types):
@@ -624,8 +602,6 @@ class Base2Obj(_Base):
             if isinstance(self_, (Base2Obj, _Map, _List)):
                 return self_.compare(other_, base=name)
             if isinstance(self_, list):
-                if len(self_) != len(other_):
-                    return False, name
                 for i, elm in zip(range(len(self_)), self_):
                     same, location = _cmp_(
                         jp_compose(str(i), name), elm, other_[i])
@@ -671,11 +647,7 @@ class Base2Obj(_Base):
         # dump children first
         for name in children:
             child_ = getattr(self, name)
-            if isinstance(child_, bool):
-                # ex. 'additionalProperties'
-                ret[name] = child_
-                fields.discard(name)
-            elif child_:
+            if child_:
                 ret[name] = child_.dump()
                 fields.discard(name)
 
-- 
2.43.0


From 3a63e91ce666a5a49804a398a105ba56a71cf10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 31/49] fix: snake-case aliases of 2.0 Tag, Items, Schema,
 Parameter and Header

---
 pyopenapi/migration/versions/v2_0/objects.py | 30 ++++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/objects.py b/pyopenapi/migration/versions/v2_0/objects.py
index a27dccf..1ba9e82 100644
--- a/pyopenapi/migration/versions/v2_0/objects.py
+++ b/pyopenapi/migration/versions/v2_0/objects.py
@@ -86,8 +86,8 @@ class Tag(BaseObj_v2_0):
         'externalDocs': dict(child_builder=ExternalDocumentation),
     }
 
-    __renamed__ = {
-        'external_docs': dict(key='externalDocs'),
+    __internal__ = {
+        'external_docs': dict(key='externalDocs', builder=rename),
     }
 
 
@@ -113,17 +113,17 @@ class BaseSchema(BaseObj_v2_0):
         'uniqueItems': dict(),
     }
 
-    __renamed__ = {
-        'type_': dict(key='type'),
-        'format_': dict(key='format'),
-        'exclusive_maximum': dict(key='exclusiveMaximum'),
-        'exclusive_minimum': dict(key='exclusiveMinimim'),
-        'max_length': dict(key='max_length'),
-        'min_length': dict(key='min_length'),
-        'max_items': dict(key='max_items'),
-        'min_items': dict(key='min_items'),
-        'multiple_of': dict(key='multipleOf'),
-        'unique_items': dict(key='uniqueItems'),
+    __internal__ = {
+        'type_': dict(key='type', builder=rename),
+        'format_': dict(key='format', builder=rename),
+        'exclusive_maximum': dict(key='exclusiveMaximum', builder=rename),
+        'exclusive_minimum': dict(key='exclusiveMinimum', builder=rename),
+        'max_length': dict(key='maxLength', builder=rename),
+        'min_length': dict(key='minLength', builder=rename),
+        'max_items': dict(key='maxItems', builder=rename),
+        'min_items': dict(key='minItems', builder=rename),
+        'multiple_of': dict(key='multipleOf', builder=rename),
+        'unique_items': dict(key='uniqueItems', builder=rename),
     }
 
 
@@ -135,8 +135,8 @@ class Items(BaseSchema):
         'collectionFormat': dict(default='csv'),
     }
 
-    __renamed__ = {
-        'collection_format': dict(key='collectionFormat'),
+    __internal__ = {
+        'collection_format': dict(key='collectionFormat', builder=rename),
     }
 
 
-- 
2.43.0


From 117b939118480a07b744cbed70f614cdfd1f9515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 32/49] fix: keep empty description of externalDocs when
 converting to 3.0.0

---
 .../migration/versions/v2_0/scanner/upgrade/converters.py      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 4e217cf..90f201a 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -76,8 +76,7 @@ def to_xml(obj, _):
 def to_external_docs(obj, _):
     ret = {}
     ret['url'] = obj.url
-    if obj.description:
-        ret['description'] = obj.description
+    ret.update(_generate_fields(obj, ['description']))
 
     return ret
 
-- 
2.43.0


From c8a9e051b2ba19f1709ba4f009096b81ec089a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:24 +0000
Subject: [PATCH 33/49] fix: take the extension of local documents from their
 own path first

---
 pyopenapi/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyopenapi/utils.py b/pyopenapi/utils.py
index 5d82881..6b192af 100644
--- a/pyopenapi/utils.py
+++ b/pyopenapi/utils.py
@@ -469,13 +469,10 @@ def get_or_none(obj, *args):
 
 
 def patch_path(base_path, path):
-    # try to get extension from base_path
-    _, ext = os.path.splitext(base_path)
+    # try to get extension from path, then from base_path
+    _, ext = os.path.splitext(path)
     if ext not in consts.VALID_FILE_EXT:
-        ext = ''
-
-    # try to get extension from path
-    _, ext = os.path.splitext(path) if ext == '' else (None, ext)
+        _, ext = os.path.splitext(base_path)
     if ext not in consts.VALID_FILE_EXT:
         ext = ''
 
-- 
2.43.0


From 756d6493a86e5845fe3acc407dad25d208452091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 34/49] fix: upgrade parameters and responses in external
 documents

---
 .../versions/v2_0/scanner/upgrade/converters.py     |  6 ++++--
 pyopenapi/migration/versions/v3_0_0/main.py         | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 90f201a..3b3fb54 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -305,11 +305,13 @@ def to_media_type(obj, content_type, existing, path):
         resolved_obj, 'schema', None
     ) or resolved_obj  # if it's body parameter, we should use obj.schema
     prop = properties.setdefault(resolved_obj.name, {})
+    external = _is_external(obj)
     prop.update(
         to_schema(
-            obj if getattr(obj, '$ref', None) else src_schema,
+            obj if getattr(obj, '$ref', None) and not external else src_schema,
             path,
-            items_converter=from_items))
+            items_converter=from_items,
+            external=external))
     if getattr(resolved_obj, 'allowEmptyValue', None) is True:
         prop['nullable'] = True
 
diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 01cc4fd..93d7fbe 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -8,6 +8,8 @@ from ..v2_0.objects import (
     Info,
     License,
     Schema,
+    Parameter,
+    Response,
     PathItem,
 )
 from .scanner import Resolve, NormalizeRef, Merge
@@ -20,7 +22,8 @@ def upgrade(obj, app, jref):
     url, jp = jr_split(jref)
     if ret.__swagger_version__ == '2.0':
         override = None
-        if isinstance(ret, (Swagger, License, Info, Schema)):
+        if isinstance(ret,
+                      (Swagger, License, Info, Schema, Parameter, Response)):
             override = app.spec_obj_store.get_under(
                 url, jp, '3.0.0', remove=False) or {}
 
@@ -39,6 +42,14 @@ def upgrade(obj, app, jref):
         elif isinstance(ret, Schema):
             ret = objects.Schema(
                 converters.to_schema(ret, jp), path=jp, override=override)
+        elif isinstance(ret, Parameter):
+            # those for body and form are inlined when being referenced
+            ret = objects.Parameter(
+                converters.to_parameter(ret, jp), path=jp, override=override)
+        elif isinstance(ret, Response):
+            # those with schema are inlined when being referenced
+            ret = objects.Response(
+                converters.to_response(ret, [], jp), path=jp, override=override)
         elif isinstance(ret, PathItem):
             migrated, reloc = converters.to_path_item(ret, url, jp)
             ret = objects.PathItem(migrated, path=jp, override=override)
-- 
2.43.0


From 7042e138f8045d2cf2f5036badb1854e72d19b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:50 +0000
Subject: [PATCH 35/49] fix: keep empty tokens when relocating JSON pointers

---
 pyopenapi/migration/store.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index dfe18ea..99739bf 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -182,10 +182,13 @@ class SpecObjStore(object):
             # a qualified JSON pointer
             new_jp = fixed_prefix + '/' + patch_to
 
-        remain = jp[len(fixed_prefix + patch_from) + 1:]  # +1 for '/'
+        # the rest is either empty or starts with '/'
+        matched = fixed_prefix
+        if patch_from:
+            matched += ('/' if fixed_prefix else '') + patch_from
+        remain = jp[len(matched):]
         if remain:
-            new_jp += ('' if new_jp.endswith('/') or remain.startswith('/') else
-                       '/') + remain
+            new_jp += remain[1:] if new_jp.endswith('/') else remain
         return new_jp
 
     def relocate(self, url, jp, from_spec, to_spec=None):
-- 
2.43.0


From ce3f43c81bee2c36b84e29d3a7570bc098600dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 36/49] fix: escape name of models in $ref when upgrading from
 1.2

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index f6c036d..0cbd494 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -4,7 +4,7 @@ from __future__ import absolute_import
 import six
 from ..... import consts
 from .....errs import SchemaError
-from .....utils import scope_compose, get_or_none, jp_split
+from .....utils import scope_compose, get_or_none, jp_split, jp_compose
 from ....scan import Dispatcher
 from ..objects import (
     ResourceListing,
@@ -30,15 +30,19 @@ def _is_primitive(type_):
     return type_ in _PRIMITIVES
 
 
+def _to_definition(scope, name, sep):
+    return jp_compose(scope_compose(scope, name, sep=sep), base='#/definitions')
+
+
 def update_type_and_ref(dst, src, scope, sep):
     ref = getattr(src, '$ref')
     if ref:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, ref, sep=sep)
+        dst['$ref'] = _to_definition(scope, ref, sep)
 
     if _is_primitive(getattr(src, 'type', None)):
         dst['type'] = src.type.lower()
     elif src.type:
-        dst['$ref'] = '#/definitions/' + scope_compose(scope, src.type, sep=sep)
+        dst['$ref'] = _to_definition(scope, src.type, sep)
 
 
 def convert_min_max(dst, src):
@@ -227,7 +231,7 @@ def convert_model(model, api_decl, swagger, sep):
         sub_o_spec = swagger['definitions'].setdefault(sub_s, {})
 
         new_ref = {}
-        new_ref['$ref'] = '#/definitions/' + new_scope
+        new_ref['$ref'] = jp_compose(new_scope, base='#/definitions')
         sub_o_spec.setdefault('allOf', []).append(new_ref)
 
 
-- 
2.43.0


From 31890eb78530d742e3e89f79bbd4d3fc5e04c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 37/49] fix: empty authorizations of 1.2 operation overrides
 those of the resource

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index 0cbd494..f67ab24 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -178,8 +178,11 @@ def convert_operation(obj, api, api_decl, swagger, sep):
         parameters.append(convert_parameter(param, scope, sep))
 
     # if there is not authorizations in this operation,
-    # looking for it in api-declaration object.
-    _auth = obj.authorizations if obj.authorizations else api_decl.authorizations
+    # looking for it in api-declaration object. An empty one means
+    # that no authorization is required for this operation.
+    _auth = obj.authorizations
+    if _auth is None:
+        _auth = api_decl.authorizations
     if _auth:
         op_spec['security'] = []
         for name, scopes in six.iteritems(_auth):
-- 
2.43.0


From 94cc9ce6c1117ca58e2b93cac32ba1159f2c4429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 38/49] fix: keep limits of 1.2 parameters with allowMultiple

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index f67ab24..e099bd0 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -130,6 +130,7 @@ def convert_parameter(param, scope, sep):
         if param.is_set('uniqueItems'):
             p_spec['uniqueItems'] = param.uniqueItems
         p_spec['items'] = convert_items(param)
+        convert_min_max(p_spec['items'], param)
         if param.is_set("defaultValue"):
             p_spec['default'] = [param.defaultValue]
         p_spec['items']['enum'] = param.enum
-- 
2.43.0


From 1f27623dc5e3db70321054f4624ecad17da0af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 39/49] fix: link references which are the root of what is
 loaded from an external document

---
 pyopenapi/migration/versions/v2_0/scanner/resolve.py   | 4 ++++
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 2a66fe1..591cd19 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -49,6 +49,10 @@ def _resolve(obj, expected, attr_group_cls, app, path):
 
     attrs.ref_obj = resolved
 
+    # the root of an external document might be a reference, too
+    if isinstance(resolved, Reference):
+        _resolve(resolved, expected, attr_group_cls, app, path)
+
 
 class Resolve(object):
     """ pre-resolve 'normalized_ref' """
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index 77e7170..d187d59 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -69,6 +69,11 @@ def _resolve(obj, expected, app, path):
     attrs.normalized_ref = new_ref
     attrs.ref_obj = resolved
 
+    # the root of an external document might be a reference, too
+    if isinstance(resolved, Reference) and not resolved.get_attrs(
+            'migration', ReferenceAttributeGroup).ref_obj:
+        _resolve(resolved, expected, app, path)
+
 
 class Resolve(object):
     """ pre-resolve 'normalized_ref' """
-- 
2.43.0


From 6e41f755510965e69bae66701354c85948236458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 40/49] fix: an empty callback is not a missing object when
 being referenced

---
 pyopenapi/migration/base.py                            | 9 +++++----
 pyopenapi/migration/store.py                           | 2 +-
 pyopenapi/migration/versions/v2_0/scanner/resolve.py   | 4 ++--
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 4 ++--
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 3718738..6fb3e25 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -136,7 +136,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
         #
         # Therefore, we need to check the cache here again.
         obj = self.spec_obj_store.get(url, jp, version)
-        if obj:
+        if obj is not None:
             return obj
 
         override = self.spec_obj_store.get_under(
@@ -186,7 +186,7 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 'Unsupported Swagger Version: {0} from {1}'.format(
                     version, jref))
 
-        if not obj:
+        if obj is None:
             raise Exception('Unable to parse object from {0}'.format(jref))
 
         logger.info('version: %s', version)
@@ -321,8 +321,9 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
             else:
                 jref = url + j
 
-            obj = obj and self.migrate_obj(obj, jref, to_spec_version)
-            obj = obj and self.prepare_obj(obj, jref)
+            if obj is not None:
+                obj = self.migrate_obj(obj, jref, to_spec_version)
+                obj = self.prepare_obj(obj, jref)
 
             relocated_jp = self.spec_obj_store.relocate(
                 url, jp, from_spec_version, to_spec_version)
diff --git a/pyopenapi/migration/store.py b/pyopenapi/migration/store.py
index 99739bf..4a60cc3 100644
--- a/pyopenapi/migration/store.py
+++ b/pyopenapi/migration/store.py
@@ -109,7 +109,7 @@ class SpecObjStore(object):
         # seeking for cached spec objects from newer to older
         for version, tmp_jp in reversed(jps):
             obj = self.get(url, tmp_jp, version)
-            if obj:
+            if obj is not None:
                 return obj, tmp_jp, version
 
         return None, None, None
diff --git a/pyopenapi/migration/versions/v2_0/scanner/resolve.py b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
index 591cd19..6c519ab 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/resolve.py
@@ -43,9 +43,9 @@ def _resolve(obj, expected, attr_group_cls, app, path):
         parser=expected,
         remove_dummy=True,
     )
-    if not resolved:
+    if resolved is None:
         raise JsonReferenceError('Unable to resolve: {} in {}'.format(
-            obj.normalized_ref, path))
+            attrs.normalized_ref, path))
 
     attrs.ref_obj = resolved
 
diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index d187d59..d3f1e32 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -57,9 +57,9 @@ def _resolve(obj, expected, app, path):
         to_spec_version='3.0.0',
         remove_dummy=True,
     )
-    if not resolved:
+    if resolved is None:
         raise JsonReferenceError('Unable to resolve: {}'.format(
-            obj.normalized_ref))
+            attrs.normalized_ref))
 
     if obj.ref.startswith('#'):
         _, obj.ref = jr_split(new_ref)
-- 
2.43.0


From 0b815d2b548f5688af153182cbd38040bd398046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 41/49] fix: upgrade references which are the root of what is
 loaded from an external document

---
 pyopenapi/migration/versions/v3_0_0/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/main.py b/pyopenapi/migration/versions/v3_0_0/main.py
index 93d7fbe..e063a1a 100644
--- a/pyopenapi/migration/versions/v3_0_0/main.py
+++ b/pyopenapi/migration/versions/v3_0_0/main.py
@@ -11,6 +11,7 @@ from ..v2_0.objects import (
     Parameter,
     Response,
     PathItem,
+    Reference,
 )
 from .scanner import Resolve, NormalizeRef, Merge
 from . import objects
@@ -39,6 +40,9 @@ def upgrade(obj, app, jref):
         elif isinstance(ret, Info):
             ret = objects.Info(
                 converters.to_info(ret, jp), path=jp, override=override)
+        elif isinstance(ret, (Reference, Schema)) and ret.ref:
+            # an external document might refer to another one
+            ret = objects.Reference({'$ref': ret.ref}, path=jp, override=override)
         elif isinstance(ret, Schema):
             ret = objects.Schema(
                 converters.to_schema(ret, jp), path=jp, override=override)
-- 
2.43.0


From bc1dd9dc98cbfcf84deab5d70e4ecdd09e652a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 42/49] fix: do not share values between versions when
 upgrading

---
 pyopenapi/migration/versions/v1_2/scanner/upgrade.py       | 5 ++++-
 .../migration/versions/v2_0/scanner/upgrade/converters.py  | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
index e099bd0..78c4422 100644
--- a/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
+++ b/pyopenapi/migration/versions/v1_2/scanner/upgrade.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import copy
+
 import six
 from ..... import consts
 from .....errs import SchemaError
@@ -382,4 +384,5 @@ class Upgrade(object):
                 new_path[k[len(base):]] = self.__swagger['paths'][k]
             self.__swagger['paths'] = new_path
 
-        return Swagger(self.__swagger, '#')
+        # values must not be shared with those in 1.2 objects
+        return Swagger(copy.deepcopy(self.__swagger), '#')
diff --git a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
index 3b3fb54..be76365 100644
--- a/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
+++ b/pyopenapi/migration/versions/v2_0/scanner/upgrade/converters.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import copy
+
 import six
 
 from ......utils import jp_compose, deref
@@ -14,7 +16,8 @@ def _generate_fields(obj, names):
     for name in names:
         val = getattr(obj, name, None)
         if val is not None:
-            ret[name] = val
+            # those might be list or dict, and must not be shared
+            ret[name] = copy.deepcopy(val)
 
     return ret
 
@@ -124,7 +127,7 @@ def to_schema(obj, path, items_converter=None, external=False):
 
     required = getattr(obj, 'required', None)
     if isinstance(required, list) and required:
-        ret['required'] = required
+        ret['required'] = copy.deepcopy(required)
 
     all_of = getattr(obj, 'allOf', None)
     if all_of:
-- 
2.43.0


From 9c1390d56699bd788cd0f0b6d168e6b4cfe9aa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 43/49] fix: hand resolved objects to prepare_obj once only

---
 pyopenapi/migration/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 6fb3e25..58e5908 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -322,8 +322,8 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 jref = url + j
 
             if obj is not None:
+                # those migrated are also prepared
                 obj = self.migrate_obj(obj, jref, to_spec_version)
-                obj = self.prepare_obj(obj, jref)
 
             relocated_jp = self.spec_obj_store.relocate(
                 url, jp, from_spec_version, to_spec_version)
-- 
2.43.0


From 70646650b84ec498efea95faa9dfa14bfca59be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:07 +0000
Subject: [PATCH 44/49] fix: report the reached version when an older one is
 requested

---
 pyopenapi/migration/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index 58e5908..a3112d0 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -258,7 +258,8 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
             from_spec_version = version
 
         if isinstance(obj, (OpenApi, Swagger, ResourceListing)):
-            self.__current_spec_version = spec_version
+            # not changed when a version older than this object is expected
+            self.__current_spec_version = obj.__swagger_version__
 
         return obj
 
-- 
2.43.0


From 9aa0e3ca53b21d1c447455fbd3bca07650b50a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 45/49] fix: do not write to the document an object is loaded
 from

---
 pyopenapi/migration/spec/obj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index bd81c0a..2e9276f 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -539,7 +539,8 @@ class Base2Obj(_Base):
             - path:
             - override:
         """
-        super(Base2Obj, self).__init__(spec, path, override)
+        # writing to a field should not change the document it is loaded from
+        super(Base2Obj, self).__init__(copy.copy(spec), path, override)
         self.children = {}
         self.internal = {}
         self.attrs = {}
-- 
2.43.0


From 00fbde831464a3d99806cbbbfd2b26c9d02b9264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 46/49] Revert "fix: do not write to the document an object is
 loaded from"

This reverts commit 9aa0e3ca53b21d1c447455fbd3bca07650b50a56.
---
 pyopenapi/migration/spec/obj.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyopenapi/migration/spec/obj.py b/pyopenapi/migration/spec/obj.py
index 2e9276f..bd81c0a 100644
--- a/pyopenapi/migration/spec/obj.py
+++ b/pyopenapi/migration/spec/obj.py
@@ -539,8 +539,7 @@ class Base2Obj(_Base):
             - path:
             - override:
         """
-        # writing to a field should not change the document it is loaded from
-        super(Base2Obj, self).__init__(copy.copy(spec), path, override)
+        super(Base2Obj, self).__init__(spec, path, override)
         self.children = {}
         self.internal = {}
         self.attrs = {}
-- 
2.43.0


From 0c4247a1d18a22f8d8bd3942d9b715b76605f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 47/49] fix: keep the document untouched when rewriting $ref

---
 pyopenapi/migration/versions/v3_0_0/scanner/resolve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
index d3f1e32..db77b2f 100644
--- a/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
+++ b/pyopenapi/migration/versions/v3_0_0/scanner/resolve.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 from __future__ import absolute_import
+import copy
+
 import six
 
 from .....utils import jp_compose, jr_split
@@ -61,6 +63,9 @@ def _resolve(obj, expected, app, path):
         raise JsonReferenceError('Unable to resolve: {}'.format(
             attrs.normalized_ref))
 
+    # '$ref' is going to be rewritten, keep the document this object is
+    # loaded from untouched
+    obj.spec = copy.copy(obj.spec)
     if obj.ref.startswith('#'):
         _, obj.ref = jr_split(new_ref)
     else:
-- 
2.43.0


From 0de673e7201a025fbdb682b94e177b6c59cfe1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 48/49] fix: integer codes in documents given as dict

---
 pyopenapi/migration/getter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyopenapi/migration/getter.py b/pyopenapi/migration/getter.py
index a4bb13f..5b411e8 100644
--- a/pyopenapi/migration/getter.py
+++ b/pyopenapi/migration/getter.py
@@ -52,7 +52,8 @@ class Getter(six.Iterator):
 
         # make sure data is string type
         if isinstance(obj, dict):
-            pass
+            # might be loaded from yaml by users
+            obj = _int_key_to_str(obj)
         elif isinstance(obj, six.binary_type):
             obj = obj.decode('utf-8')
         elif not isinstance(obj, six.string_types):
-- 
2.43.0


From dff61d2555c32b1654bfad7a8809bcca36d9e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:13 +0000
Subject: [PATCH 49/49] fix: a loaded 1.2 listing was cached under the address
 of its last resource

---
 pyopenapi/migration/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyopenapi/migration/base.py b/pyopenapi/migration/base.py
index a3112d0..8ab08ef 100644
--- a/pyopenapi/migration/base.py
+++ b/pyopenapi/migration/base.py
@@ -154,15 +154,15 @@ class ApiBase(six.with_metaclass(abc.ABCMeta, object)):
                 map(lambda u: u[1:], resources))
 
             cached_apis = {}
-            for url, name in urls:
-                resource_spec = self.resolver.resolve(url, getter)
+            for res_url, name in urls:
+                resource_spec = self.resolver.resolve(res_url, getter)
                 if resource_spec is None:
                     raise Exception(
                         'unable to resolve {} when load spec from {}'.format(
-                            url, jref))
+                            res_url, jref))
                 cached_apis[name] = ApiDeclaration(resource_spec,
                                                    utils.jp_compose(
-                                                       name, base=url), {})
+                                                       name, base=res_url), {})
 
             obj.cached_apis = cached_apis
 
-- 
2.43.0

