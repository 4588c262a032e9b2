From 5ee8ea75effd97c2f000c01c0af062e50757ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 01/54] fix: set up types atomically so concurrent or
 interrupted first use cannot corrupt them

---
 asn1crypto/cms.py  |  12 ++---
 asn1crypto/core.py | 115 ++++++++++++++++++++++++++++++++-------------
 2 files changed, 87 insertions(+), 40 deletions(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index b104c99..627aa70 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -729,11 +729,10 @@ class RecipientKeyIdentifier(Sequence):
         ('other', OtherKeyAttribute, {'optional': True}),
     ]
 
-    def _setup(self):
-        super(RecipientKeyIdentifier, self)._setup()
+    def _setup_aliases(self, field_map):
         # This creates a backwards compatible shim for an
         # incorrect format field name that was in old versions
-        self._field_map['subjectKeyIdentifier'] = self._field_map['subject_key_identifier']
+        field_map['subjectKeyIdentifier'] = field_map['subject_key_identifier']
 
 
 class KeyAgreementRecipientIdentifier(Choice):
@@ -942,12 +941,11 @@ class SMIMEEncryptionKeyPreference(Choice):
         ('subject_alt_key_identifier', PublicKeyInfo, {'implicit': 2}),
     ]
 
-    def _setup(self):
-        super(SMIMEEncryptionKeyPreference, self)._setup()
+    def _setup_aliases(self, name_map):
         # This creates backwards compatible shims for two
         # incorrect format alternative names that were in old versions
-        self._name_map['recipientKeyId'] = self._name_map['recipient_key_id']
-        self._name_map['subjectAltKeyIdentifier'] = self._name_map['subject_alt_key_identifier']
+        name_map['recipientKeyId'] = name_map['recipient_key_id']
+        name_map['subjectAltKeyIdentifier'] = name_map['subject_alt_key_identifier']
 
 
 class SMIMEEncryptionKeyPreferences(SetOf):
diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a07cd97..bcb5cd0 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -300,8 +300,9 @@ class Asn1Value(object):
                 cls = self.__class__
                 # Allow explicit to be specified as a simple 2-element tuple
                 # instead of requiring the user make a nested tuple
-                if cls.explicit is not None and isinstance(cls.explicit[0], int_types):
-                    cls.explicit = (cls.explicit, )
+                class_explicit = cls.explicit
+                if class_explicit is not None and isinstance(class_explicit[0], int_types):
+                    cls.explicit = (class_explicit, )
                 if hasattr(cls, '_setup'):
                     self._setup()
                 _SETUP_CLASSES[cls] = True
@@ -685,9 +686,10 @@ class ValueMap():
         cls = self.__class__
         if cls._map is None or cls._reverse_map is not None:
             return
-        cls._reverse_map = {}
+        reverse_map = {}
         for key, value in cls._map.items():
-            cls._reverse_map[value] = key
+            reverse_map[value] = key
+        cls._reverse_map = reverse_map
 
 
 class Castable(object):
@@ -959,8 +961,7 @@ class Any(Asn1Value):
 
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             try:
-                passed_params = spec_params or {}
-                _tag_type_to_explicit_implicit(passed_params)
+                passed_params = dict(_tag_type_to_explicit_implicit(spec_params or {}))
                 if self.explicit is not None:
                     if 'explicit' in passed_params:
                         passed_params['explicit'] = self.explicit + passed_params['explicit']
@@ -1085,15 +1086,30 @@ class Choice(Asn1Value):
         """
 
         cls = self.__class__
-        cls._id_map = {}
-        cls._name_map = {}
+        id_map = {}
+        name_map = {}
         for index, info in enumerate(cls._alternatives):
             if len(info) < 3:
                 info = info + ({},)
-                cls._alternatives[index] = info
+            info = (info[0], info[1], _tag_type_to_explicit_implicit(info[2]))
+            cls._alternatives[index] = info
             id_ = _build_id_tuple(info[2], info[1])
-            cls._id_map[id_] = index
-            cls._name_map[info[0]] = index
+            id_map[id_] = index
+            name_map[info[0]] = index
+        self._setup_aliases(name_map)
+
+        # The maps are only made available once complete, since other threads
+        # may be using the class, and this method may be interrupted
+        cls._id_map = id_map
+        cls._name_map = name_map
+
+    def _setup_aliases(self, name_map):
+        """
+        Allows child classes to add extra names for alternatives
+
+        :param name_map:
+            A dict that maps alternative names to an index in _alternatives
+        """
 
     def __init__(self, name=None, value=None, **kwargs):
         """
@@ -1113,7 +1129,7 @@ class Choice(Asn1Value):
             ValueError - when implicit param is passed (or legacy tag_type param is "implicit")
         """
 
-        _tag_type_to_explicit_implicit(kwargs)
+        kwargs = _tag_type_to_explicit_implicit(kwargs)
 
         Asn1Value.__init__(self, **kwargs)
 
@@ -3714,26 +3730,43 @@ class Sequence(Asn1Value):
         """
 
         cls = self.__class__
-        cls._field_map = {}
-        cls._field_ids = []
-        cls._precomputed_specs = []
+        field_map = {}
+        field_ids = []
+        precomputed_specs = []
         for index, field in enumerate(cls._fields):
             if len(field) < 3:
                 field = field + ({},)
-                cls._fields[index] = field
-            cls._field_map[field[0]] = index
-            cls._field_ids.append(_build_id_tuple(field[2], field[1]))
+            field = (field[0], field[1], _tag_type_to_explicit_implicit(field[2]))
+            cls._fields[index] = field
+            field_map[field[0]] = index
+            field_ids.append(_build_id_tuple(field[2], field[1]))
 
         if cls._oid_pair is not None:
-            cls._oid_nums = (cls._field_map[cls._oid_pair[0]], cls._field_map[cls._oid_pair[1]])
+            cls._oid_nums = (field_map[cls._oid_pair[0]], field_map[cls._oid_pair[1]])
 
         for index, field in enumerate(cls._fields):
             has_callback = cls._spec_callbacks is not None and field[0] in cls._spec_callbacks
             is_mapped_oid = cls._oid_nums is not None and cls._oid_nums[1] == index
             if has_callback or is_mapped_oid:
-                cls._precomputed_specs.append(None)
+                precomputed_specs.append(None)
             else:
-                cls._precomputed_specs.append((field[0], field[1], field[1], field[2], None))
+                precomputed_specs.append((field[0], field[1], field[1], field[2], None))
+
+        self._setup_aliases(field_map)
+
+        # These are only made available once complete, since other threads may
+        # be using the class, and this method may be interrupted
+        cls._field_map = field_map
+        cls._field_ids = field_ids
+        cls._precomputed_specs = precomputed_specs
+
+    def _setup_aliases(self, field_map):
+        """
+        Allows child classes to add extra names for fields
+
+        :param field_map:
+            A dict that maps field names to an index in _fields
+        """
 
     def _determine_spec(self, index):
         """
@@ -4639,26 +4672,35 @@ class Set(Sequence):
         """
 
         cls = self.__class__
-        cls._field_map = {}
-        cls._field_ids = {}
-        cls._precomputed_specs = []
+        field_map = {}
+        field_ids = {}
+        precomputed_specs = []
         for index, field in enumerate(cls._fields):
             if len(field) < 3:
                 field = field + ({},)
-                cls._fields[index] = field
-            cls._field_map[field[0]] = index
-            cls._field_ids[_build_id_tuple(field[2], field[1])] = index
+            field = (field[0], field[1], _tag_type_to_explicit_implicit(field[2]))
+            cls._fields[index] = field
+            field_map[field[0]] = index
+            field_ids[_build_id_tuple(field[2], field[1])] = index
 
         if cls._oid_pair is not None:
-            cls._oid_nums = (cls._field_map[cls._oid_pair[0]], cls._field_map[cls._oid_pair[1]])
+            cls._oid_nums = (field_map[cls._oid_pair[0]], field_map[cls._oid_pair[1]])
 
         for index, field in enumerate(cls._fields):
             has_callback = cls._spec_callbacks is not None and field[0] in cls._spec_callbacks
             is_mapped_oid = cls._oid_nums is not None and cls._oid_nums[1] == index
             if has_callback or is_mapped_oid:
-                cls._precomputed_specs.append(None)
+                precomputed_specs.append(None)
             else:
-                cls._precomputed_specs.append((field[0], field[1], field[1], field[2], None))
+                precomputed_specs.append((field[0], field[1], field[1], field[2], None))
+
+        self._setup_aliases(field_map)
+
+        # These are only made available once complete, since other threads may
+        # be using the class, and this method may be interrupted
+        cls._field_map = field_map
+        cls._field_ids = field_ids
+        cls._precomputed_specs = precomputed_specs
 
     def _parse_children(self, recurse=False):
         """
@@ -5281,9 +5323,14 @@ def _tag_type_to_explicit_implicit(params):
 
     :param params:
         A dict of parameters to convert from tag_type/tag to explicit/implicit
+
+    :return:
+        A dict of parameters - a new dict if a conversion was necessary, since
+        params may be shared with other threads
     """
 
     if 'tag_type' in params:
+        params = dict(params)
         if params['tag_type'] == 'explicit':
             params['explicit'] = (params.get('class', 2), params['tag'])
         elif params['tag_type'] == 'implicit':
@@ -5293,6 +5340,8 @@ def _tag_type_to_explicit_implicit(params):
         if 'class' in params:
             del params['class']
 
+    return params
+
 
 def _fix_tagging(value, params):
     """
@@ -5309,7 +5358,7 @@ def _fix_tagging(value, params):
         An Asn1Value that is properly tagged
     """
 
-    _tag_type_to_explicit_implicit(params)
+    params = _tag_type_to_explicit_implicit(params)
 
     retag = False
     if 'implicit' not in params:
@@ -5356,7 +5405,7 @@ def _build_id_tuple(params, spec):
     required_class = spec.class_
     required_tag = spec.tag
 
-    _tag_type_to_explicit_implicit(params)
+    params = _tag_type_to_explicit_implicit(params)
 
     if 'explicit' in params:
         if isinstance(params['explicit'], tuple):
@@ -5477,7 +5526,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
     """
 
     if spec_params is not None:
-        _tag_type_to_explicit_implicit(spec_params)
+        spec_params = _tag_type_to_explicit_implicit(spec_params)
 
     if header is None:
         return VOID
-- 
2.43.0


From 40647cbb8b131aa2c9675f28837f1e06834e3770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 02/54] fix: look up names registered after a type was first
 used, or in the map of a child class

---
 asn1crypto/algos.py |  1 +
 asn1crypto/core.py  | 46 ++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 3a4b18f..9ce15b6 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1322,6 +1322,7 @@ class AnyAlgorithmId(ObjectIdentifier):
         for other_cls in (EncryptionAlgorithmId, SignedDigestAlgorithmId, DigestAlgorithmId):
             for oid, name in other_cls._map.items():
                 _map[oid] = name
+        ObjectIdentifier._setup(self)
 
 
 class AnyAlgorithmIdentifier(_ForceNullParameters, Sequence):
diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bcb5cd0..76a35af 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -684,13 +684,42 @@ class ValueMap():
         """
 
         cls = self.__class__
-        if cls._map is None or cls._reverse_map is not None:
+        if cls._map is None:
             return
+        for base in cls.__mro__:
+            if base.__dict__.get('_reverse_map') is not None:
+                return
+            # A _reverse_map of a parent class does not apply to a _map that
+            # was overridden by a child class
+            if '_map' in base.__dict__:
+                break
         reverse_map = {}
         for key, value in cls._map.items():
             reverse_map[value] = key
         cls._reverse_map = reverse_map
 
+    @classmethod
+    def _map_key(cls, value):
+        """
+        Finds the key in _map for a value
+
+        :param value:
+            A unicode string
+
+        :return:
+            The key from _map, or None if value is not present in _map. Entries
+            that were added to _map after the class was set up are included.
+        """
+
+        if value in cls._reverse_map:
+            return cls._reverse_map[value]
+
+        for key, name in list(cls._map.items()):
+            if name == value:
+                return key
+
+        return None
+
 
 class Castable(object):
     """
@@ -1955,7 +1984,8 @@ class Integer(Primitive, ValueMap):
                     type_name(self)
                 ))
 
-            if value not in self._reverse_map:
+            key = self._map_key(value)
+            if key is None:
                 raise ValueError(unwrap(
                     '''
                     %s value, %s, is not present in the _map
@@ -1964,7 +1994,7 @@ class Integer(Primitive, ValueMap):
                     value
                 ))
 
-            value = self._reverse_map[value]
+            value = key
 
         elif not isinstance(value, int_types):
             raise TypeError(unwrap(
@@ -3084,8 +3114,9 @@ class ObjectIdentifier(Primitive, ValueMap):
                 type_name(value)
             ))
 
-        if value in cls._reverse_map:
-            return cls._reverse_map[value]
+        key = cls._map_key(value)
+        if key is not None:
+            return key
 
         if not _OID_RE.match(value):
             raise ValueError(unwrap(
@@ -3281,7 +3312,8 @@ class Enumerated(Integer):
             ))
 
         if isinstance(value, str_cls):
-            if value not in self._reverse_map:
+            key = self._map_key(value)
+            if key is None:
                 raise ValueError(unwrap(
                     '''
                     %s value "%s" is not a valid value
@@ -3290,7 +3322,7 @@ class Enumerated(Integer):
                     value
                 ))
 
-            value = self._reverse_map[value]
+            value = key
 
         elif value not in self._map:
             raise ValueError(unwrap(
-- 
2.43.0


From ac5ef1f6c2167ba49fc60b7d042857737fe75bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 03/54] fix: leave an ObjectIdentifier unchanged when set()
 refuses a value, refresh its dotted form otherwise

---
 asn1crypto/core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 76a35af..79259f5 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3150,13 +3150,14 @@ class ObjectIdentifier(Primitive, ValueMap):
                 type_name(value)
             ))
 
-        self._native = value
+        native = value
 
         if self._map is not None:
-            if value in self._reverse_map:
-                value = self._reverse_map[value]
+            key = self._map_key(value)
+            if key is not None:
+                value = key
 
-        self.contents = b''
+        contents = b''
         first = None
         for index, part in enumerate(value.split('.')):
             part = int(part)
@@ -3188,8 +3189,11 @@ class ObjectIdentifier(Primitive, ValueMap):
             while part > 0:
                 encoded_part = chr_cls(0x80 | (0x7F & part)) + encoded_part
                 part = part >> 7
-            self.contents += encoded_part
+            contents += encoded_part
 
+        self._native = native
+        self._dotted = None
+        self.contents = contents
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
-- 
2.43.0


From 0f81e8b3679b9d0459f5a058bfcc740d1bc48f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 04/54] fix: leave a value unchanged when an assignment to it
 is refused

---
 asn1crypto/core.py | 59 +++++++++++++++++++++++++++++++---------------
 asn1crypto/x509.py | 10 +++++---
 2 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 79259f5..6c8d85c 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1853,8 +1853,10 @@ class AbstractString(Constructable, Primitive):
                 type_name(value)
             ))
 
+        contents = value.encode(self._encoding)
+
         self._unicode = value
-        self.contents = value.encode(self._encoding)
+        self.contents = contents
         self._header = None
         if self._indefinite:
             self._indefinite = False
@@ -2188,7 +2190,7 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
                 ))
 
             bits = [0] * self._size
-            self._native = value
+            native = set(value)
             for index in range(0, self._size):
                 key = self._map.get(index)
                 if key is None:
@@ -2200,13 +2202,13 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
 
         elif value.__class__ == tuple:
             if self._map is None:
-                self._native = value
+                native = value
             else:
-                self._native = set()
+                native = set()
                 for index, bit in enumerate(value):
                     if bit:
                         name = self._map.get(index, index)
-                        self._native.add(name)
+                        native.add(name)
             value = ''.join(map(str_cls, value))
 
         else:
@@ -2257,6 +2259,7 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
         if len(value_bytes) != size_in_bytes:
             value_bytes = (b'\x00' * (size_in_bytes - len(value_bytes))) + value_bytes
 
+        self._native = native
         self.contents = extra_bits_byte + value_bytes
         self._unused_bits = (0,) * extra_bits
         self._header = None
@@ -2355,20 +2358,21 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
             if key > max_key:
                 new_native.extend([0] * (key - max_key))
             new_native[key] = 1 if value else 0
-            self._native = tuple(new_native)
+            new_native = tuple(new_native)
 
         else:
             if is_int:
                 key = self._map.get(key, key)
 
+            new_native = set(self._native)
             if value:
-                if key not in self._native:
-                    self._native.add(key)
+                if key not in new_native:
+                    new_native.add(key)
             else:
-                if key in self._native:
-                    self._native.remove(key)
+                if key in new_native:
+                    new_native.remove(key)
 
-        self.set(self._native)
+        self.set(new_native)
 
     @property
     def native(self):
@@ -2733,8 +2737,10 @@ class IntegerOctetString(Constructable, Castable, Primitive):
                 value
             ))
 
+        contents = int_to_bytes(value, signed=False, width=self._encoded_width)
+
         self._native = value
-        self.contents = int_to_bytes(value, signed=False, width=self._encoded_width)
+        self.contents = contents
         self._header = None
         if self._indefinite:
             self._indefinite = False
@@ -2766,10 +2772,15 @@ class IntegerOctetString(Constructable, Castable, Primitive):
             An integer byte width to encode the integer to
         """
 
+        old_width = self._encoded_width
         self._encoded_width = width
         # Make sure the encoded value is up-to-date with the proper width
         if self.contents is not None and len(self.contents) != width:
-            self.set(self.native)
+            try:
+                self.set(self.native)
+            except (ValueError, OverflowError):
+                self._encoded_width = old_width
+                raise
 
 
 class ParsableOctetString(Constructable, Castable, Primitive):
@@ -3662,10 +3673,12 @@ class Sequence(Asn1Value):
                 type_name(self)
             ))
 
-        self.children[key] = new_value
-
         if self._native is not None:
-            self._native[self._fields[key][0]] = self.children[key].native
+            new_native = new_value.native
+            self.children[key] = new_value
+            self._native[self._fields[key][0]] = new_native
+        else:
+            self.children[key] = new_value
         self._mutated = True
 
     def __delitem__(self, key):
@@ -4447,6 +4460,10 @@ class SequenceOf(Asn1Value):
 
         new_value = self._make_value(value)
 
+        new_native = None
+        if self._native is not None:
+            new_native = new_value.native
+
         # If adding at the end, create a space for the new value
         if key == len(self.children):
             self.children.append(None)
@@ -4456,7 +4473,7 @@ class SequenceOf(Asn1Value):
         self.children[key] = new_value
 
         if self._native is not None:
-            self._native[key] = self.children[key].native
+            self._native[key] = new_native
 
         self._mutated = True
 
@@ -4533,10 +4550,14 @@ class SequenceOf(Asn1Value):
         if self.children is None:
             self._parse_children()
 
-        self.children.append(self._make_value(value))
+        new_value = self._make_value(value)
 
         if self._native is not None:
-            self._native.append(self.children[-1].native)
+            new_native = new_value.native
+            self.children.append(new_value)
+            self._native.append(new_native)
+        else:
+            self.children.append(new_value)
 
         self._mutated = True
 
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 38aa770..69c0afd 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -140,8 +140,10 @@ class URI(IA5String):
                 type_name(value)
             ))
 
+        contents = iri_to_uri(value)
+
         self._unicode = value
-        self.contents = iri_to_uri(value)
+        self.contents = contents
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -367,9 +369,11 @@ class IPAddress(OctetString):
             cidr_bytes = int_to_bytes(int(cidr_mask, 2))
             cidr_bytes = (b'\x00' * ((cidr_size // 8) - len(cidr_bytes))) + cidr_bytes
 
+        contents = inet_pton(family, value) + cidr_bytes
+
         self._native = original_value
-        self.contents = inet_pton(family, value) + cidr_bytes
-        self._bytes = self.contents
+        self.contents = contents
+        self._bytes = contents
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
-- 
2.43.0


From 9fa0e1b0a3322178186f7880a093a5b49435bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 05/54] fix: discard the parsed object when a
 ParsableOctetString is set to new bytes

---
 asn1crypto/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6c8d85c..09befb4 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2834,6 +2834,8 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             ))
 
         self._bytes = value
+        # Any previously parsed object does not represent the new value
+        self._parsed = None
         self.contents = value
         self._header = None
         if self._indefinite:
@@ -2951,12 +2953,13 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             force = True
 
         if force:
-            if self._parsed is not None:
-                native = self.parsed.dump(force=force)
+            parsed = self._parsed
+            if parsed is not None:
+                native = parsed[0].dump(force=force)
             else:
                 native = self.native
-            self.contents = None
             self.set(native)
+            self._parsed = parsed
 
         return Asn1Value.dump(self)
 
@@ -2986,6 +2989,8 @@ class ParsableOctetBitString(ParsableOctetString):
             ))
 
         self._bytes = value
+        # Any previously parsed object does not represent the new value
+        self._parsed = None
         # Set the unused bits to 0
         self.contents = b'\x00' + value
         self._header = None
-- 
2.43.0


From 25946c1744320f79f037c21190eb7057086abadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 06/54] fix: do not re-encode an EmailAddress when comparing it

---
 asn1crypto/x509.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 69c0afd..7bef665 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -273,16 +273,16 @@ class EmailAddress(IA5String):
         if not isinstance(other, EmailAddress):
             return False
 
-        if not self._normalized:
-            self.set(self.native)
-        if not other._normalized:
-            other.set(other.native)
+        # New objects are used for normalizing so that a comparison never
+        # changes the encoding of the values being compared
+        contents = EmailAddress(self.native).contents
+        other_contents = EmailAddress(other.native).contents
 
-        if self._contents.find(b'@') == -1 or other._contents.find(b'@') == -1:
-            return self._contents == other._contents
+        if contents.find(b'@') == -1 or other_contents.find(b'@') == -1:
+            return contents == other_contents
 
-        other_mailbox, other_hostname = other._contents.rsplit(b'@', 1)
-        mailbox, hostname = self._contents.rsplit(b'@', 1)
+        other_mailbox, other_hostname = other_contents.rsplit(b'@', 1)
+        mailbox, hostname = contents.rsplit(b'@', 1)
 
         if mailbox != other_mailbox:
             return False
-- 
2.43.0


From fa5cf75b03fcba64b5042f4cbeb3192d901c9636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 07/54] fix: refuse unknown names for a named BitString, and
 keep bits that have no name

---
 asn1crypto/core.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 09befb4..d9ba83c 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2189,18 +2189,33 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
                     type_name(self)
                 ))
 
-            bits = [0] * self._size
             native = set(value)
-            for index in range(0, self._size):
-                key = self._map.get(index)
-                if key is None:
-                    continue
+            # Bits that are not part of the _map may be present in encoded data
+            extra_sizes = [key + 1 for key in value if isinstance(key, int_types)]
+            max_size = max([self._size] + extra_sizes)
+
+            bits = [0] * max_size
+            for index in range(0, max_size):
+                # Bits without a name are represented by their index
+                key = self._map.get(index, index)
                 if key in value:
                     bits[index] = 1
 
+            unknown = native - set(self._map.get(index, index) for index in range(0, max_size))
+            if unknown:
+                raise ValueError(unwrap(
+                    '''
+                    %s value contains one or more bits that are not present in
+                    the _map: %s
+                    ''',
+                    type_name(self),
+                    ', '.join(sorted(str_cls(key) for key in unknown))
+                ))
+
             value = ''.join(map(str_cls, bits))
 
         elif value.__class__ == tuple:
+            max_size = self._size
             if self._map is None:
                 native = value
             else:
@@ -2222,13 +2237,13 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
             ))
 
         if self._map is not None:
-            if len(value) > self._size:
+            if len(value) > max_size:
                 raise ValueError(unwrap(
                     '''
                     %s value must be at most %s bits long, specified was %s long
                     ''',
                     type_name(self),
-                    self._size,
+                    max_size,
                     len(value)
                 ))
             # A NamedBitList must have trailing zero bit truncated. See
-- 
2.43.0


From 6bad8494b1c235e4692d78a78f26f14807d753b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 08/54] fix: never expose partially computed native values of
 an interrupted or concurrent read

---
 asn1crypto/core.py | 60 ++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index d9ba83c..d9ac104 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2035,9 +2035,10 @@ class Integer(Primitive, ValueMap):
             return None
 
         if self._native is None:
-            self._native = self.__int__()
-            if self._map is not None and self._native in self._map:
-                self._native = self._map[self._native]
+            native = self.__int__()
+            if self._map is not None and native in self._map:
+                native = self._map[native]
+            self._native = native
         return self._native
 
 
@@ -2407,17 +2408,21 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
                 self.set(set())
 
         if self._native is None:
-            int_value, bit_count, self._unused_bits = self._chunks_to_int()
+            int_value, bit_count, unused_bits = self._chunks_to_int()
             bits = _int_to_bit_tuple(int_value, bit_count)
 
             if self._map:
-                self._native = set()
+                native = set()
                 for index, bit in enumerate(bits):
                     if bit:
                         name = self._map.get(index, index)
-                        self._native.add(name)
+                        native.add(name)
             else:
-                self._native = bits
+                native = bits
+
+            # _native is set last since it indicates that parsing is complete
+            self._unused_bits = unused_bits
+            self._native = native
         return self._native
 
 
@@ -2475,16 +2480,20 @@ class OctetBitString(Constructable, Castable, Primitive):
             return b''
         if self._bytes is None:
             if not self._indefinite:
-                self._bytes, self._unused_bits = self._as_chunk()[0]
+                merged, unused_bits = self._as_chunk()[0]
             else:
                 chunks = self._merge_chunks()
-                self._unused_bits = ()
+                unused_bits = ()
                 for chunk in chunks:
-                    if self._unused_bits:
+                    if unused_bits:
                         # Disallowed by X.690 §8.6.4
                         raise ValueError('Only last chunk in a bit string may have unused bits')
-                    self._unused_bits = chunk[1]
-                self._bytes = b''.join(chunk[0] for chunk in chunks)
+                    unused_bits = chunk[1]
+                merged = b''.join(chunk[0] for chunk in chunks)
+
+            # _bytes is set last since it indicates that parsing is complete
+            self._unused_bits = unused_bits
+            self._bytes = merged
 
         return self._bytes
 
@@ -2627,7 +2636,11 @@ class IntegerBitString(_IntegerBitString, Constructable, Castable, Primitive):
             return None
 
         if self._native is None:
-            self._native, __, self._unused_bits = self._chunks_to_int()
+            native, __, unused_bits = self._chunks_to_int()
+
+            # _native is set last since it indicates that parsing is complete
+            self._unused_bits = unused_bits
+            self._native = native
 
         return self._native
 
@@ -3287,11 +3300,13 @@ class ObjectIdentifier(Primitive, ValueMap):
         if self.contents is None:
             return None
 
-        if self._native is None:
-            self._native = self.dotted
-        if self._map is not None and self._native in self._map:
-            self._native = self._map[self._native]
-        return self._native
+        native = self._native
+        if native is None:
+            native = self.dotted
+        if self._map is not None and native in self._map:
+            native = self._map[native]
+        self._native = native
+        return native
 
 
 class ObjectDescriptor(Primitive):
@@ -4172,18 +4187,17 @@ class Sequence(Asn1Value):
             if self.children is None:
                 self._parse_children(recurse=True)
             try:
-                self._native = OrderedDict()
+                native = OrderedDict()
                 for index, child in enumerate(self.children):
                     if child.__class__ == tuple:
-                        child = _build(*child)
-                        self.children[index] = child
+                        child = self._lazy_child(index)
                     try:
                         name = self._fields[index][0]
                     except (IndexError):
                         name = str_cls(index)
-                    self._native[name] = child.native
+                    native[name] = child.native
+                self._native = native
             except (ValueError, TypeError) as e:
-                self._native = None
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
                 raise e
-- 
2.43.0


From 9cc6dbd01a796270e195269817baa129e7e3b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 09/54] fix: only publish the children of a structure once all
 of them have been parsed

---
 asn1crypto/core.py | 97 +++++++++++++++++++++++++++++++---------------
 1 file changed, 66 insertions(+), 31 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index d9ac104..9d0e535 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4009,21 +4009,28 @@ class Sequence(Asn1Value):
         """
 
         cls = self.__class__
-        if self._contents is None:
+        encoded = self._contents
+        if encoded is None:
             if self._fields:
-                self.children = [VOID] * len(self._fields)
+                children = [VOID] * len(self._fields)
+                partial = self._partial(children)
                 for index, (_, _, params) in enumerate(self._fields):
                     if 'default' in params:
                         if cls._precomputed_specs[index]:
                             field_name, field_spec, value_spec, field_params, _ = cls._precomputed_specs[index]
                         else:
-                            field_name, field_spec, value_spec, field_params, _ = self._determine_spec(index)
-                        self.children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
+                            field_name, field_spec, value_spec, field_params, _ = partial._determine_spec(index)
+                        children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
+                self.children = children
             return
 
         try:
-            self.children = []
-            contents_length = len(self._contents)
+            # The children are only made available on self once all of them are
+            # present, since parsing may be interrupted, or other threads may be
+            # using this object
+            children = []
+            partial = None
+            contents_length = len(encoded)
             child_pointer = 0
             field = 0
             field_len = len(self._fields)
@@ -4031,12 +4038,16 @@ class Sequence(Asn1Value):
             again = child_pointer < contents_length
             while again:
                 if parts is None:
-                    parts, child_pointer = _parse(self._contents, contents_length, pointer=child_pointer)
+                    parts, child_pointer = _parse(encoded, contents_length, pointer=child_pointer)
                 again = child_pointer < contents_length
 
                 if field < field_len:
-                    _, field_spec, value_spec, field_params, spec_override = (
-                        cls._precomputed_specs[field] or self._determine_spec(field))
+                    spec_info = cls._precomputed_specs[field]
+                    if spec_info is None:
+                        if partial is None:
+                            partial = self._partial(children)
+                        spec_info = partial._determine_spec(field)
+                    _, field_spec, value_spec, field_params, spec_override = spec_info
 
                     # If the next value is optional or default, allow it to be absent
                     if field_params and ('optional' in field_params or 'default' in field_params):
@@ -4055,9 +4066,9 @@ class Sequence(Asn1Value):
 
                             if not choice_match:
                                 if 'optional' in field_params:
-                                    self.children.append(VOID)
+                                    children.append(VOID)
                                 else:
-                                    self.children.append(field_spec(**field_params))
+                                    children.append(field_spec(**field_params))
                                 field += 1
                                 again = True
                                 continue
@@ -4105,17 +4116,17 @@ class Sequence(Asn1Value):
                     if isinstance(child, (Sequence, SequenceOf)):
                         child._parse_children(recurse=True)
 
-                self.children.append(child)
+                children.append(child)
                 field += 1
                 parts = None
 
-            index = len(self.children)
+            index = len(children)
             while index < field_len:
                 name, field_spec, field_params = self._fields[index]
                 if 'default' in field_params:
-                    self.children.append(field_spec(**field_params))
+                    children.append(field_spec(**field_params))
                 elif 'optional' in field_params:
-                    self.children.append(VOID)
+                    children.append(VOID)
                 else:
                     raise ValueError(unwrap(
                         '''
@@ -4125,12 +4136,30 @@ class Sequence(Asn1Value):
                     ))
                 index += 1
 
+            self.children = children
+
         except (ValueError, TypeError) as e:
-            self.children = None
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
             raise e
 
+    def _partial(self, children):
+        """
+        Constructs a stand-in for this object, having only some of the children
+        parsed. Used to determine the spec of a field during parsing.
+
+        :param children:
+            A list of the child objects parsed so far
+
+        :return:
+            An object of the same class
+        """
+
+        partial = self.__class__.__new__(self.__class__)
+        partial.__dict__.update(self.__dict__)
+        partial.children = children
+        return partial
+
     def spec(self, field_name):
         """
         Determines the spec to use for the field specified. Depending on how
@@ -4630,13 +4659,18 @@ class SequenceOf(Asn1Value):
         """
 
         try:
-            self.children = []
-            if self._contents is None:
+            # The children are only made available on self once all of them are
+            # present, since parsing may be interrupted, or other threads may be
+            # using this object
+            children = []
+            encoded = self._contents
+            if encoded is None:
+                self.children = children
                 return
-            contents_length = len(self._contents)
+            contents_length = len(encoded)
             child_pointer = 0
             while child_pointer < contents_length:
-                parts, child_pointer = _parse(self._contents, contents_length, pointer=child_pointer)
+                parts, child_pointer = _parse(encoded, contents_length, pointer=child_pointer)
                 if self._child_spec:
                     child = parts + (self._child_spec,)
                 else:
@@ -4645,9 +4679,9 @@ class SequenceOf(Asn1Value):
                     child = _build(*child)
                     if isinstance(child, (Sequence, SequenceOf)):
                         child._parse_children(recurse=True)
-                self.children.append(child)
+                children.append(child)
+            self.children = children
         except (ValueError, TypeError) as e:
-            self.children = None
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
             raise e
@@ -4807,25 +4841,28 @@ class Set(Sequence):
         """
 
         cls = self.__class__
-        if self._contents is None:
+        encoded = self._contents
+        if encoded is None:
             if self._fields:
-                self.children = [VOID] * len(self._fields)
+                children = [VOID] * len(self._fields)
+                partial = self._partial(children)
                 for index, (_, _, params) in enumerate(self._fields):
                     if 'default' in params:
                         if cls._precomputed_specs[index]:
                             field_name, field_spec, value_spec, field_params, _ = cls._precomputed_specs[index]
                         else:
-                            field_name, field_spec, value_spec, field_params, _ = self._determine_spec(index)
-                        self.children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
+                            field_name, field_spec, value_spec, field_params, _ = partial._determine_spec(index)
+                        children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
+                self.children = children
             return
 
         try:
             child_map = {}
-            contents_length = len(self.contents)
+            contents_length = len(encoded)
             child_pointer = 0
             seen_field = 0
             while child_pointer < contents_length:
-                parts, child_pointer = _parse(self.contents, contents_length, pointer=child_pointer)
+                parts, child_pointer = _parse(encoded, contents_length, pointer=child_pointer)
 
                 id_ = (parts[0], parts[2])
 
@@ -4895,9 +4932,7 @@ class Set(Sequence):
                         type_name(self)
                     ))
 
-            self.children = []
-            for index in range(0, total_fields):
-                self.children.append(child_map[index])
+            self.children = [child_map[index] for index in range(0, total_fields)]
 
         except (ValueError, TypeError) as e:
             args = e.args[1:]
-- 
2.43.0


From f258130c98e13235102fbae004fc1dd728ca991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:04 +0000
Subject: [PATCH 10/54] fix: keep Any values intact while parsing, copying and
 tagging them

---
 asn1crypto/core.py | 84 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 67 insertions(+), 17 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9d0e535..77773ba 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -615,8 +615,6 @@ class Asn1Value(object):
 
         prefix = '  ' * nest_level
 
-        # This interacts with Any and moves the tag, implicit, explicit, _header,
-        # contents, _footer to the parsed value so duplicate data isn't present
         has_parsed = hasattr(self, 'parsed')
 
         _basic_debug(prefix, self)
@@ -934,6 +932,7 @@ class Any(Asn1Value):
                         type_name(value)
                     ))
 
+                value = self._tag_parsed(value)
                 self._parsed = (value, value.__class__, None)
                 self.contents = value.dump()
 
@@ -942,6 +941,27 @@ class Any(Asn1Value):
             e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
             raise e
 
+    def _tag_parsed(self, value):
+        """
+        Ensures the parsed value has the explicit tagging of this object, since
+        the parsed value is what is encoded by .dump()
+
+        :param value:
+            An Asn1Value object
+
+        :return:
+            An Asn1Value object
+        """
+
+        if self.explicit is None:
+            return value
+
+        explicit = value.explicit or ()
+        if explicit[-len(self.explicit):] == self.explicit:
+            return value
+
+        return value.retag({'explicit': explicit + self.explicit})
+
     @property
     def native(self):
         """
@@ -988,7 +1008,8 @@ class Any(Asn1Value):
             An object of the type spec, or if not present, a child of Asn1Value
         """
 
-        if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
+        parsed = self._parsed
+        if parsed is None or parsed[1:3] != (spec, spec_params):
             try:
                 passed_params = dict(_tag_type_to_explicit_implicit(spec_params or {}))
                 if self.explicit is not None:
@@ -996,28 +1017,29 @@ class Any(Asn1Value):
                         passed_params['explicit'] = self.explicit + passed_params['explicit']
                     else:
                         passed_params['explicit'] = self.explicit
-                contents = self._header + self.contents + self._trailer
                 parsed_value, _ = _parse_build(
-                    contents,
+                    self._encoded(),
                     spec=spec,
                     spec_params=passed_params
                 )
-                self._parsed = (parsed_value, spec, spec_params)
-
-                # Once we've parsed the Any value, clear any attributes from this object
-                # since they are now duplicate
-                self.tag = None
-                self.explicit = None
-                self.implicit = False
-                self._header = b''
-                self.contents = contents
-                self._trailer = b''
+                # The encoded value is left as is, so that other threads that
+                # are parsing it are not affected, and so it may be parsed again
+                parsed = (parsed_value, spec, spec_params)
+                self._parsed = parsed
 
             except (ValueError, TypeError) as e:
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
                 raise e
-        return self._parsed[0]
+        return parsed[0]
+
+    def _encoded(self):
+        """
+        :return:
+            A byte string of the encoded value this object was created from
+        """
+
+        return (self._header or b'') + self.contents + self._trailer
 
     def _copy(self, other, copy_func):
         """
@@ -1032,7 +1054,35 @@ class Any(Asn1Value):
         """
 
         super(Any, self)._copy(other, copy_func)
-        self._parsed = copy_func(other._parsed)
+
+        if self.explicit == other.explicit:
+            self._header = other._header
+            self._trailer = other._trailer
+            self._parsed = copy_func(other._parsed)
+            return
+
+        # The tagging is part of the encoded value, thus it must be replaced
+        parsed = other.parsed
+        untagged = parsed.explicit or ()
+        if other.explicit is not None and untagged[-len(other.explicit):] == other.explicit:
+            untagged = untagged[:-len(other.explicit)]
+        value = self._tag_parsed(parsed.retag({'explicit': untagged} if untagged else {}))
+        self._parsed = (value,) + other._parsed[1:3]
+        self.contents = value.dump()
+
+    def debug(self, nest_level=1):
+        """
+        Show the binary data and parsed data in a tree structure
+        """
+
+        parsed = self.parsed
+
+        # Only the data of the whole value is shown since the rest of the
+        # details are shown for the parsed value
+        prefix = '  ' * nest_level
+        print('%s%s Object #%s' % (prefix, type_name(self), id(self)))
+        print('%s  Data: 0x%s' % (prefix, binascii.hexlify(self._encoded()).decode('utf-8')))
+        parsed.debug(nest_level + 2)
 
     def dump(self, force=False):
         """
-- 
2.43.0


From b742e2789413151e39f1b44e7b50b96dd236e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:08 +0000
Subject: [PATCH 11/54] fix: printing a ParsableOctetString with debug() does
 not change its native value

---
 asn1crypto/core.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 77773ba..aebcaea 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3014,6 +3014,22 @@ class ParsableOctetString(Constructable, Castable, Primitive):
 
         return self._parsed[0]
 
+    def debug(self, nest_level=1):
+        """
+        Show the binary data and parsed data in a tree structure
+        """
+
+        # The parsed value is not saved if it does not already exist since that
+        # would change the result of .native
+        if self._parsed is not None:
+            parsed = self._parsed[0]
+        else:
+            parsed, _ = _parse_build(self.__bytes__())
+
+        prefix = '  ' * nest_level
+        _basic_debug(prefix, self)
+        parsed.debug(nest_level + 2)
+
     def dump(self, force=False):
         """
         Encodes the value using DER
-- 
2.43.0


From a4f29e4ac87e79197afefc0883e327f4f6f34bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 12/54] fix: dump() of an indefinite-length value or a Choice
 reflects it without changing it

Decide by the end-of-contents marker, and not by the last byte of the header,
if a value is indefinite-length, re-encode those from a copy, recompute the
explicit tagging of a Choice whose chosen value was changed, and do not clear
contents while force encoding.
---
 asn1crypto/core.py | 94 ++++++++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 36 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index aebcaea..0d96d84 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -641,25 +641,38 @@ class Asn1Value(object):
         """
 
         contents = self.contents
+        header = self._header
+        trailer = self._trailer
 
-        # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
-            force = True
-
-        if self._header is None or force:
+        # If the length is indefinite, the header has to be regenerated
+        if header is None or force or self._is_indefinite():
             if isinstance(self, Constructable) and self._indefinite:
                 self.method = 0
 
-            header = _dump_header(self.class_, self.method, self.tag, self.contents)
+            save = header is None or force
+
+            header = _dump_header(self.class_, self.method, self.tag, contents)
 
             if self.explicit is not None:
                 for class_, tag in self.explicit:
-                    header = _dump_header(class_, 1, tag, header + self.contents) + header
+                    header = _dump_header(class_, 1, tag, header + contents) + header
 
-            self._header = header
-            self._trailer = b''
+            trailer = b''
+
+            if save:
+                self._trailer = trailer
+                self._header = header
+
+        return header + contents + trailer
+
+    def _is_indefinite(self):
+        """
+        :return:
+            A boolean - if the encoded value this object was created from, or any
+            explicit tagging around it, used an indefinite length
+        """
 
-        return self._header + contents + self._trailer
+        return self._trailer != b''
 
 
 class ValueMap():
@@ -1444,17 +1457,23 @@ class Choice(Asn1Value):
             A byte string of the DER-encoded value
         """
 
-        # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
-            force = True
+        contents = self.chosen.dump(force=force)
+        header = self._header
 
-        self._contents = self.chosen.dump(force=force)
-        if self._header is None or force:
-            self._header = b''
+        # The existing header, which contains any explicit tagging, can not be
+        # used if it was indefinite length, or the chosen value was changed
+        if header is None or force or self._is_indefinite() or contents != self._contents:
+            header = b''
             if self.explicit is not None:
                 for class_, tag in self.explicit:
-                    self._header = _dump_header(class_, 1, tag, self._header + self._contents) + self._header
-        return self._header + self._contents
+                    header = _dump_header(class_, 1, tag, header + contents) + header
+
+        if force or self._header is None:
+            self._contents = contents
+            self._trailer = b''
+            self._header = header
+
+        return header + contents
 
 
 class Concat(object):
@@ -1821,14 +1840,13 @@ class Primitive(Asn1Value):
             A byte string of the DER-encoded value
         """
 
-        # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
-            force = True
+        # If the length is indefinite, re-encode it. This uses a copy so that
+        # the object itself does not change unless explicitly requested.
+        if self._is_indefinite() and not force:
+            return self.copy().dump(force=True)
 
         if force:
-            native = self.native
-            self.contents = None
-            self.set(native)
+            self.set(self.native)
 
         return Asn1Value.dump(self)
 
@@ -3042,9 +3060,10 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             A byte string of the DER-encoded value
         """
 
-        # If the length is indefinite, force the re-encoding
-        if self._indefinite:
-            force = True
+        # If the length is indefinite, re-encode it. This uses a copy so that
+        # the object itself does not change unless explicitly requested.
+        if self._is_indefinite() and not force:
+            return self.copy().dump(force=True)
 
         if force:
             parsed = self._parsed
@@ -4347,14 +4366,16 @@ class Sequence(Asn1Value):
             A byte string of the DER-encoded value
         """
 
-        # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
-            force = True
-
         # We can't force encoding if we don't have a spec
-        if force and self._fields == [] and self.__class__ is Sequence:
+        has_spec = self._fields != [] or self.__class__ is not Sequence
+        if force and not has_spec:
             force = False
 
+        # If the length is indefinite, re-encode it. This uses a copy so that
+        # the object itself does not change unless explicitly requested.
+        if self._is_indefinite() and has_spec and not force:
+            return self.copy().dump(force=True)
+
         if force:
             self._set_contents(force=force)
 
@@ -4833,9 +4854,10 @@ class SequenceOf(Asn1Value):
             A byte string of the DER-encoded value
         """
 
-        # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
-            force = True
+        # If the length is indefinite, re-encode it. This uses a copy so that
+        # the object itself does not change unless explicitly requested.
+        if self._is_indefinite() and not force:
+            return self.copy().dump(force=True)
 
         if force:
             self._set_contents(force=force)
@@ -5799,7 +5821,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 value.validate(class_, tag, contents)
                 try:
                     # Force parsing the Choice now
-                    value.contents = header + value.contents
+                    value.contents = header + value.contents + (trailer or b'')
                     header = b''
                     value.parse()
                 except (ValueError, TypeError) as e:
-- 
2.43.0


From 8718e2a4f83305dbd5607a4d1fbac11ed4774436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 13/54] fix: never lose edits to nested values when encoding or
 reading a parent

Edits were tracked by a flag that was cleared when the nested value was dumped
by itself, and was not seen through a Choice or Any. Track revisions instead,
and use them for native values too, which copies had disconnected from their
nested values. Also keep elements past the defined fields of a Sequence, the
child spec of a copied SequenceOf, and allow editing a loaded Set, which is
sorted by the outermost tag of each element.
---
 asn1crypto/core.py | 262 +++++++++++++++++++++++++++++++--------------
 1 file changed, 184 insertions(+), 78 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 0d96d84..106ea19 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -52,6 +52,7 @@ from datetime import datetime, timedelta
 from fractions import Fraction
 import binascii
 import copy
+import itertools
 import math
 import re
 import sys
@@ -104,6 +105,10 @@ METHOD_NUM_TO_NAME_MAP = {
 
 _OID_RE = re.compile(r'^\d+(\.\d+)*$')
 
+# A source of increasing numbers used to order changes to Sequence and
+# SequenceOf objects, and the regeneration of their encoded contents
+_REVISIONS = itertools.count(1)
+
 
 # A global tracker to ensure that _setup() is called for every class, even
 # if is has been called for a parent class. This allows different _fields
@@ -3523,8 +3528,11 @@ class Sequence(Asn1Value):
     # of child objects can be checked to ensure everything is up-to-date
     _contents = None
 
-    # Variable to track if the object has been mutated
-    _mutated = False
+    # The revision of the last change made directly to the object, and the
+    # revisions _contents and _native were generated from
+    _changed_revision = 0
+    _contents_revision = 0
+    _native_revision = 0
 
     # A list of tuples in one of the following forms.
     #
@@ -3662,6 +3670,16 @@ class Sequence(Asn1Value):
 
         self._contents = value
 
+    @property
+    def _mutated(self):
+        """
+        :return:
+            A boolean - if the object itself has been mutated since the contents
+            were last generated
+        """
+
+        return self._changed_revision > self._contents_revision
+
     def _is_mutated(self):
         """
         :return:
@@ -3669,13 +3687,23 @@ class Sequence(Asn1Value):
             mutated
         """
 
-        mutated = self._mutated
+        return self._revision() > self._contents_revision
+
+    def _revision(self):
+        """
+        :return:
+            An integer - the revision of the last change made to the sequence
+            or any children (recursively)
+        """
+
+        revision = self._changed_revision
         if self.children is not None:
             for child in self.children:
+                child = _nested_value(child)
                 if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
+                    revision = max(revision, child._revision())
 
-        return mutated
+        return revision
 
     def _lazy_child(self, index):
         """
@@ -3794,12 +3822,11 @@ class Sequence(Asn1Value):
             ))
 
         if self._native is not None:
-            new_native = new_value.native
-            self.children[key] = new_value
-            self._native[self._fields[key][0]] = new_native
-        else:
-            self.children[key] = new_value
-        self._mutated = True
+            # Ensures that a value that can not be converted is refused
+            new_value.native
+
+        self.children[key] = new_value
+        self._changed_revision = next(_REVISIONS)
 
     def __delitem__(self, key):
         """
@@ -3840,11 +3867,9 @@ class Sequence(Asn1Value):
 
         if 'optional' in params:
             self.children[key] = VOID
-            if self._native is not None:
-                self._native[name] = None
         else:
             self.__setitem__(key, None)
-        self._mutated = True
+        self._changed_revision = next(_REVISIONS)
 
     def __iter__(self):
         """
@@ -3868,9 +3893,10 @@ class Sequence(Asn1Value):
         if self.children is None:
             self._parse_children()
 
+        revision = self._revision()
+
         contents = BytesIO()
-        for index, info in enumerate(self._fields):
-            child = self.children[index]
+        for index, child in enumerate(self.children):
             if child is None:
                 child_dump = b''
             elif child.__class__ == tuple:
@@ -3881,17 +3907,33 @@ class Sequence(Asn1Value):
             else:
                 child_dump = child.dump(force=force)
             # Skip values that are the same as the default
-            if info[2] and 'default' in info[2]:
-                default_value = info[1](**info[2])
-                if default_value.dump() == child_dump:
-                    continue
+            if index < len(self._fields):
+                _, field_spec, field_params = self._fields[index]
+                if field_params and 'default' in field_params:
+                    default_value = field_spec(**field_params)
+                    if default_value.dump() == child_dump:
+                        continue
             contents.write(child_dump)
-        self._contents = contents.getvalue()
-        self._mutated = False
 
+        self._replace_contents(contents.getvalue(), revision)
+
+    def _replace_contents(self, contents, revision):
+        """
+        Sets the regenerated contents
+
+        :param contents:
+            A byte string of the encoded contents
+
+        :param revision:
+            An integer of the revision that contents was generated from
+        """
+
+        # The revision is set last so that if this is interrupted, the contents
+        # will be regenerated
         self._header = None
-        if self._trailer != b'':
-            self._trailer = b''
+        self._trailer = b''
+        self._contents = contents
+        self._contents_revision = revision
 
     def _setup(self):
         """
@@ -4297,7 +4339,8 @@ class Sequence(Asn1Value):
         if self.contents is None:
             return None
 
-        if self._native is None:
+        revision = self._revision()
+        if self._native is None or revision > self._native_revision:
             if self.children is None:
                 self._parse_children(recurse=True)
             try:
@@ -4311,6 +4354,7 @@ class Sequence(Asn1Value):
                         name = str_cls(index)
                     native[name] = child.native
                 self._native = native
+                self._native_revision = revision
             except (ValueError, TypeError) as e:
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
@@ -4330,13 +4374,17 @@ class Sequence(Asn1Value):
         """
 
         super(Sequence, self)._copy(other, copy_func)
-        if self.children is not None:
-            self.children = []
+        # This is generated again, since otherwise it would not be part of the
+        # native value of a parent
+        self._native = None
+        if other.children is not None:
+            children = []
             for child in other.children:
                 if child.__class__ == tuple:
-                    self.children.append(child)
+                    children.append(child)
                 else:
-                    self.children.append(child.copy())
+                    children.append(child.copy())
+            self.children = children
 
     def debug(self, nest_level=1):
         """
@@ -4413,8 +4461,11 @@ class SequenceOf(Asn1Value):
     # of child objects can be checked to ensure everything is up-to-date
     _contents = None
 
-    # Variable to track if the object has been mutated
-    _mutated = False
+    # The revision of the last change made directly to the object, and the
+    # revisions _contents and _native were generated from
+    _changed_revision = 0
+    _contents_revision = 0
+    _native_revision = 0
 
     # An Asn1Value class to use when parsing children
     _child_spec = None
@@ -4486,6 +4537,16 @@ class SequenceOf(Asn1Value):
 
         self._contents = value
 
+    @property
+    def _mutated(self):
+        """
+        :return:
+            A boolean - if the object itself has been mutated since the contents
+            were last generated
+        """
+
+        return self._changed_revision > self._contents_revision
+
     def _is_mutated(self):
         """
         :return:
@@ -4493,13 +4554,23 @@ class SequenceOf(Asn1Value):
             mutated
         """
 
-        mutated = self._mutated
+        return self._revision() > self._contents_revision
+
+    def _revision(self):
+        """
+        :return:
+            An integer - the revision of the last change made to the sequence
+            or any children (recursively)
+        """
+
+        revision = self._changed_revision
         if self.children is not None:
             for child in self.children:
+                child = _nested_value(child)
                 if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
+                    revision = max(revision, child._revision())
 
-        return mutated
+        return revision
 
     def _lazy_child(self, index):
         """
@@ -4610,22 +4681,16 @@ class SequenceOf(Asn1Value):
 
         new_value = self._make_value(value)
 
-        new_native = None
         if self._native is not None:
-            new_native = new_value.native
+            # Ensures that a value that can not be converted is refused
+            new_value.native
 
-        # If adding at the end, create a space for the new value
         if key == len(self.children):
-            self.children.append(None)
-            if self._native is not None:
-                self._native.append(None)
-
-        self.children[key] = new_value
-
-        if self._native is not None:
-            self._native[key] = new_native
+            self.children.append(new_value)
+        else:
+            self.children[key] = new_value
 
-        self._mutated = True
+        self._changed_revision = next(_REVISIONS)
 
     def __delitem__(self, key):
         """
@@ -4640,10 +4705,7 @@ class SequenceOf(Asn1Value):
             self._parse_children()
 
         self.children.pop(key)
-        if self._native is not None:
-            self._native.pop(key)
-
-        self._mutated = True
+        self._changed_revision = next(_REVISIONS)
 
     def __iter__(self):
         """
@@ -4703,13 +4765,11 @@ class SequenceOf(Asn1Value):
         new_value = self._make_value(value)
 
         if self._native is not None:
-            new_native = new_value.native
-            self.children.append(new_value)
-            self._native.append(new_native)
-        else:
-            self.children.append(new_value)
+            # Ensures that a value that can not be converted is refused
+            new_value.native
 
-        self._mutated = True
+        self.children.append(new_value)
+        self._changed_revision = next(_REVISIONS)
 
     def _set_contents(self, force=False):
         """
@@ -4723,14 +4783,31 @@ class SequenceOf(Asn1Value):
         if self.children is None:
             self._parse_children()
 
+        revision = self._revision()
+
         contents = BytesIO()
         for child in self:
             contents.write(child.dump(force=force))
-        self._contents = contents.getvalue()
-        self._mutated = False
+
+        self._replace_contents(contents.getvalue(), revision)
+
+    def _replace_contents(self, contents, revision):
+        """
+        Sets the regenerated contents
+
+        :param contents:
+            A byte string of the encoded contents
+
+        :param revision:
+            An integer of the revision that contents was generated from
+        """
+
+        # The revision is set last so that if this is interrupted, the contents
+        # will be regenerated
         self._header = None
-        if self._trailer != b'':
-            self._trailer = b''
+        self._trailer = b''
+        self._contents = contents
+        self._contents_revision = revision
 
     def _parse_children(self, recurse=False):
         """
@@ -4797,11 +4874,13 @@ class SequenceOf(Asn1Value):
         if self.contents is None:
             return None
 
-        if self._native is None:
+        revision = self._revision()
+        if self._native is None or revision > self._native_revision:
             if self.children is None:
                 self._parse_children(recurse=True)
             try:
                 self._native = [child.native for child in self]
+                self._native_revision = revision
             except (ValueError, TypeError) as e:
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
@@ -4821,13 +4900,16 @@ class SequenceOf(Asn1Value):
         """
 
         super(SequenceOf, self)._copy(other, copy_func)
-        if self.children is not None:
-            self.children = []
+        self._child_spec = other._child_spec
+        self._native = None
+        if other.children is not None:
+            children = []
             for child in other.children:
                 if child.__class__ == tuple:
-                    self.children.append(child)
+                    children.append(child)
                 else:
-                    self.children.append(child.copy())
+                    children.append(child.copy())
+            self.children = children
 
     def debug(self, nest_level=1):
         """
@@ -5042,9 +5124,15 @@ class Set(Sequence):
         if self.children is None:
             self._parse_children()
 
+        revision = self._revision()
+
         child_tag_encodings = []
-        for index, child in enumerate(self.children):
-            child_encoding = child.dump(force=force)
+        for index in range(0, len(self.children)):
+            child_encoding = self._lazy_child(index).dump(force=force)
+
+            # Absent optional children have no encoding
+            if child_encoding == b'':
+                continue
 
             # Skip encoding defaulted children
             name, spec, field_params = self._fields[index]
@@ -5052,14 +5140,13 @@ class Set(Sequence):
                 if spec(**field_params).dump() == child_encoding:
                     continue
 
-            child_tag_encodings.append((child.tag, child_encoding))
+            # The outermost class and tag are used, which is different than
+            # those of the child when the child is a Choice or explicitly tagged
+            parts, _ = _parse(child_encoding, len(child_encoding))
+            child_tag_encodings.append(((parts[0], parts[2]), child_encoding))
         child_tag_encodings.sort(key=lambda ct: ct[0])
 
-        self._contents = b''.join([ct[1] for ct in child_tag_encodings])
-        self._mutated = False
-        self._header = None
-        if self._trailer != b'':
-            self._trailer = b''
+        self._replace_contents(b''.join([ct[1] for ct in child_tag_encodings]), revision)
 
 
 class SetOf(SequenceOf):
@@ -5085,15 +5172,13 @@ class SetOf(SequenceOf):
         if self.children is None:
             self._parse_children()
 
+        revision = self._revision()
+
         child_encodings = []
         for child in self:
             child_encodings.append(child.dump(force=force))
 
-        self._contents = b''.join(sorted(child_encodings))
-        self._mutated = False
-        self._header = None
-        if self._trailer != b'':
-            self._trailer = b''
+        self._replace_contents(b''.join(sorted(child_encodings)), revision)
 
 
 class EmbeddedPdv(Sequence):
@@ -5557,6 +5642,27 @@ def _tag_type_to_explicit_implicit(params):
     return params
 
 
+def _nested_value(value):
+    """
+    Obtains the value that is encoded by a Choice or Any
+
+    :param value:
+        An Asn1Value object, None, or a tuple of a child not built yet
+
+    :return:
+        The already parsed value inside of a Choice or Any object, otherwise the
+        value that was passed
+    """
+
+    while True:
+        if isinstance(value, Choice):
+            value = value._parsed
+        elif isinstance(value, Any):
+            value = value._parsed[0] if value._parsed is not None else None
+        else:
+            return value
+
+
 def _fix_tagging(value, params):
     """
     Checks if a value is properly tagged based on the spec, and re/untags as
-- 
2.43.0


From e4e6e48367e24eaff89b431413bc9150d69bed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:12 +0000
Subject: [PATCH 14/54] fix: keep the tagging, child spec and encoded width of
 copied and pickled values

---
 asn1crypto/core.py | 67 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 106ea19..48fddc1 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -171,13 +171,13 @@ def load(encoded_data, strict=False):
     return Asn1Value.load(encoded_data, strict=strict)
 
 
-def unpickle_helper(asn1crypto_cls, der_bytes):
+def unpickle_helper(asn1crypto_cls, der_bytes, params=None):
     """
     Helper function to integrate with pickle.
 
     Note that this must be an importable top-level function.
     """
-    return asn1crypto_cls.load(der_bytes)
+    return asn1crypto_cls.load(der_bytes, **(params or {}))
 
 
 class Asn1Value(object):
@@ -500,8 +500,26 @@ class Asn1Value(object):
         """
         Permits pickling Asn1Value objects using their DER representation.
         """
+        params = self._pickle_params()
+        if params:
+            return unpickle_helper, (self.__class__, self.dump(), params)
         return unpickle_helper, (self.__class__, self.dump())
 
+    def _pickle_params(self):
+        """
+        :return:
+            A dict of the params, such as tagging, that were not defined by the
+            class and thus are necessary to load the encoded value
+        """
+
+        params = {}
+        cls_explicit = self.__class__.explicit or ()
+        if self.explicit is not None and self.explicit != cls_explicit:
+            params['explicit'] = self.explicit[len(cls_explicit):]
+        if self.implicit and not self.__class__.implicit:
+            params['implicit'] = (self.class_, self.tag)
+        return params
+
     def _new_instance(self):
         """
         Constructs a new copy of the current object, preserving any tagging
@@ -890,6 +908,21 @@ class Void(Asn1Value):
     def __iter__(self):
         return iter(())
 
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo):
+        return self
+
+    def __reduce__(self):
+        """
+        Permits pickling even though there is no encoded value to load
+        """
+
+        if self is VOID:
+            return 'VOID'
+        return self.__class__, ()
+
     @property
     def native(self):
         """
@@ -2809,6 +2842,21 @@ class IntegerOctetString(Constructable, Castable, Primitive):
     # exact number of bytes, even if the leading bytes are null.
     _encoded_width = None
 
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another IntegerOctetString object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        super(IntegerOctetString, self)._copy(other, copy_func)
+        self._encoded_width = other._encoded_width
+
     def set(self, value):
         """
         Sets the value of the object
@@ -4572,6 +4620,18 @@ class SequenceOf(Asn1Value):
 
         return revision
 
+    def _pickle_params(self):
+        """
+        :return:
+            A dict of the params, such as tagging, that were not defined by the
+            class and thus are necessary to load the encoded value
+        """
+
+        params = super(SequenceOf, self)._pickle_params()
+        if self._child_spec is not self.__class__._child_spec:
+            params['spec'] = self._child_spec
+        return params
+
     def _lazy_child(self, index):
         """
         Builds a child object if the child has only been parsed into a tuple so far
@@ -4900,7 +4960,8 @@ class SequenceOf(Asn1Value):
         """
 
         super(SequenceOf, self)._copy(other, copy_func)
-        self._child_spec = other._child_spec
+        if other._child_spec is not self._child_spec:
+            self._child_spec = other._child_spec
         self._native = None
         if other.children is not None:
             children = []
-- 
2.43.0


From d8f72f5aac3b33c1819eac9fe6a14e1794c45a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:38 +0000
Subject: [PATCH 15/54] fix: only cache the computed properties of
 certificates, CRLs, OCSP and keys once complete

Otherwise an error, an interruption or another thread left or observed a partial
result, which later reads returned as if it was complete.
---
 asn1crypto/crl.py  | 26 +++++++++++++---------
 asn1crypto/keys.py | 14 ++++++------
 asn1crypto/ocsp.py | 20 ++++++++++-------
 asn1crypto/x509.py | 54 +++++++++++++++++++++++++++++-----------------
 4 files changed, 70 insertions(+), 44 deletions(-)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index bf30196..d2a946c 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -180,7 +180,7 @@ class RevokedCertificate(Sequence):
         of critical extensions
         """
 
-        self._critical_extensions = set()
+        critical_extensions = set()
 
         for extension in self['crl_entry_extensions']:
             name = extension['extn_id'].native
@@ -188,8 +188,9 @@ class RevokedCertificate(Sequence):
             if hasattr(self, attribute_name):
                 setattr(self, attribute_name, extension['extn_value'].parsed)
             if extension['critical'].native:
-                self._critical_extensions.add(name)
+                critical_extensions.add(name)
 
+        self._critical_extensions = critical_extensions
         self._processed_extensions = True
 
     @property
@@ -258,12 +259,13 @@ class RevokedCertificate(Sequence):
         """
 
         if self._issuer_name is False:
-            self._issuer_name = None
+            issuer_name = None
             if self.certificate_issuer_value:
                 for general_name in self.certificate_issuer_value:
                     if general_name.name == 'directory_name':
-                        self._issuer_name = general_name.chosen
+                        issuer_name = general_name.chosen
                         break
+            self._issuer_name = issuer_name
         return self._issuer_name
 
 
@@ -310,7 +312,7 @@ class CertificateList(Sequence):
         of critical extensions
         """
 
-        self._critical_extensions = set()
+        critical_extensions = set()
 
         for extension in self['tbs_cert_list']['crl_extensions']:
             name = extension['extn_id'].native
@@ -318,8 +320,9 @@ class CertificateList(Sequence):
             if hasattr(self, attribute_name):
                 setattr(self, attribute_name, extension['extn_value'].parsed)
             if extension['critical'].native:
-                self._critical_extensions.add(name)
+                critical_extensions.add(name)
 
+        self._critical_extensions = critical_extensions
         self._processed_extensions = True
 
     @property
@@ -466,7 +469,7 @@ class CertificateList(Sequence):
         """
 
         if self._issuer_cert_urls is None:
-            self._issuer_cert_urls = []
+            issuer_cert_urls = []
             if self.authority_information_access_value:
                 for entry in self.authority_information_access_value:
                     if entry['access_method'].native == 'ca_issuers':
@@ -475,7 +478,8 @@ class CertificateList(Sequence):
                             continue
                         url = location.native
                         if url.lower()[0:7] == 'http://':
-                            self._issuer_cert_urls.append(url)
+                            issuer_cert_urls.append(url)
+            self._issuer_cert_urls = issuer_cert_urls
         return self._issuer_cert_urls
 
     @property
@@ -488,7 +492,7 @@ class CertificateList(Sequence):
         """
 
         if self._delta_crl_distribution_points is None:
-            self._delta_crl_distribution_points = []
+            delta_crl_distribution_points = []
 
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
@@ -499,7 +503,9 @@ class CertificateList(Sequence):
                     # This library is currently only concerned with HTTP-based CRLs
                     for general_name in distribution_point_name.chosen:
                         if general_name.name == 'uniform_resource_identifier':
-                            self._delta_crl_distribution_points.append(distribution_point)
+                            delta_crl_distribution_points.append(distribution_point)
+
+            self._delta_crl_distribution_points = delta_crl_distribution_points
 
         return self._delta_crl_distribution_points
 
diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 92716e1..21c4f65 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -926,10 +926,11 @@ class PrivateKeyInfo(Sequence):
                 prime = self['private_key_algorithm']['parameters']['p'].native
             elif self.algorithm == 'ec':
                 prime = self['private_key'].parsed['private_key'].native
-            self._bit_size = int(math.ceil(math.log(prime, 2)))
-            modulus = self._bit_size % 8
+            bit_size = int(math.ceil(math.log(prime, 2)))
+            modulus = bit_size % 8
             if modulus != 0:
-                self._bit_size += 8 - modulus
+                bit_size += 8 - modulus
+            self._bit_size = bit_size
         return self._bit_size
 
     @property
@@ -1256,10 +1257,11 @@ class PublicKeyInfo(Sequence):
                     prime = self['public_key'].parsed['modulus'].native
                 elif self.algorithm == 'dsa':
                     prime = self['algorithm']['parameters']['p'].native
-                self._bit_size = int(math.ceil(math.log(prime, 2)))
-                modulus = self._bit_size % 8
+                bit_size = int(math.ceil(math.log(prime, 2)))
+                modulus = bit_size % 8
                 if modulus != 0:
-                    self._bit_size += 8 - modulus
+                    bit_size += 8 - modulus
+                self._bit_size = bit_size
 
         return self._bit_size
 
diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index 91c7fbf..ab04169 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -98,7 +98,7 @@ class Request(Sequence):
         of critical extensions
         """
 
-        self._critical_extensions = set()
+        critical_extensions = set()
 
         for extension in self['single_request_extensions']:
             name = extension['extn_id'].native
@@ -106,8 +106,9 @@ class Request(Sequence):
             if hasattr(self, attribute_name):
                 setattr(self, attribute_name, extension['extn_value'].parsed)
             if extension['critical'].native:
-                self._critical_extensions.add(name)
+                critical_extensions.add(name)
 
+        self._critical_extensions = critical_extensions
         self._processed_extensions = True
 
     @property
@@ -230,7 +231,7 @@ class OCSPRequest(Sequence):
         of critical extensions
         """
 
-        self._critical_extensions = set()
+        critical_extensions = set()
 
         for extension in self['tbs_request']['request_extensions']:
             name = extension['extn_id'].native
@@ -238,8 +239,9 @@ class OCSPRequest(Sequence):
             if hasattr(self, attribute_name):
                 setattr(self, attribute_name, extension['extn_value'].parsed)
             if extension['critical'].native:
-                self._critical_extensions.add(name)
+                critical_extensions.add(name)
 
+        self._critical_extensions = critical_extensions
         self._processed_extensions = True
 
     @property
@@ -452,7 +454,7 @@ class SingleResponse(Sequence):
         of critical extensions
         """
 
-        self._critical_extensions = set()
+        critical_extensions = set()
 
         for extension in self['single_extensions']:
             name = extension['extn_id'].native
@@ -460,8 +462,9 @@ class SingleResponse(Sequence):
             if hasattr(self, attribute_name):
                 setattr(self, attribute_name, extension['extn_value'].parsed)
             if extension['critical'].native:
-                self._critical_extensions.add(name)
+                critical_extensions.add(name)
 
+        self._critical_extensions = critical_extensions
         self._processed_extensions = True
 
     @property
@@ -626,7 +629,7 @@ class OCSPResponse(Sequence):
         of critical extensions
         """
 
-        self._critical_extensions = set()
+        critical_extensions = set()
 
         for extension in self['response_bytes']['response'].parsed['tbs_response_data']['response_extensions']:
             name = extension['extn_id'].native
@@ -634,8 +637,9 @@ class OCSPResponse(Sequence):
             if hasattr(self, attribute_name):
                 setattr(self, attribute_name, extension['extn_value'].parsed)
             if extension['critical'].native:
-                self._critical_extensions.add(name)
+                critical_extensions.add(name)
 
+        self._critical_extensions = critical_extensions
         self._processed_extensions = True
 
     @property
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 7bef665..9c8ff2e 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -984,6 +984,9 @@ class Name(Choice):
         ('', RDNSequence),
     ]
 
+    # The revision of the RDNSequence that _native was generated from
+    _native_revision = None
+
     _human_friendly = None
     _sha1 = None
     _sha256 = None
@@ -1093,18 +1096,21 @@ class Name(Choice):
 
     @property
     def native(self):
-        if self._native is None:
-            self._native = OrderedDict()
+        revision = self.chosen._revision()
+        if self._native is None or self._native_revision != revision:
+            native = OrderedDict()
             for rdn in self.chosen.native:
                 for type_val in rdn:
                     field_name = type_val['type']
-                    if field_name in self._native:
-                        existing = self._native[field_name]
+                    if field_name in native:
+                        existing = native[field_name]
                         if not isinstance(existing, list):
-                            existing = self._native[field_name] = [existing]
+                            existing = native[field_name] = [existing]
                         existing.append(type_val['value'])
                     else:
-                        self._native[field_name] = type_val['value']
+                        native[field_name] = type_val['value']
+            self._native = native
+            self._native_revision = revision
         return self._native
 
     @property
@@ -1573,7 +1579,7 @@ class DistributionPoint(Sequence):
         """
 
         if self._url is False:
-            self._url = None
+            found_url = None
             name = self['distribution_point']
             if name.name != 'full_name':
                 raise ValueError(unwrap(
@@ -1587,9 +1593,11 @@ class DistributionPoint(Sequence):
                 if general_name.name == 'uniform_resource_identifier':
                     url = general_name.native
                     if url.lower().startswith(('http://', 'https://', 'ldap://', 'ldaps://')):
-                        self._url = url
+                        found_url = url
                         break
 
+            self._url = found_url
+
         return self._url
 
 
@@ -2209,7 +2217,7 @@ class Certificate(Sequence):
         of critical extensions
         """
 
-        self._critical_extensions = set()
+        critical_extensions = set()
 
         for extension in self['tbs_certificate']['extensions']:
             name = extension['extn_id'].native
@@ -2217,8 +2225,9 @@ class Certificate(Sequence):
             if hasattr(self, attribute_name):
                 setattr(self, attribute_name, extension['extn_value'].parsed)
             if extension['critical'].native:
-                self._critical_extensions.add(name)
+                critical_extensions.add(name)
 
+        self._critical_extensions = critical_extensions
         self._processed_extensions = True
 
     @property
@@ -2751,15 +2760,15 @@ class Certificate(Sequence):
         """
 
         if self._valid_domains is None:
-            self._valid_domains = []
+            valid_domains = []
 
             # For the subject alt name extension, we can look at the name of
             # the choice selected since it distinguishes between domain names,
             # email addresses, IPs, etc
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
-                    if general_name.name == 'dns_name' and general_name.native not in self._valid_domains:
-                        self._valid_domains.append(general_name.native)
+                    if general_name.name == 'dns_name' and general_name.native not in valid_domains:
+                        valid_domains.append(general_name.native)
 
             # If there was no subject alt name extension, and the common name
             # in the subject looks like a domain, that is considered the valid
@@ -2773,7 +2782,9 @@ class Certificate(Sequence):
                         if name_type_value['type'].native == 'common_name':
                             value = name_type_value['value'].native
                             if pattern.match(value):
-                                self._valid_domains.append(value)
+                                valid_domains.append(value)
+
+            self._valid_domains = valid_domains
 
         return self._valid_domains
 
@@ -2785,12 +2796,14 @@ class Certificate(Sequence):
         """
 
         if self._valid_ips is None:
-            self._valid_ips = []
+            valid_ips = []
 
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
                     if general_name.name == 'ip_address':
-                        self._valid_ips.append(general_name.native)
+                        valid_ips.append(general_name.native)
+
+            self._valid_ips = valid_ips
 
         return self._valid_ips
 
@@ -2841,15 +2854,16 @@ class Certificate(Sequence):
         """
 
         if self._self_signed is None:
-            self._self_signed = 'no'
+            self_signed = 'no'
             if self.self_issued:
                 if self.key_identifier:
                     if not self.authority_key_identifier:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                     elif self.authority_key_identifier == self.key_identifier:
-                        self._self_signed = 'maybe'
+                        self_signed = 'maybe'
                 else:
-                    self._self_signed = 'maybe'
+                    self_signed = 'maybe'
+            self._self_signed = self_signed
         return self._self_signed
 
     @property
-- 
2.43.0


From efcf5c42942805f32b3e1d72ffbfed360d4c1a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:52 +0000
Subject: [PATCH 16/54] fix: never return a PEM block that was cut off, or mix
 it with the block that follows

---
 asn1crypto/pem.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/pem.py b/asn1crypto/pem.py
index 2d18f3c..c1bc572 100644
--- a/asn1crypto/pem.py
+++ b/asn1crypto/pem.py
@@ -24,6 +24,10 @@ else:
     from io import BytesIO
 
 
+_BEGIN_RE = re.compile(b'(?:---- |-----)BEGIN ([A-Z0-9 ]+)(?: ----|-----)(?!-*BEGIN )')
+_END_RE = re.compile(b'(?:---- |-----)END [A-Z0-9 ]+(?: ----|-----)(?=$|[^-]|-----BEGIN )')
+
+
 def detect(byte_string):
     """
     Detect if a byte string seems to contain a PEM-encoded block
@@ -151,7 +155,7 @@ def _unarmor(pem_bytes):
         if state == "trash":
             # Look for a starting line since some CA cert bundle show the cert
             # into in a parsed format above each PEM block
-            type_name_match = re.match(b'^(?:---- |-----)BEGIN ([A-Z0-9 ]+)(?: ----|-----)', line)
+            type_name_match = _BEGIN_RE.match(line)
             if not type_name_match:
                 continue
             object_type = type_name_match.group(1).decode('ascii')
@@ -160,6 +164,18 @@ def _unarmor(pem_bytes):
             state = 'headers'
             continue
 
+        # If a new block starts before the end of the current one, the current
+        # one was cut off, thus it must not be returned or mixed with the new one
+        end_match = _END_RE.match(line)
+        if not end_match:
+            type_name_match = _BEGIN_RE.search(line)
+            if type_name_match:
+                object_type = type_name_match.group(1).decode('ascii')
+                headers = {}
+                base64_data = bytearray()
+                state = 'headers'
+                continue
+
         if state == 'headers':
             if line.find(b':') == -1:
                 state = 'body'
@@ -171,6 +187,15 @@ def _unarmor(pem_bytes):
 
         if state == 'body':
             if line[0:5] in (b'-----', b'---- '):
+                # Anything other than a complete end line means that the block
+                # was cut off
+                if not end_match:
+                    state = 'trash'
+                    headers = {}
+                    base64_data = bytearray()
+                    object_type = None
+                    continue
+
                 # Python 2.6's binascii does not accept bytearray objects,
                 # so convert to a string before decoding on that version.
                 if sys.version_info < (2, 7):
@@ -184,6 +209,12 @@ def _unarmor(pem_bytes):
                 base64_data = bytearray()
                 object_type = None
                 found_end = True
+
+                # The next block may start right after the end of this one
+                type_name_match = _BEGIN_RE.match(line[end_match.end():])
+                if type_name_match:
+                    object_type = type_name_match.group(1).decode('ascii')
+                    state = 'headers'
                 continue
 
             base64_data += line
-- 
2.43.0


From ba082fb31582b58a3dfab57b2615b33724f5756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:41 +0000
Subject: [PATCH 17/54] fix: strict_teletex() scopes may be nested or overlap

---
 asn1crypto/x509.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 9c8ff2e..1f8c6e7 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -471,6 +471,9 @@ class NotReallyTeletexString(TeletexString):
 
     _decoding_encoding = 'cp1252'
 
+    # The strict_teletex() scopes that have been entered, but not left yet
+    _strict_scopes = set()
+
     def __unicode__(self):
         """
         :return:
@@ -480,17 +483,21 @@ class NotReallyTeletexString(TeletexString):
         if self.contents is None:
             return ''
         if self._unicode is None:
-            self._unicode = self._merge_chunks().decode(self._decoding_encoding)
+            encoding = 'teletex' if self._strict_scopes else self._decoding_encoding
+            self._unicode = self._merge_chunks().decode(encoding)
         return self._unicode
 
 
 @contextmanager
 def strict_teletex():
+    # Every scope is tracked since they may be nested, and when used in
+    # generators, tasks or threads, may be left in a different order
+    scope = object()
     try:
-        NotReallyTeletexString._decoding_encoding = 'teletex'
+        NotReallyTeletexString._strict_scopes.add(scope)
         yield
     finally:
-        NotReallyTeletexString._decoding_encoding = 'cp1252'
+        NotReallyTeletexString._strict_scopes.discard(scope)
 
 
 class DirectoryString(Choice):
-- 
2.43.0


From 5215863cc723788d19f67416b9f2992adac4f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:24 +0000
Subject: [PATCH 18/54] fix: refuse unusable values with ValueError instead of
 other exceptions

Unknown key algorithms, enumerated values, OCSP response types, CRL distribution
points without a name, empty bit strings, corrupt compressed data and types that
have no Python implementation raised KeyError, IndexError, AttributeError,
UnboundLocalError or zlib.error.
---
 asn1crypto/cms.py  |  5 ++++-
 asn1crypto/core.py | 46 +++++++++++++++++++++++++++++++++++++++-------
 asn1crypto/crl.py  |  3 +++
 asn1crypto/keys.py | 18 ++++++++++++++++--
 asn1crypto/ocsp.py | 12 ++++++++++--
 asn1crypto/x509.py |  2 ++
 6 files changed, 74 insertions(+), 12 deletions(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index 627aa70..8356699 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -930,7 +930,10 @@ class CompressedData(Sequence):
         if self._decompressed is None:
             if zlib is None:
                 raise SystemError('The zlib module is not available')
-            self._decompressed = zlib.decompress(self['encap_content_info']['content'].native)
+            try:
+                self._decompressed = zlib.decompress(self['encap_content_info']['content'].native)
+            except zlib.error as e:
+                raise ValueError('Unable to decompress the content - %s' % e)
         return self._decompressed
 
 
diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 48fddc1..53f08a4 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2174,6 +2174,10 @@ class _IntegerBitString(object):
             # return an empty chunk, for cases like \x23\x80\x00\x00
             return []
 
+        if len(self.contents) == 0:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string must have an initial octet for the number of unused bits')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         value = int_from_bytes(self.contents[1:])
         bits = (len(self.contents) - 1) * 8
@@ -2630,6 +2634,14 @@ class OctetBitString(Constructable, Castable, Primitive):
             List with one tuple, consisting of a byte string and an integer (unused bits)
         """
 
+        if self._indefinite:
+            # return an empty chunk, for cases like \x23\x80\x00\x00
+            return []
+
+        if len(self.contents) == 0:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string must have an initial octet for the number of unused bits')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if not unused_bits_len:
             return [(self.contents[1:], ())]
@@ -3177,6 +3189,14 @@ class ParsableOctetBitString(ParsableOctetString):
             A byte string
         """
 
+        if self._indefinite:
+            # return an empty chunk, for cases like \x23\x80\x00\x00
+            return b''
+
+        if len(self.contents) == 0:
+            # Disallowed by X.690 §8.6.2.1
+            raise ValueError('Bit string must have an initial octet for the number of unused bits')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if unused_bits_len:
             raise ValueError('ParsableOctetBitString should have no unused bits')
@@ -3447,25 +3467,28 @@ class ObjectIdentifier(Primitive, ValueMap):
         return native
 
 
-class ObjectDescriptor(Primitive):
+class ObjectDescriptor(OctetString):
     """
-    Represents an object descriptor from ASN.1 - no Python implementation
+    Represents an object descriptor from ASN.1 - no Python implementation, thus
+    the native value is the byte string of the contents
     """
 
     tag = 7
 
 
-class InstanceOf(Primitive):
+class InstanceOf(OctetString):
     """
-    Represents an instance from ASN.1 - no Python implementation
+    Represents an instance from ASN.1 - no Python implementation, thus the
+    native value is the byte string of the contents
     """
 
     tag = 8
 
 
-class Real(Primitive):
+class Real(OctetString):
     """
-    Represents a real number from ASN.1 - no Python implementation
+    Represents a real number from ASN.1 - no Python implementation, thus the
+    native value is the byte string of the contents
     """
 
     tag = 9
@@ -3536,7 +3559,16 @@ class Enumerated(Integer):
             return None
 
         if self._native is None:
-            self._native = self._map[self.__int__()]
+            value = self.__int__()
+            if value not in self._map:
+                raise ValueError(unwrap(
+                    '''
+                    %s value %s is not a valid value
+                    ''',
+                    type_name(self),
+                    value
+                ))
+            self._native = self._map[value]
         return self._native
 
 
diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index d2a946c..796cf67 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -24,6 +24,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .x509 import (
     AuthorityInfoAccessSyntax,
@@ -497,6 +498,8 @@ class CertificateList(Sequence):
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
                     distribution_point_name = distribution_point['distribution_point']
+                    if distribution_point_name is VOID:
+                        continue
                     # RFC 5280 indicates conforming CA should not use the relative form
                     if distribution_point_name.name == 'name_relative_to_crl_issuer':
                         continue
diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 21c4f65..5627d4b 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -730,7 +730,7 @@ class PrivateKeyInfo(Sequence):
             'x448': OctetString,
             'ed25519': OctetString,
             'ed448': OctetString,
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'private_key': _private_key_spec
@@ -926,6 +926,13 @@ class PrivateKeyInfo(Sequence):
                 prime = self['private_key_algorithm']['parameters']['p'].native
             elif self.algorithm == 'ec':
                 prime = self['private_key'].parsed['private_key'].native
+            else:
+                raise ValueError(unwrap(
+                    '''
+                    The bit size of %s keys is not known
+                    ''',
+                    self.algorithm.upper()
+                ))
             bit_size = int(math.ceil(math.log(prime, 2)))
             modulus = bit_size % 8
             if modulus != 0:
@@ -1098,7 +1105,7 @@ class PublicKeyInfo(Sequence):
             'x448': (OctetBitString, None),
             'ed25519': (OctetBitString, None),
             'ed448': (OctetBitString, None),
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'public_key': _public_key_spec
@@ -1257,6 +1264,13 @@ class PublicKeyInfo(Sequence):
                     prime = self['public_key'].parsed['modulus'].native
                 elif self.algorithm == 'dsa':
                     prime = self['algorithm']['parameters']['p'].native
+                else:
+                    raise ValueError(unwrap(
+                        '''
+                        The bit size of %s keys is not known
+                        ''',
+                        self.algorithm.upper()
+                    ))
                 bit_size = int(math.ceil(math.log(prime, 2)))
                 modulus = bit_size % 8
                 if modulus != 0:
diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index ab04169..931fd87 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -631,7 +631,7 @@ class OCSPResponse(Sequence):
 
         critical_extensions = set()
 
-        for extension in self['response_bytes']['response'].parsed['tbs_response_data']['response_extensions']:
+        for extension in self.response_data['response_extensions']:
             name = extension['extn_id'].native
             attribute_name = '_%s_value' % name
             if hasattr(self, attribute_name):
@@ -704,4 +704,12 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.ResponseData object
         """
 
-        return self['response_bytes']['response'].parsed['tbs_response_data']
+        response = self['response_bytes']['response'].parsed
+        if not isinstance(response, BasicOCSPResponse):
+            raise ValueError(unwrap(
+                '''
+                The response is not a basic OCSP response, but %s
+                ''',
+                self['response_bytes']['response_type'].native
+            ))
+        return response['tbs_response_data']
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 1f8c6e7..54116ac 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1588,6 +1588,8 @@ class DistributionPoint(Sequence):
         if self._url is False:
             found_url = None
             name = self['distribution_point']
+            if name is VOID:
+                return None
             if name.name != 'full_name':
                 raise ValueError(unwrap(
                     '''
-- 
2.43.0


From fd77a3bf10e8813471c960dda4687eebeab7a686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:32 +0000
Subject: [PATCH 19/54] fix: encode a GeneralizedTime before the year 1000 with
 a four-digit year

---
 asn1crypto/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 53f08a4..4ab10e2 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5573,14 +5573,18 @@ class GeneralizedTime(AbstractTime):
                 raise ValueError('Must be timezone aware')
 
             # Convert value to UTC.
-            value = value.astimezone(utc_with_dst)
+            try:
+                value = value.astimezone(utc_with_dst)
+            except (OverflowError):
+                raise ValueError('The time is not in range [0000, 9999] when converted to UTC')
 
             if value.microsecond:
                 fraction = '.' + str(value.microsecond).zfill(6).rstrip('0')
             else:
                 fraction = ''
 
-            value = value.strftime('%Y%m%d%H%M%S') + fraction + 'Z'
+            # strftime() does not zero-pad years before 1000 on all platforms
+            value = '%04d' % value.year + value.strftime('%m%d%H%M%S') + fraction + 'Z'
             if _PY2:
                 value = value.decode('ascii')
 
-- 
2.43.0


From 9c7f09618fbb2fc6a01cdac2efb43e69211a9728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:57 +0000
Subject: [PATCH 20/54] fix: re-encode the header of a Null when DER is forced

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 4ab10e2..d979bd3 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3222,6 +3222,9 @@ class Null(Primitive):
         """
 
         self.contents = b''
+        self._header = None
+        if self._trailer != b'':
+            self._trailer = b''
 
     @property
     def native(self):
-- 
2.43.0


From 5084abf7899593623620a23b23a7c70245650d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 21/54] fix: keep PEM blocks apart when a torn one is glued to
 the start of the next

---
 asn1crypto/pem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/pem.py b/asn1crypto/pem.py
index c1bc572..668cf8d 100644
--- a/asn1crypto/pem.py
+++ b/asn1crypto/pem.py
@@ -24,8 +24,8 @@ else:
     from io import BytesIO
 
 
-_BEGIN_RE = re.compile(b'(?:---- |-----)BEGIN ([A-Z0-9 ]+)(?: ----|-----)(?!-*BEGIN )')
-_END_RE = re.compile(b'(?:---- |-----)END [A-Z0-9 ]+(?: ----|-----)(?=$|[^-]|-----BEGIN )')
+_BEGIN_RE = re.compile(b'(?:---- |-----)BEGIN ([A-Z0-9 ]+)(?: ----|-----)(?!.*BEGIN )')
+_END_RE = re.compile(b'(?:---- |-----)END [A-Z0-9 ]+(?: ----|-----)(?=$|(?!BEGIN )[^-]|-----BEGIN )')
 
 
 def detect(byte_string):
-- 
2.43.0


From e6be4c5f158c9cd2c1e32103a934c8e7b97bc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:35 +0000
Subject: [PATCH 22/54] fix: determine the spec of a field of a Sequence that
 was only just loaded

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index d979bd3..491a731 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4404,6 +4404,9 @@ class Sequence(Asn1Value):
                 type_name(self)
             ))
 
+        if self.children is None:
+            self._parse_children()
+
         index = self._field_map[field_name]
         info = self._determine_spec(index)
 
-- 
2.43.0


From 8aece5dddb5eec95ffa0368ea1dbb112c3318c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 23/54] fix: do not fill absent fields of a present value from
 the default of its field

---
 asn1crypto/core.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 491a731..fd95a39 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3667,14 +3667,9 @@ class Sequence(Asn1Value):
 
         Asn1Value.__init__(self, **kwargs)
 
-        check_existing = False
-        if value is None and default is not None:
-            check_existing = True
-            if self.children is None:
-                if self.contents is None:
-                    check_existing = False
-                else:
-                    self._parse_children()
+        # A default is only for a value that is absent, it does not fill in the
+        # optional fields of one that is present
+        if value is None and default is not None and self.contents is None:
             value = default
 
         if value is not None:
@@ -3690,15 +3685,6 @@ class Sequence(Asn1Value):
                     unused_keys = set(keys)
 
                 for key in keys:
-                    # If we are setting defaults, but a real value has already
-                    # been set for the field, then skip it
-                    if check_existing:
-                        index = self._field_map[key]
-                        if index < len(self.children) and self.children[index] is not VOID:
-                            if key in unused_keys:
-                                unused_keys.remove(key)
-                            continue
-
                     if key in value:
                         self.__setitem__(key, value[key])
                         unused_keys.remove(key)
-- 
2.43.0


From ee0555f407fb7128c54a8f6d8214860e440ed044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:52 +0000
Subject: [PATCH 24/54] fix: reading an absent field that has a structured
 default does not re-encode its parents

---
 asn1crypto/core.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index fd95a39..bbe62bc 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4264,7 +4264,7 @@ class Sequence(Asn1Value):
                                 if 'optional' in field_params:
                                     children.append(VOID)
                                 else:
-                                    children.append(field_spec(**field_params))
+                                    children.append(_unmutated(field_spec(**field_params)))
                                 field += 1
                                 again = True
                                 continue
@@ -4320,7 +4320,7 @@ class Sequence(Asn1Value):
             while index < field_len:
                 name, field_spec, field_params = self._fields[index]
                 if 'default' in field_params:
-                    children.append(field_spec(**field_params))
+                    children.append(_unmutated(field_spec(**field_params)))
                 elif 'optional' in field_params:
                     children.append(VOID)
                 else:
@@ -5176,7 +5176,7 @@ class Set(Sequence):
                 elif 'optional' in field_params:
                     child_map[index] = VOID
                 elif 'default' in field_params:
-                    child_map[index] = field_spec(**field_params)
+                    child_map[index] = _unmutated(field_spec(**field_params))
 
                 if missing:
                     raise ValueError(unwrap(
@@ -5752,6 +5752,31 @@ def _nested_value(value):
             return value
 
 
+def _unmutated(value):
+    """
+    Marks a value as not having been changed since it was encoded. Used for the
+    default values of absent fields, so that the structure they are part of is
+    not considered to have been mutated.
+
+    :param value:
+        An Asn1Value object that was constructed from a native value
+
+    :return:
+        The value that was passed
+    """
+
+    nested = _nested_value(value)
+    if isinstance(nested, (Sequence, SequenceOf)) and nested.children is not None:
+        # Generates the encoded contents
+        nested.contents
+        for child in nested.children:
+            _unmutated(child)
+        nested._changed_revision = 0
+        nested._contents_revision = 0
+        nested._native_revision = 0
+    return value
+
+
 def _fix_tagging(value, params):
     """
     Checks if a value is properly tagged based on the spec, and re/untags as
-- 
2.43.0


From 9e71cba7cca7ad46b367cef55e9416508f1e3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:23 +0000
Subject: [PATCH 25/54] fix: copies of a value in constructed form keep that
 form

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index bbe62bc..e76985e 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -628,6 +628,8 @@ class Asn1Value(object):
                 type_name(self)
             ))
 
+        if self.method != other.method:
+            self.method = other.method
         self.contents = other.contents
         self._native = copy_func(other._native)
 
@@ -877,6 +879,7 @@ class Constructable(object):
         # We really don't want to dump BER encodings, so if we see an
         # indefinite encoding, let's re-encode it
         if other._indefinite:
+            self.method = 0
             self.set(other._setable_native())
 
 
-- 
2.43.0


From 62e341e2aa7a057d004286a51be70e601ce43248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 26/54] fix: parsing a Set with an element that is repeated
 does not depend on how it is read

---
 asn1crypto/core.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index e76985e..b68ee51 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5149,14 +5149,16 @@ class Set(Sequence):
                 else:
                     child = parts + (field_spec, field_params)
 
-                if recurse:
-                    child = _build(*child)
-                    if isinstance(child, (Sequence, SequenceOf)):
-                        child._parse_children(recurse=True)
-
                 child_map[field] = child
                 seen_field += 1
 
+            # Done last since a later element replaces an earlier one of the same field
+            if recurse:
+                for field, child in child_map.items():
+                    child = child_map[field] = _build(*child)
+                    if isinstance(child, (Sequence, SequenceOf)):
+                        child._parse_children(recurse=True)
+
             total_fields = len(self._fields)
 
             for index in range(0, total_fields):
-- 
2.43.0


From d5c6875f8132024e1e16d56c7b9004ddd49502c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:51 +0000
Subject: [PATCH 27/54] fix: copies of an untyped Sequence in an Any keep its
 encoding

---
 asn1crypto/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index b68ee51..c65eda6 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1113,6 +1113,10 @@ class Any(Asn1Value):
             self._header = other._header
             self._trailer = other._trailer
             self._parsed = copy_func(other._parsed)
+            # Without a spec the encoding is never forced to be DER
+            if other._parsed is not None and other._parsed[0].__class__ is Sequence:
+                if not other._parsed[0]._is_indefinite():
+                    self._parsed[0]._header = other._parsed[0]._header
             return
 
         # The tagging is part of the encoded value, thus it must be replaced
-- 
2.43.0


From 779867f8183a3a6d2c96b2bfa510a0679279c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:44 +0000
Subject: [PATCH 28/54] fix: a refused key or parameter leaves the private key
 as it was

---
 asn1crypto/keys.py | 77 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 5627d4b..369ef54 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -576,21 +576,34 @@ class ECPrivateKey(Sequence):
 
     # This is necessary to ensure the private_key IntegerOctetString is encoded properly
     def __setitem__(self, key, value):
+        if self.children is None:
+            self._parse_children()
+
+        children = list(self.children)
+        revision = self._changed_revision
+
         res = super(ECPrivateKey, self).__setitem__(key, value)
 
-        if key == 'private_key':
-            if self._key_size is None:
-                # Infer the key_size from the existing private key if possible
-                pkey_contents = self['private_key'].contents
-                if isinstance(pkey_contents, byte_cls) and len(pkey_contents) > 1:
-                    self.set_key_size(len(self['private_key'].contents))
+        try:
+            if key == 'private_key':
+                if self._key_size is None:
+                    # Infer the key_size from the existing private key if possible
+                    pkey_contents = self['private_key'].contents
+                    if isinstance(pkey_contents, byte_cls) and len(pkey_contents) > 1:
+                        self.set_key_size(len(self['private_key'].contents))
+
+                elif self._key_size is not None:
+                    self._update_key_size()
 
-            elif self._key_size is not None:
-                self._update_key_size()
+            elif key == 'parameters' and isinstance(self['parameters'], ECDomainParameters) and \
+                    self['parameters'].name != 'implicit_ca':
+                self.set_key_size(self['parameters'].key_size)
 
-        elif key == 'parameters' and isinstance(self['parameters'], ECDomainParameters) and \
-                self['parameters'].name != 'implicit_ca':
-            self.set_key_size(self['parameters'].key_size)
+        except Exception:
+            # The new value is refused, so the old one must stay in place
+            self.children = children
+            self._changed_revision = revision
+            raise
 
         return res
 
@@ -602,8 +615,13 @@ class ECPrivateKey(Sequence):
             An integer byte length to encode the private_key to
         """
 
+        old_key_size = self._key_size
         self._key_size = key_size
-        self._update_key_size()
+        try:
+            self._update_key_size()
+        except Exception:
+            self._key_size = old_key_size
+            raise
 
     def _update_key_size(self):
         """
@@ -812,19 +830,32 @@ class PrivateKeyInfo(Sequence):
     # This is necessary to ensure any contained ECPrivateKey is the
     # correct size
     def __setitem__(self, key, value):
+        if self.children is None:
+            self._parse_children()
+
+        children = list(self.children)
+        revision = self._changed_revision
+
         res = super(PrivateKeyInfo, self).__setitem__(key, value)
 
-        algorithm = self['private_key_algorithm']
-
-        # When possible, use the parameter info to make sure the private key encoding
-        # retains any necessary leading bytes, instead of them being dropped
-        if (key == 'private_key_algorithm' or key == 'private_key') and \
-                algorithm['algorithm'].native == 'ec' and \
-                isinstance(algorithm['parameters'], ECDomainParameters) and \
-                algorithm['parameters'].name != 'implicit_ca' and \
-                isinstance(self['private_key'], ParsableOctetString) and \
-                isinstance(self['private_key'].parsed, ECPrivateKey):
-            self['private_key'].parsed.set_key_size(algorithm['parameters'].key_size)
+        try:
+            algorithm = self['private_key_algorithm']
+
+            # When possible, use the parameter info to make sure the private key encoding
+            # retains any necessary leading bytes, instead of them being dropped
+            if (key == 'private_key_algorithm' or key == 'private_key') and \
+                    algorithm['algorithm'].native == 'ec' and \
+                    isinstance(algorithm['parameters'], ECDomainParameters) and \
+                    algorithm['parameters'].name != 'implicit_ca' and \
+                    isinstance(self['private_key'], ParsableOctetString) and \
+                    isinstance(self['private_key'].parsed, ECPrivateKey):
+                self['private_key'].parsed.set_key_size(algorithm['parameters'].key_size)
+
+        except Exception:
+            # The new value is refused, so the old one must stay in place
+            self.children = children
+            self._changed_revision = revision
+            raise
 
         return res
 
-- 
2.43.0


From 1826d0b789a008440ff997912d2171c397f0f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 29/54] fix: copies and reloaded EC private keys encode a new
 private key to the same length

---
 asn1crypto/keys.py | 51 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 369ef54..fb82297 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -587,12 +587,11 @@ class ECPrivateKey(Sequence):
         try:
             if key == 'private_key':
                 if self._key_size is None:
-                    # Infer the key_size from the existing private key if possible
-                    pkey_contents = self['private_key'].contents
-                    if isinstance(pkey_contents, byte_cls) and len(pkey_contents) > 1:
-                        self.set_key_size(len(self['private_key'].contents))
+                    key_size = self._infer_key_size(children)
+                    if key_size > 1 and isinstance(self['private_key'], IntegerOctetString):
+                        self['private_key'].set_encoded_width(key_size)
 
-                elif self._key_size is not None:
+                else:
                     self._update_key_size()
 
             elif key == 'parameters' and isinstance(self['parameters'], ECDomainParameters) and \
@@ -607,6 +606,48 @@ class ECPrivateKey(Sequence):
 
         return res
 
+    def _copy(self, other, copy_func):
+        """
+        Copies the contents of another ECPrivateKey object to itself
+
+        :param object:
+            Another instance of the same class
+
+        :param copy_func:
+            An reference of copy.copy() or copy.deepcopy() to use when copying
+            lists, dicts and objects
+        """
+
+        super(ECPrivateKey, self)._copy(other, copy_func)
+        self._key_size = other._key_size
+
+    def _infer_key_size(self, old_children):
+        """
+        Determines the length to encode a new private key to when no key size
+        was set - based on the parameters, or the private key that was replaced
+
+        :param old_children:
+            The list of children from before the private key was replaced
+
+        :return:
+            An integer byte length
+        """
+
+        parameters = self['parameters']
+        if isinstance(parameters, ECDomainParameters) and parameters.name != 'implicit_ca':
+            try:
+                return parameters.key_size
+            except (ValueError):
+                pass
+
+        key_size = len(self['private_key'].contents or b'')
+        old_key = old_children[self._field_map['private_key']]
+        if isinstance(old_key, tuple):
+            key_size = max(key_size, len(old_key[4]))
+        elif isinstance(old_key, IntegerOctetString):
+            key_size = max(key_size, len(old_key.contents or b''))
+        return key_size
+
     def set_key_size(self, key_size):
         """
         Sets the key_size to ensure the private key is encoded to the proper length
-- 
2.43.0


From 442a65b6be2ea6fe6c74478818cce0c8c1df1793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:10 +0000
Subject: [PATCH 30/54] fix: re-encode the header of an OCSP good or unknown
 status when DER is forced

---
 asn1crypto/ocsp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index 931fd87..9688168 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -340,7 +340,7 @@ class StatusGood(Null):
                 repr(value)
             ))
 
-        self.contents = b''
+        Null.set(self, None)
 
     @property
     def native(self):
@@ -365,7 +365,7 @@ class StatusUnknown(Null):
                 repr(value)
             ))
 
-        self.contents = b''
+        Null.set(self, None)
 
     @property
     def native(self):
-- 
2.43.0


From 9f086873eff53483da98b457b9d5e6b7a3f8370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:22 +0000
Subject: [PATCH 31/54] fix: refuse to name the key length, cipher and block
 size of other algorithms with ValueError

---
 asn1crypto/algos.py | 93 +++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 45 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 9ce15b6..dbb57f8 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1073,21 +1073,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
 
             return self['parameters']['encryption_scheme'].key_length
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 16,
-                'pkcs12_sha1_rc4_40': 5,
-                'pkcs12_sha1_tripledes_3key': 24,
-                'pkcs12_sha1_tripledes_2key': 16,
-                'pkcs12_sha1_rc2_128': 16,
-                'pkcs12_sha1_rc2_40': 5,
-            }[encryption_algo]
+        pb_schemes = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 16,
+            'pkcs12_sha1_rc4_40': 5,
+            'pkcs12_sha1_tripledes_3key': 24,
+            'pkcs12_sha1_tripledes_2key': 16,
+            'pkcs12_sha1_rc2_128': 16,
+            'pkcs12_sha1_rc2_40': 5,
+        }
+        if encryption_algo in pb_schemes:
+            return pb_schemes[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1156,21 +1157,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return self['parameters']['encryption_scheme'].encryption_cipher
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 'des',
-                'pbes1_md5_des': 'des',
-                'pbes1_md2_rc2': 'rc2',
-                'pbes1_md5_rc2': 'rc2',
-                'pbes1_sha1_des': 'des',
-                'pbes1_sha1_rc2': 'rc2',
-                'pkcs12_sha1_rc4_128': 'rc4',
-                'pkcs12_sha1_rc4_40': 'rc4',
-                'pkcs12_sha1_tripledes_3key': 'tripledes',
-                'pkcs12_sha1_tripledes_2key': 'tripledes',
-                'pkcs12_sha1_rc2_128': 'rc2',
-                'pkcs12_sha1_rc2_40': 'rc2',
-            }[encryption_algo]
+        pb_schemes = {
+            'pbes1_md2_des': 'des',
+            'pbes1_md5_des': 'des',
+            'pbes1_md2_rc2': 'rc2',
+            'pbes1_md5_rc2': 'rc2',
+            'pbes1_sha1_des': 'des',
+            'pbes1_sha1_rc2': 'rc2',
+            'pkcs12_sha1_rc4_128': 'rc4',
+            'pkcs12_sha1_rc4_40': 'rc4',
+            'pkcs12_sha1_tripledes_3key': 'tripledes',
+            'pkcs12_sha1_tripledes_2key': 'tripledes',
+            'pkcs12_sha1_rc2_128': 'rc2',
+            'pkcs12_sha1_rc2_40': 'rc2',
+        }
+        if encryption_algo in pb_schemes:
+            return pb_schemes[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1207,21 +1209,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return self['parameters']['encryption_scheme'].encryption_block_size
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 0,
-                'pkcs12_sha1_rc4_40': 0,
-                'pkcs12_sha1_tripledes_3key': 8,
-                'pkcs12_sha1_tripledes_2key': 8,
-                'pkcs12_sha1_rc2_128': 8,
-                'pkcs12_sha1_rc2_40': 8,
-            }[encryption_algo]
+        pb_schemes = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 0,
+            'pkcs12_sha1_rc4_40': 0,
+            'pkcs12_sha1_tripledes_3key': 8,
+            'pkcs12_sha1_tripledes_2key': 8,
+            'pkcs12_sha1_rc2_128': 8,
+            'pkcs12_sha1_rc2_40': 8,
+        }
+        if encryption_algo in pb_schemes:
+            return pb_schemes[encryption_algo]
 
         raise ValueError(unwrap(
             '''
-- 
2.43.0


From 97a2c814918aa217a5cc9bd8836796962ed5e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 32/54] fix: AnyAlgorithmIdentifier knows algorithms registered
 after, and before, its first use

---
 asn1crypto/algos.py | 74 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index dbb57f8..c5b9563 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1317,15 +1317,61 @@ class Pkcs5MacAlgorithm(Sequence):
 EncryptionAlgorithm._oid_specs['pbes2'] = Pbes2Params
 
 
-class AnyAlgorithmId(ObjectIdentifier):
-    _map = {}
+class _CombinedDict(dict):
+    """
+    A dict that also has the items of other dicts, including any items that are
+    added to those later on
+    """
+
+    def __init__(self, *others):
+        """
+        :param others:
+            The dicts to include the items of, a later one takes precedence
+        """
+
+        dict.__init__(self)
+        self._others = others
+
+    def __contains__(self, key):
+        return any(key in other for other in self._others) or dict.__contains__(self, key)
+
+    def __getitem__(self, key):
+        for other in reversed(self._others):
+            if key in other:
+                return other[key]
+        return dict.__getitem__(self, key)
 
-    def _setup(self):
-        _map = self.__class__._map
-        for other_cls in (EncryptionAlgorithmId, SignedDigestAlgorithmId, DigestAlgorithmId):
-            for oid, name in other_cls._map.items():
-                _map[oid] = name
-        ObjectIdentifier._setup(self)
+    def get(self, key, default=None):
+        return self[key] if key in self else default
+
+    def _combine(self):
+        combined = dict(dict.items(self))
+        for other in self._others:
+            combined.update(other)
+        return combined
+
+    def __iter__(self):
+        return iter(self._combine())
+
+    def __len__(self):
+        return len(self._combine())
+
+    def keys(self):
+        return self._combine().keys()
+
+    def values(self):
+        return self._combine().values()
+
+    def items(self):
+        return self._combine().items()
+
+
+class AnyAlgorithmId(ObjectIdentifier):
+    _map = _CombinedDict(
+        EncryptionAlgorithmId._map,
+        SignedDigestAlgorithmId._map,
+        DigestAlgorithmId._map
+    )
 
 
 class AnyAlgorithmIdentifier(_ForceNullParameters, Sequence):
@@ -1335,11 +1381,7 @@ class AnyAlgorithmIdentifier(_ForceNullParameters, Sequence):
     ]
 
     _oid_pair = ('algorithm', 'parameters')
-    _oid_specs = {}
-
-    def _setup(self):
-        Sequence._setup(self)
-        specs = self.__class__._oid_specs
-        for other_cls in (EncryptionAlgorithm, SignedDigestAlgorithm):
-            for oid, spec in other_cls._oid_specs.items():
-                specs[oid] = spec
+    _oid_specs = _CombinedDict(
+        EncryptionAlgorithm._oid_specs,
+        SignedDigestAlgorithm._oid_specs
+    )
-- 
2.43.0


From f2bdbeaa8f1c3843eb66e16ab8b5d8d2116cf9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:27 +0000
Subject: [PATCH 33/54] fix: keep the bytes of what is not really a teletex
 string when it is re-encoded

---
 asn1crypto/core.py | 12 +++++++++++-
 asn1crypto/x509.py | 45 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index c65eda6..448b4cd 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -880,7 +880,17 @@ class Constructable(object):
         # indefinite encoding, let's re-encode it
         if other._indefinite:
             self.method = 0
-            self.set(other._setable_native())
+            self._copy_chunks(other)
+
+    def _copy_chunks(self, other):
+        """
+        Sets the value to the merged chunks of another Constructable object
+
+        :param object:
+            Another instance of the same class
+        """
+
+        self.set(other._setable_native())
 
 
 class Void(Asn1Value):
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 54116ac..b73a430 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -487,6 +487,51 @@ class NotReallyTeletexString(TeletexString):
             self._unicode = self._merge_chunks().decode(encoding)
         return self._unicode
 
+    def _set_bytes(self, contents):
+        """
+        Sets the encoded contents, without involving the native value. What is
+        not really teletex would be changed, or refused, by .set().
+
+        :param contents:
+            A byte string
+        """
+
+        self.contents = contents
+        self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
+        if self._trailer != b'':
+            self._trailer = b''
+
+    def _copy_chunks(self, other):
+        """
+        Sets the value to the merged chunks of another object
+
+        :param object:
+            Another instance of the same class
+        """
+
+        self._set_bytes(other._merge_chunks())
+
+    def dump(self, force=False):
+        """
+        Encodes the value using DER
+
+        :param force:
+            If the encoded contents already exist, clear them and regenerate
+            to ensure they are in DER format instead of BER format
+
+        :return:
+            A byte string of the DER-encoded value
+        """
+
+        if force and self.contents is not None:
+            self._set_bytes(self._merge_chunks())
+            force = False
+
+        return super(NotReallyTeletexString, self).dump(force=force)
+
 
 @contextmanager
 def strict_teletex():
-- 
2.43.0


From d1418eebec7f46ce4fc92f9eb8c66ef96ea09e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:35 +0000
Subject: [PATCH 34/54] fix: asking a non-basic OCSP response for its data does
 not change its native value

---
 asn1crypto/ocsp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index 9688168..d569958 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -693,6 +693,10 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.BasicOCSPResponse object
         """
 
+        # Responses of other types are not parsed, since that would change
+        # their native value
+        if self['response_bytes']['response_type'].native != 'basic_ocsp_response':
+            return None
         return self['response_bytes']['response'].parsed
 
     @property
@@ -704,8 +708,8 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.ResponseData object
         """
 
-        response = self['response_bytes']['response'].parsed
-        if not isinstance(response, BasicOCSPResponse):
+        response = self.basic_ocsp_response
+        if response is None:
             raise ValueError(unwrap(
                 '''
                 The response is not a basic OCSP response, but %s
-- 
2.43.0


From 435422709202566bc27f431a7dc9a65a5dac36fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:22 +0000
Subject: [PATCH 35/54] fix: an IP address of a wrong length in a certificate
 is not a valid IP

---
 asn1crypto/x509.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index b73a430..3ca40a2 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2854,7 +2854,8 @@ class Certificate(Sequence):
 
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
-                    if general_name.name == 'ip_address':
+                    # An address of an unknown length has no native value
+                    if general_name.name == 'ip_address' and general_name.native is not None:
                         valid_ips.append(general_name.native)
 
             self._valid_ips = valid_ips
-- 
2.43.0


From 7ffcd04006719abb28e43b66f3c390fba9ff8d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:04 +0000
Subject: [PATCH 36/54] fix: keep the brackets around the IPv6 address of a URI

---
 asn1crypto/_iri.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 7394b4d..602a182 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -76,6 +76,9 @@ def iri_to_uri(value, normalize=False):
     hostname = parsed.hostname
     if hostname is not None:
         hostname = hostname.encode('idna')
+        # The brackets of an IPv6 address are not part of the parsed hostname
+        if b':' in hostname:
+            hostname = b'[' + hostname + b']'
     # RFC 3986 allows userinfo to contain sub-delims
     username = _urlquote(parsed.username, safe='!$&\'()*+,;=')
     password = _urlquote(parsed.password, safe='!$&\'()*+,;=')
@@ -147,6 +150,9 @@ def uri_to_iri(value):
     hostname = parsed.hostname
     if hostname:
         hostname = hostname.decode('idna')
+        # The brackets of an IPv6 address are not part of the parsed hostname
+        if ':' in hostname:
+            hostname = '[' + hostname + ']'
     port = parsed.port
     if port and not isinstance(port, int_types):
         port = port.decode('ascii')
-- 
2.43.0


From 2eec2f5f1aa398e06df95adf819e4819b669afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:13 +0000
Subject: [PATCH 37/54] fix: refuse to name the key derivation of other
 algorithms with ValueError

---
 asn1crypto/algos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index c5b9563..fbb3a06 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -900,7 +900,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self['parameters']['key_derivation_func']['parameters']['prf']['algorithm'].native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.split('_', 1)[0] in set(['pbes1', 'pkcs12']):
                 _, hmac_algo, _ = encryption_algo.split('_', 2)
                 return hmac_algo
 
@@ -946,7 +946,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return salt.native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.split('_', 1)[0] in set(['pbes1', 'pkcs12']):
                 return self['parameters']['salt'].native
 
             raise ValueError(unwrap(
@@ -982,7 +982,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self['parameters']['key_derivation_func']['parameters']['iteration_count'].native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo.split('_', 1)[0] in set(['pbes1', 'pkcs12']):
                 return self['parameters']['iterations'].native
 
             raise ValueError(unwrap(
-- 
2.43.0


From 8324d1d31f437bd48ce8248e42df0accd8abba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 38/54] fix: a Concat with a missing trailing child can be
 dumped

---
 asn1crypto/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 448b4cd..9456bee 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1730,7 +1730,9 @@ class Concat(object):
 
         contents = b''
         for child in self._children:
-            contents += child.dump(force=force)
+            # A child that was not part of the encoded data is not encoded
+            if child.contents is not None:
+                contents += child.dump(force=force)
         return contents
 
     @property
-- 
2.43.0


From 312e2e26d822282ecbd762c59c82738c5a146dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:42 +0000
Subject: [PATCH 39/54] fix: authority_issuer_serial of an issuer without a
 directory name

The first name may be of another kind, such as a DNS name, which has no hash.
---
 asn1crypto/x509.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 3ca40a2..f31d24c 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2715,9 +2715,14 @@ class Certificate(Sequence):
         """
 
         if self._authority_issuer_serial is False:
+            issuer = None
             akiv = self.authority_key_identifier_value
             if akiv and akiv['authority_cert_issuer'].native:
-                issuer = self.authority_key_identifier_value['authority_cert_issuer'][0].chosen
+                for general_name in akiv['authority_cert_issuer']:
+                    if general_name.name == 'directory_name':
+                        issuer = general_name.chosen
+                        break
+            if issuer is not None:
                 # We untag the element since it is tagged via being a choice from GeneralName
                 issuer = issuer.untag()
                 authority_serial = self.authority_key_identifier_value['authority_cert_serial_number'].native
-- 
2.43.0


From 51472d0f1af674cb105978d6662e9923010b78e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:41 +0000
Subject: [PATCH 40/54] fix: elements of a Set without field definitions can be
 read

---
 asn1crypto/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 9456bee..62ef147 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5114,6 +5114,10 @@ class Set(Sequence):
             ValueError - when an error occurs parsing child objects
         """
 
+        # Without field definitions there is nothing to match the elements to
+        if not self._fields:
+            return super(Set, self)._parse_children(recurse=recurse)
+
         cls = self.__class__
         encoded = self._contents
         if encoded is None:
@@ -5241,10 +5245,11 @@ class Set(Sequence):
                 continue
 
             # Skip encoding defaulted children
-            name, spec, field_params = self._fields[index]
-            if 'default' in field_params:
-                if spec(**field_params).dump() == child_encoding:
-                    continue
+            if index < len(self._fields):
+                name, spec, field_params = self._fields[index]
+                if 'default' in field_params:
+                    if spec(**field_params).dump() == child_encoding:
+                        continue
 
             # The outermost class and tag are used, which is different than
             # those of the child when the child is a Choice or explicitly tagged
-- 
2.43.0


From 3fa8b849c516f52939e3de48ed07700797bd77d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:17 +0000
Subject: [PATCH 41/54] fix: keep the tag of an implicitly tagged value when it
 is cast to another type

---
 asn1crypto/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 62ef147..3e2089d 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -790,6 +790,7 @@ class Castable(object):
 
         new_obj = other_class()
         new_obj.class_ = self.class_
+        new_obj.tag = self.tag
         new_obj.implicit = self.implicit
         new_obj.explicit = self.explicit
         new_obj._header = self._header
-- 
2.43.0


From 54d82a6a339576c64e5fc70e2542c802ac8a0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:51 +0000
Subject: [PATCH 42/54] fix: return the salt of an encryption algorithm that
 uses scrypt

---
 asn1crypto/algos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index fbb3a06..ea1681f 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -934,6 +934,10 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             salt = self['parameters']['key_derivation_func']['parameters']['salt']
 
+            # The salt used with scrypt is not a choice
+            if self.kdf == 'scrypt':
+                return salt.native
+
             if salt.name == 'other_source':
                 raise ValueError(unwrap(
                     '''
-- 
2.43.0


From f69e7f26e69b32938b0cf9cb101310349267fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:56 +0000
Subject: [PATCH 43/54] fix: refuse to name the curve of an EC key without
 parameters with ValueError

---
 asn1crypto/keys.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index fb82297..da1d6da 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -938,6 +938,13 @@ class PrivateKeyInfo(Sequence):
             ))
 
         params = self['private_key_algorithm']['parameters']
+        if not isinstance(params, ECDomainParameters):
+            raise ValueError(unwrap(
+                '''
+                The parameters of the EC key are absent
+                '''
+            ))
+
         chosen = params.chosen
 
         if params.name == 'implicit_ca':
@@ -1270,6 +1277,13 @@ class PublicKeyInfo(Sequence):
             ))
 
         params = self['algorithm']['parameters']
+        if not isinstance(params, ECDomainParameters):
+            raise ValueError(unwrap(
+                '''
+                The parameters of the EC key are absent
+                '''
+            ))
+
         chosen = params.chosen
 
         if params.name == 'implicit_ca':
-- 
2.43.0


From 0b13983e3b3fe641841d33eb9df022f082472cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:50 +0000
Subject: [PATCH 44/54] fix: refuse to convert a DSA signature that has a
 negative integer with ValueError

---
 asn1crypto/algos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index ea1681f..0383ba1 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -732,6 +732,9 @@ class DSASignature(Sequence):
             A byte string compatible with BCryptVerifySignature()
         """
 
+        if self['r'].native < 0 or self['s'].native < 0:
+            raise ValueError('the integers of the signature must not be negative')
+
         r_bytes = int_to_bytes(self['r'].native)
         s_bytes = int_to_bytes(self['s'].native)
 
-- 
2.43.0


From 16d12789e7dc54fccf31f9b6e1579debbe83e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:40 +0000
Subject: [PATCH 45/54] fix: quote URIs that contain both a NUL and a
 percent-encoded character

---
 asn1crypto/_iri.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 602a182..c87c7a9 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -213,9 +213,7 @@ def _urlquote(string, safe=''):
     if string is None or string == '':
         return None
 
-    # Anything already hex quoted is pulled out of the URL and unquoted if
-    # possible
-    escapes = []
+    # Anything already hex quoted is unquoted if possible
     if re.search('%[0-9a-fA-F]{2}', string):
         # Try to unquote any percent values, restoring them if they are not
         # valid UTF-8. Also, requote any safe chars since encoded versions of
@@ -228,22 +226,15 @@ def _urlquote(string, safe=''):
             return unicode_string
         string = re.sub('(?:%[0-9a-fA-F]{2})+', _try_unescape, string)
 
-        # Once we have the minimal set of hex quoted values, removed them from
-        # the string so that they are not double quoted
-        def _extract_escape(match):
-            escapes.append(match.group(0).encode('ascii'))
-            return '\x00'
-        string = re.sub('%[0-9a-fA-F]{2}', _extract_escape, string)
-
-    output = urlquote(string.encode('utf-8'), safe=safe.encode('utf-8'))
-    if not isinstance(output, byte_cls):
-        output = output.encode('ascii')
-
-    # Restore the existing quoted values that we extracted
-    if len(escapes) > 0:
-        def _return_escape(_):
-            return escapes.pop(0)
-        output = re.sub(b'%00', _return_escape, output)
+    # Once we have the minimal set of hex quoted values, which are the odd
+    # elements here, they are kept so that they are not double quoted
+    output = b''
+    for index, part in enumerate(re.split('(%[0-9a-fA-F]{2})', string)):
+        if index % 2 == 0:
+            part = urlquote(part.encode('utf-8'), safe=safe.encode('utf-8'))
+        if not isinstance(part, byte_cls):
+            part = part.encode('ascii')
+        output += part
 
     return output
 
-- 
2.43.0


From fb29362c67ee6363ad8a3df05671feaa641bc6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:59 +0000
Subject: [PATCH 46/54] fix: the encoding of a Set without field definitions is
 kept, like that of a Sequence

---
 asn1crypto/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 3e2089d..b8e2459 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4507,7 +4507,7 @@ class Sequence(Asn1Value):
         """
 
         # We can't force encoding if we don't have a spec
-        has_spec = self._fields != [] or self.__class__ is not Sequence
+        has_spec = self._fields != [] or self.__class__ not in (Sequence, Set)
         if force and not has_spec:
             force = False
 
-- 
2.43.0


From d7211325af6db6ba52b0b84b1c6698b65efb904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:40 +0000
Subject: [PATCH 47/54] fix: copies of an untyped Set in an Any keep its
 encoding

---
 asn1crypto/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index b8e2459..fdcb5e8 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1125,7 +1125,7 @@ class Any(Asn1Value):
             self._trailer = other._trailer
             self._parsed = copy_func(other._parsed)
             # Without a spec the encoding is never forced to be DER
-            if other._parsed is not None and other._parsed[0].__class__ is Sequence:
+            if other._parsed is not None and other._parsed[0].__class__ in (Sequence, Set):
                 if not other._parsed[0]._is_indefinite():
                     self._parsed[0]._header = other._parsed[0]._header
             return
-- 
2.43.0


From 923ae8ab3a7e859bcfdad8192be96ce6da8b9587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:07 +0000
Subject: [PATCH 48/54] fix: keep the encoding of PrivateKeyInfo in step with
 the size set on its EC key

Setting the algorithm of a PrivateKeyInfo pads the already parsed EC
private key to the size of the curve, but neither the ECPrivateKey nor the
octet string holding it noticed the change, so the container kept encoding
the old key.
---
 asn1crypto/keys.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index da1d6da..cf2f8cd 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -23,6 +23,7 @@ from ._errors import unwrap, APIException
 from ._types import type_name, byte_cls
 from .algos import _ForceNullParameters, DigestAlgorithm, EncryptionAlgorithm, RSAESOAEPParams, RSASSAPSSParams
 from .core import (
+    _REVISIONS,
     Any,
     Asn1Value,
     BitString,
@@ -669,8 +670,12 @@ class ECPrivateKey(Sequence):
         Ensure the private_key explicit encoding width is set
         """
 
-        if self._key_size is not None and isinstance(self['private_key'], IntegerOctetString):
-            self['private_key'].set_encoded_width(self._key_size)
+        private_key = self['private_key']
+        if self._key_size is not None and isinstance(private_key, IntegerOctetString):
+            contents = private_key.contents
+            private_key.set_encoded_width(self._key_size)
+            if private_key.contents != contents:
+                self._changed_revision = next(_REVISIONS)
 
 
 class DSAParams(Sequence):
@@ -890,7 +895,15 @@ class PrivateKeyInfo(Sequence):
                     algorithm['parameters'].name != 'implicit_ca' and \
                     isinstance(self['private_key'], ParsableOctetString) and \
                     isinstance(self['private_key'].parsed, ECPrivateKey):
-                self['private_key'].parsed.set_key_size(algorithm['parameters'].key_size)
+                private_key = self['private_key']
+                parsed = private_key.parsed
+                contents = parsed['private_key'].contents
+                parsed.set_key_size(algorithm['parameters'].key_size)
+                if parsed['private_key'].contents != contents:
+                    # The octet string contains the encoded form of the parsed key
+                    parsed_info = private_key._parsed
+                    private_key.set(parsed.dump())
+                    private_key._parsed = parsed_info
 
         except Exception:
             # The new value is refused, so the old one must stay in place
-- 
2.43.0


From 4b0b2cca08403e1b364991c2ebb18b6f8d56a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:24 +0000
Subject: [PATCH 49/54] fix: load a Set that has a field with a type that
 depends on another field

---
 asn1crypto/core.py | 52 ++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index fdcb5e8..3e4c2d4 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5158,51 +5158,38 @@ class Set(Sequence):
                         parts[2],
                     ))
 
-                _, field_spec, value_spec, field_params, spec_override = (
-                    cls._precomputed_specs[field] or self._determine_spec(field))
-
-                if field_spec is None or (spec_override and issubclass(field_spec, Any)):
-                    field_spec = value_spec
-                    spec_override = None
-
-                if spec_override:
-                    child = parts + (field_spec, field_params, value_spec)
-                else:
-                    child = parts + (field_spec, field_params)
-
-                child_map[field] = child
+                child_map[field] = parts
                 seen_field += 1
 
-            # Done last since a later element replaces an earlier one of the same field
-            if recurse:
-                for field, child in child_map.items():
-                    child = child_map[field] = _build(*child)
-                    if isinstance(child, (Sequence, SequenceOf)):
-                        child._parse_children(recurse=True)
-
             total_fields = len(self._fields)
+            children = [VOID] * total_fields
+            partial = self._partial(children)
 
-            for index in range(0, total_fields):
-                if index in child_map:
-                    continue
-
+            # The elements may be in any order, so the fields with a spec that
+            # depends on the value of another field are done after the others
+            for index in sorted(range(0, total_fields), key=lambda index: cls._precomputed_specs[index] is None):
                 name, field_spec, value_spec, field_params, spec_override = (
-                    cls._precomputed_specs[index] or self._determine_spec(index))
+                    cls._precomputed_specs[index] or partial._determine_spec(index))
 
                 if field_spec is None or (spec_override and issubclass(field_spec, Any)):
                     field_spec = value_spec
                     spec_override = None
 
+                if index in child_map:
+                    if spec_override:
+                        children[index] = child_map[index] + (field_spec, field_params, value_spec)
+                    else:
+                        children[index] = child_map[index] + (field_spec, field_params)
+                    continue
+
                 missing = False
 
                 if not field_params:
                     missing = True
                 elif 'optional' not in field_params and 'default' not in field_params:
                     missing = True
-                elif 'optional' in field_params:
-                    child_map[index] = VOID
                 elif 'default' in field_params:
-                    child_map[index] = _unmutated(field_spec(**field_params))
+                    children[index] = _unmutated(field_spec(**field_params))
 
                 if missing:
                     raise ValueError(unwrap(
@@ -5213,7 +5200,14 @@ class Set(Sequence):
                         type_name(self)
                     ))
 
-            self.children = [child_map[index] for index in range(0, total_fields)]
+            # Done last since a later element replaces an earlier one of the same field
+            if recurse:
+                for field in child_map:
+                    child = children[field] = partial._lazy_child(field)
+                    if isinstance(child, (Sequence, SequenceOf)):
+                        child._parse_children(recurse=True)
+
+            self.children = children
 
         except (ValueError, TypeError) as e:
             args = e.args[1:]
-- 
2.43.0


From c2df39caca731a5a13360f51bf926691245c7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:23 +0000
Subject: [PATCH 50/54] fix: pickle values that have no encoding, such as the
 missing child of a Concat

---
 asn1crypto/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 3e4c2d4..8a9dd6a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -177,6 +177,8 @@ def unpickle_helper(asn1crypto_cls, der_bytes, params=None):
 
     Note that this must be an importable top-level function.
     """
+    if der_bytes is None:
+        return asn1crypto_cls(**(params or {}))
     return asn1crypto_cls.load(der_bytes, **(params or {}))
 
 
@@ -501,9 +503,11 @@ class Asn1Value(object):
         Permits pickling Asn1Value objects using their DER representation.
         """
         params = self._pickle_params()
+        # An object without a value can not be encoded
+        der_bytes = None if self.contents is None else self.dump()
         if params:
-            return unpickle_helper, (self.__class__, self.dump(), params)
-        return unpickle_helper, (self.__class__, self.dump())
+            return unpickle_helper, (self.__class__, der_bytes, params)
+        return unpickle_helper, (self.__class__, der_bytes)
 
     def _pickle_params(self):
         """
-- 
2.43.0


From a6dd136b5488efaa97e50fe485aa8fd17c9343ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:01 +0000
Subject: [PATCH 51/54] fix: dump() of an indefinite-length parsable string
 leaves the encoding of the parsed value as is

---
 asn1crypto/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 8a9dd6a..47e3ffc 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3152,7 +3152,11 @@ class ParsableOctetString(Constructable, Castable, Primitive):
         # If the length is indefinite, re-encode it. This uses a copy so that
         # the object itself does not change unless explicitly requested.
         if self._is_indefinite() and not force:
-            return self.copy().dump(force=True)
+            new = self.copy()
+            if self._parsed is not None:
+                # The encoding of the parsed value is only changed on request
+                new.set(self._parsed[0].dump())
+            return new.dump()
 
         if force:
             parsed = self._parsed
-- 
2.43.0


From 17fca80c6615bbe29de380fb2057042847eaf9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:23 +0000
Subject: [PATCH 52/54] fix: a range of IP addresses in a certificate does not
 make is_valid_domain_ip() raise OSError

---
 asn1crypto/x509.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index f31d24c..e8d6b84 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -3027,6 +3027,10 @@ class Certificate(Sequence):
         normalized_ip = inet_pton(family, encoded_domain_ip)
 
         for valid_ip in self.valid_ips:
+            # A range of addresses does not identify a host
+            if valid_ip.find('/') != -1:
+                continue
+
             valid_family = socket.AF_INET if valid_ip.find('.') != -1 else socket.AF_INET6
             normalized_valid_ip = inet_pton(valid_family, valid_ip)
 
-- 
2.43.0


From a9ff8fb6836c1dd07f16475162b3a538a37cb8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:14 +0000
Subject: [PATCH 53/54] fix: an IPv4-mapped IPv6 address in a certificate does
 not make is_valid_domain_ip() raise OSError

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index e8d6b84..5263b79 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -3031,7 +3031,7 @@ class Certificate(Sequence):
             if valid_ip.find('/') != -1:
                 continue
 
-            valid_family = socket.AF_INET if valid_ip.find('.') != -1 else socket.AF_INET6
+            valid_family = socket.AF_INET6 if valid_ip.find(':') != -1 else socket.AF_INET
             normalized_valid_ip = inet_pton(valid_family, valid_ip)
 
             if normalized_valid_ip == normalized_ip:
-- 
2.43.0


From 53b9cc725edd192b67e1c43c97e6fb588958b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:24 +0000
Subject: [PATCH 54/54] fix: refuse object identifiers that can not be encoded,
 and read back other spellings as they are encoded

---
 asn1crypto/core.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 47e3ffc..52969f8 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3383,11 +3383,12 @@ class ObjectIdentifier(Primitive, ValueMap):
                 type_name(value)
             ))
 
-        native = value
+        native = None
 
         if self._map is not None:
             key = self._map_key(value)
             if key is not None:
+                native = value
                 value = key
 
         contents = b''
@@ -3395,6 +3396,14 @@ class ObjectIdentifier(Primitive, ValueMap):
         for index, part in enumerate(value.split('.')):
             part = int(part)
 
+            if part < 0:
+                raise ValueError(unwrap(
+                    '''
+                    Arcs must not be negative, not %s
+                    ''',
+                    repr(part)
+                ))
+
             # The first two parts are merged into a single byte
             if index == 0:
                 first = part
@@ -3424,6 +3433,16 @@ class ObjectIdentifier(Primitive, ValueMap):
                 part = part >> 7
             contents += encoded_part
 
+        if contents == b'':
+            raise ValueError(unwrap(
+                '''
+                An object identifier must have at least two arcs, not %s
+                ''',
+                repr(value)
+            ))
+
+        # An arc may be spelled in more than one way, such as with leading
+        # zeros, so dotted values are read from the contents
         self._native = native
         self._dotted = None
         self.contents = contents
-- 
2.43.0

