From 168052bb2ca469c82592fef815da40c155d5b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 01/29] fix: save() overwrote or removed an existing file
 sharing the temporary file's name

---
 pykeepass/pykeepass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ec8b506..d92edf1 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -166,7 +166,9 @@ class PyKeePass:
         else:
             # save to temporary file to prevent database clobbering
             # see issues 223, 101
-            filename_tmp = Path(filename).with_suffix('.tmp')
+            # the name is unique so that no existing file (in particular the
+            # database itself, if it is called *.tmp) is overwritten or removed
+            filename_tmp = Path(filename).with_name(uuid.uuid4().hex + '.tmp')
             try:
                 KDBX.build_file(
                     self.kdbx,
-- 
2.43.0


From ac3df20dc0aa05733caa062354e7e17283b1ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 02/29] fix: a failed read() replaced the credentials and
 filename of the open database

---
 pykeepass/pykeepass.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index d92edf1..cc4b22d 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -87,11 +87,7 @@ class PyKeePass:
         """
 
         # TODO: - raise, no filename provided, database not open
-        self._password = password
-        self._keyfile = keyfile
-        if filename:
-            self.filename = filename
-        else:
+        if not filename:
             filename = self.filename
 
         try:
@@ -135,6 +131,11 @@ class PyKeePass:
             else:
                 raise
 
+        # only remember these once the database has been opened successfully
+        self._password = password
+        self._keyfile = keyfile
+        self.filename = filename
+
     def reload(self):
         """Reload current database using previously given credentials """
 
-- 
2.43.0


From 729cbe83a319023f58c52971bbfdd98c190144f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 03/29] fix: databases opened with a transformed key were saved
 with empty credentials

---
 pykeepass/pykeepass.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index cc4b22d..6b076a4 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -134,12 +134,13 @@ class PyKeePass:
         # only remember these once the database has been opened successfully
         self._password = password
         self._keyfile = keyfile
+        self._transformed_key = transformed_key
         self.filename = filename
 
     def reload(self):
         """Reload current database using previously given credentials """
 
-        self.read(self.filename, self.password, self.keyfile)
+        self.read(self.filename, self.password, self.keyfile, self._transformed_key)
 
     def save(self, filename=None, transformed_key=None):
         """Save current database object to disk.
@@ -149,12 +150,16 @@ class PyKeePass:
                 If None, the path given when the database was opened is used.
                 PyKeePass.filename is unchanged.
             transformed_key (`bytes`, optional): precomputed transformed
-                key.
+                key.  If None, the one given when the database was opened is
+                used, unless the password or keyfile was changed since.
         """
 
         if not filename:
             filename = self.filename
 
+        if transformed_key is None:
+            transformed_key = self._transformed_key
+
         if hasattr(filename, "write"):
             KDBX.build_stream(
                 self.kdbx,
@@ -924,6 +929,7 @@ class PyKeePass:
     @password.setter
     def password(self, password):
         self._password = password
+        self._transformed_key = None
         self.credchange_date = datetime.now(timezone.utc)
 
     @property
@@ -934,6 +940,7 @@ class PyKeePass:
     @keyfile.setter
     def keyfile(self, keyfile):
         self._keyfile = keyfile
+        self._transformed_key = None
         self.credchange_date = datetime.now(timezone.utc)
 
     @property
-- 
2.43.0


From b18e5bc2000f3da38e656ad0602ab2863f957f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 04/29] fix: create_database() passed transformed_key as the
 filename to save()

---
 pykeepass/pykeepass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 6b076a4..8741859 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1066,7 +1066,9 @@ def create_database(
     keepass_instance.password = password
     keepass_instance.keyfile = keyfile
 
-    keepass_instance.save(transformed_key)
+    keepass_instance._transformed_key = transformed_key
+
+    keepass_instance.save()
     return keepass_instance
 
 def debug_setup():
-- 
2.43.0


From f6b666ca612a7d956089cc6898abb16e71ba8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 05/29] fix: delete_binary() left attachments of history
 entries pointing at other binaries

---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 8741859..f23cb45 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -869,7 +869,7 @@ class PyKeePass:
             raise BinaryError('No such binary with id {}'.format(id))
 
         # remove all entry references to this attachment
-        for reference in self.find_attachments(id=id):
+        for reference in self.find_attachments(id=id, history=True):
             reference.delete()
 
         # decrement references greater than this id
-- 
2.43.0


From 7f06362758a7f3a6f4ee1490f6bf8426fb68bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 06/29] fix: delete_binary() left stale binary IDs in KDBX3 and
 accepted negative ids

---
 pykeepass/pykeepass.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index f23cb45..0878282 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -784,7 +784,7 @@ class PyKeePass:
             binaries = [a.data[1:] for a in self.payload.inner_header.binary]
         else:
             binaries = []
-            for elem in self._xpath('/KeePassFile/Meta/Binaries/Binary'):
+            for elem in self._kdbx3_binary_elements():
                 if elem.text is not None:
                     if elem.get('Compressed') == 'True':
                         data = zlib.decompress(
@@ -795,10 +795,17 @@ class PyKeePass:
                         data = base64.b64decode(elem.text)
                 else:
                     data = b''
-                binaries.insert(int(elem.attrib['ID']), data)
+                binaries.append(data)
 
         return binaries
 
+    def _kdbx3_binary_elements(self):
+        """Binary elements of a KDBX3 database, ordered by ID"""
+        return sorted(
+            self._xpath('/KeePassFile/Meta/Binaries/Binary'),
+            key=lambda elem: int(elem.attrib['ID'])
+        )
+
     def add_binary(self, data, compressed=True, protected=True):
         """Add binary data to database.  Note this does not create an attachment (see `Entry.add_attachment`)
 
@@ -857,17 +864,20 @@ class PyKeePass:
         Raises:
             `IndexError`: raised when binary with given ID does not exist
         """
-        try:
-            if self.version >= (4, 0):
-                # remove binary element from inner header
-                self.payload.inner_header.binary.pop(id)
-            else:
-                # remove binary element from XML
-                binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
-                binaries.remove(binaries.getchildren()[id])
-        except IndexError:
+        if not 0 <= id < len(self.binaries):
             raise BinaryError('No such binary with id {}'.format(id))
 
+        if self.version >= (4, 0):
+            # remove binary element from inner header
+            self.payload.inner_header.binary.pop(id)
+        else:
+            # remove binary element from XML and renumber the remaining ones
+            binaries = self._kdbx3_binary_elements()
+            elem = binaries.pop(id)
+            elem.getparent().remove(elem)
+            for new_id, elem in enumerate(binaries):
+                elem.attrib['ID'] = str(new_id)
+
         # remove all entry references to this attachment
         for reference in self.find_attachments(id=id, history=True):
             reference.delete()
-- 
2.43.0


From c182e203035314d3a1dd8808f10344e9ebbc8173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 07/29] fix: find_attachments() without criteria raised an
 exception for KDBX3

---
 pykeepass/pykeepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 0878282..3de34b4 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -765,7 +765,8 @@ class PyKeePass:
                 `False`).
         """
 
-        prefix = '//Binary' if recursive else '/Binary'
+        # KDBX3 also stores the binaries themselves in <Binary> elements
+        prefix = '//Binary[parent::Entry]' if recursive else '/Binary[parent::Entry]'
         res = self._find(prefix, attachment_xp, path=path, tree=element, **kwargs)
 
         return res
-- 
2.43.0


From d549096312cbc9e271444cf771c3f3f38590a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 08/29] fix: attachments of a history entry were never listed

---
 pykeepass/entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 3ef7e4e..a6586ee 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -156,7 +156,8 @@ class Entry(BaseElement):
             element=self,
             filename='.*',
             regex=True,
-            recursive=False
+            recursive=False,
+            history=True
         )
 
     def add_attachment(self, id, filename):
-- 
2.43.0


From afd969c3b4104c450563bbb3bd7578ea4599a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 09/29] fix: Entry.index and reindex() miscounted when groups
 lie between entries

---
 pykeepass/entry.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index a6586ee..bc908c8 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -132,11 +132,7 @@ class Entry(BaseElement):
     @property
     def index(self):
         """`int`: index of a entry within a group"""
-        group = self.group._element
-        children = group.getchildren()
-        first_index = self.group._first_entry
-        index = children.index(self._element)
-        return index - first_index
+        return self.group._element.findall('Entry').index(self._element)
 
     def reindex(self, new_index):
         """Move entry to a new index within a group
@@ -145,9 +141,11 @@ class Entry(BaseElement):
             new_index (`int`): new index for the entry starting at 0
         """
         group = self.group._element
-        first_index = self.group._first_entry
-        group.remove(self._element)
-        group.insert(new_index+first_index, self._element)
+        others = [e for e in group.findall('Entry') if e is not self._element]
+        if new_index < len(others):
+            others[new_index].addprevious(self._element)
+        elif others:
+            others[-1].addnext(self._element)
 
     @property
     def attachments(self):
-- 
2.43.0


From f645c7cdbb6fbc91b66a402a5f8ffb2d043d4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 10/29] fix: assigning an invalid value to a field deleted the
 field

---
 pykeepass/baseelement.py |  4 +++-
 pykeepass/entry.py       | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 048e5cf..d0250f2 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -46,10 +46,12 @@ class BaseElement:
             return v.text
 
     def _set_subelement_text(self, tag, value):
+        # create the new element first, so that the old one survives an invalid value
+        new = getattr(E, tag)(value)
         v = self._element.find(tag)
         if v is not None:
             self._element.remove(v)
-        self._element.append(getattr(E, tag)(value))
+        self._element.append(new)
 
     @property
     def group(self):
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index bc908c8..57b4bf0 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -114,13 +114,15 @@ class Entry(BaseElement):
         else:
             protected_str = str(protected)
 
-        if field is not None:
-            self._element.remove(field)
-
+        # create the new field first, so that the old one survives an invalid value
         if protected_str is None:
-            self._element.append(E.String(E.Key(key), E.Value(value)))
+            new_field = E.String(E.Key(key), E.Value(value))
         else:
-            self._element.append(E.String(E.Key(key), E.Value(value, Protected=protected_str)))
+            new_field = E.String(E.Key(key), E.Value(value, Protected=protected_str))
+
+        if field is not None:
+            self._element.remove(field)
+        self._element.append(new_field)
 
     def _get_string_field_keys(self, exclude_reserved=False):
         results = [x.find('Key').text for x in self._element.findall('String')]
-- 
2.43.0


From a925121dac5607f2a77e87e9f4c463ee18ff6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 11/29] fix: KDBX3 times set in another timezone were shifted
 by the UTC offset

---
 pykeepass/pykeepass.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 3de34b4..fcc6f87 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1031,6 +1031,8 @@ class PyKeePass:
                 struct.pack('<Q', diff_seconds)
             ).decode('utf-8')
         else:
+            if value.tzinfo is not None:
+                value = value.astimezone(timezone.utc)
             return value.isoformat()
 
     def _decode_time(self, text):
@@ -1046,9 +1048,17 @@ class PyKeePass:
                     )
                 )
             except BinasciiError:
-                return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
+                return self._decode_isotime(text)
         else:
-            return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
+            return self._decode_isotime(text)
+
+    def _decode_isotime(self, text):
+        """`datetime.datetime`: Convert plaintext time to datetime"""
+
+        value = datetime.fromisoformat(text.replace('Z','+00:00'))
+        if value.tzinfo is None:
+            return value.replace(tzinfo=timezone.utc)
+        return value.astimezone(timezone.utc)
 
 def create_database(
         filename, password=None, keyfile=None, transformed_key=None
-- 
2.43.0


From bc23db21c185e2300fd88180139a94c36577537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 12/29] fix: plaintext times in KDBX4 databases raised
 struct.error

---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index fcc6f87..d6597ea 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1047,7 +1047,7 @@ class PyKeePass:
                         seconds=struct.unpack('<Q', base64.b64decode(text))[0]
                     )
                 )
-            except BinasciiError:
+            except (BinasciiError, struct.error):
                 return self._decode_isotime(text)
         else:
             return self._decode_isotime(text)
-- 
2.43.0


From 331fc35f22ea78a4c1ecc77337960e728c91c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 13/29] fix: some 64 byte keyfiles were mistaken for
 hexadecimal and could not be used

---
 pykeepass/kdbx_parsing/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 00630ef..8d780f1 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -154,7 +154,7 @@ def compute_key_composite(password=None, keyfile=None):
         except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError):
             try:
                 try:
-                    int(keyfile_bytes, 16)
+                    codecs.decode(keyfile_bytes, 'hex')
                     is_hex = True
                 except ValueError:
                     is_hex = False
-- 
2.43.0


From cfabdc3d65c7188421aac330580ebbd01a786bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 14/29] fix: kdf_algorithm and database_salt ignored format
 versions other than 3.1 and 4.0

---
 pykeepass/pykeepass.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index d6597ea..17ba850 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -208,9 +208,9 @@ class PyKeePass:
     def kdf_algorithm(self):
         """`str`: key derivation algorithm used by database during decryption.
         Can be one of 'aeskdf', 'argon2', or 'argon2id'"""
-        if self.version == (3, 1):
+        if self.version < (4, 0):
             return 'aeskdf'
-        elif self.version == (4, 0):
+        else:
             kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
             if kdf_parameters['$UUID'].value == kdf_uuids['argon2']:
                 return 'argon2'
@@ -230,7 +230,7 @@ class PyKeePass:
        """`bytes`: salt of database kdf. This can be used for adding additional
        credentials which are used in extension to current keyfile."""
 
-       if self.version == (3, 1):
+       if self.version < (4, 0):
             return self.kdbx.header.value.dynamic_header.transform_seed.data
 
        kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
-- 
2.43.0


From d74d2a0eb02310b84be73ad9b423ab81be60bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 15/29] fix: values containing double quotes broke or injected
 into XPath queries

---
 pykeepass/entry.py     | 11 ++++++-----
 pykeepass/pykeepass.py | 18 +++++++++++-------
 pykeepass/xpath.py     | 18 ++++++++++++++++++
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 57b4bf0..e483e3a 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -7,6 +7,7 @@ from lxml.objectify import ObjectifiedElement
 
 from . import attachment
 from .baseelement import BaseElement
+from .xpath import xpath_format
 
 logger = logging.getLogger(__name__)
 reserved_keys = [
@@ -88,7 +89,7 @@ class Entry(BaseElement):
             `str` or `None`: field value
         """
 
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), history=True, first=True)
+        field = self._xpath(xpath_format('String/Key[text()="{}"]/../Value', key), history=True, first=True)
         if field is not None:
             return field.text
 
@@ -104,11 +105,11 @@ class Entry(BaseElement):
 
         Note: pykeepass does not support memory protection
         """
-        field = self._xpath('String/Key[text()="{}"]/..'.format(key), history=True, first=True)
+        field = self._xpath(xpath_format('String/Key[text()="{}"]/..', key), history=True, first=True)
 
         protected_str = None
         if protected is None:
-            protected_field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+            protected_field = self._xpath(xpath_format('String/Key[text()="{}"]/../Value', key), first=True)
             if protected_field is not None:
                 protected_str = protected_field.attrib.get("Protected")
         else:
@@ -355,7 +356,7 @@ class Entry(BaseElement):
     def delete_custom_property(self, key):
         if key not in self._get_string_field_keys(exclude_reserved=True):
             raise AttributeError('No such key: {}'.format(key))
-        prop = self._xpath('String/Key[text()="{}"]/..'.format(key), first=True)
+        prop = self._xpath(xpath_format('String/Key[text()="{}"]/..', key), first=True)
         if prop is None:
             raise AttributeError('Could not find property element')
         self._element.remove(prop)
@@ -378,7 +379,7 @@ class Entry(BaseElement):
 
     def _is_property_protected(self, key):
         """Whether a property is protected."""
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+        field = self._xpath(xpath_format('String/Key[text()="{}"]/../Value', key), first=True)
         if field is not None:
             return field.attrib.get("Protected", "False") == "True"
         return False
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 17ba850..688a6d1 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -26,7 +26,7 @@ from .exceptions import (
 )
 from .group import Group
 from .kdbx_parsing import KDBX, kdf_uuids
-from .xpath import attachment_xp, entry_xp, group_xp, path_xp
+from .xpath import attachment_xp, entry_xp, group_xp, path_xp, xpath_format, xpath_literal
 
 logger = logging.getLogger(__name__)
 
@@ -401,11 +401,11 @@ class PyKeePass:
             element = path[-1] if len(path) > 0 else ''
             # build xpath from group_path and element
             for group in group_path:
-                xp += path_xp[regex]['group'].format(group, flags=flags)
+                xp += xpath_format(path_xp[regex]['group'], group, flags=flags)
             if 'Entry' in prefix:
-                xp += path_xp[regex]['entry'].format(element, flags=flags)
+                xp += xpath_format(path_xp[regex]['entry'], element, flags=flags)
             elif element and 'Group' in prefix:
-                xp += path_xp[regex]['group'].format(element, flags=flags)
+                xp += xpath_format(path_xp[regex]['group'], element, flags=flags)
 
         else:
             if tree is not None:
@@ -416,7 +416,7 @@ class PyKeePass:
             # handle searching custom string fields
             if 'string' in kwargs:
                 for key, value in kwargs['string'].items():
-                    xp += keys_xp[regex]['string'].format(key, value, flags=flags)
+                    xp += xpath_format(keys_xp[regex]['string'], key, value, flags=flags)
 
                 kwargs.pop('string')
 
@@ -427,14 +427,18 @@ class PyKeePass:
             # convert tags to semicolon separated string before building xpath
             # FIXME: this isn't a reliable way to search tags.  e.g. searching ['tag1', 'tag2'] will match 'tag1tag2
             if 'tags' in kwargs:
-                kwargs['tags'] = ' and '.join(f'contains(text(),"{t}")' for t in kwargs['tags'])
+                kwargs['tags'] = ' and '.join(f'contains(text(),{xpath_literal(t)})' for t in kwargs['tags'])
 
             # build xpath to filter results with specified attributes
             for key, value in kwargs.items():
                 if key not in keys_xp[regex]:
                     raise TypeError('Invalid keyword argument "{}"'.format(key))
                 if value is not None:
-                    xp += keys_xp[regex][key].format(value, flags=flags)
+                    if key == 'tags':
+                        # already an XPath expression
+                        xp += keys_xp[regex][key].format(value)
+                    else:
+                        xp += xpath_format(keys_xp[regex][key], value, flags=flags)
 
         res = self._xpath(
             xp,
diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index e07d312..1cf33ff 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -1,3 +1,21 @@
+def xpath_literal(value):
+    """Quote a value as an XPath string literal"""
+    value = str(value)
+    if '"' not in value:
+        return '"{}"'.format(value)
+    if "'" not in value:
+        return "'{}'".format(value)
+    return 'concat({})'.format(
+        ", '\"', ".join('"{}"'.format(part) for part in value.split('"'))
+    )
+
+
+def xpath_format(template, *values, **kwargs):
+    """Fill the quoted placeholders of an XPath template with values, which may
+    themselves contain quotes"""
+    return template.replace('"{}"', '{}').format(*map(xpath_literal, values), **kwargs)
+
+
 attachment_xp = {
     False: {
         'id': '/Value[@Ref="{}"]/..',
-- 
2.43.0


From cedfeaad05dfeec760b241c10daa33adda9f2323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 16/29] fix: find_entries() and find_groups() failed when uuid,
 tags or string was None

---
 pykeepass/pykeepass.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 688a6d1..1f0b063 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -415,19 +415,21 @@ class PyKeePass:
 
             # handle searching custom string fields
             if 'string' in kwargs:
-                for key, value in kwargs['string'].items():
+                for key, value in (kwargs['string'] or {}).items():
                     xp += xpath_format(keys_xp[regex]['string'], key, value, flags=flags)
 
                 kwargs.pop('string')
 
             # convert uuid to base64 form before building xpath
-            if 'uuid' in kwargs:
+            if kwargs.get('uuid') is not None:
                 kwargs['uuid'] = base64.b64encode(kwargs['uuid'].bytes).decode('utf-8')
 
             # convert tags to semicolon separated string before building xpath
             # FIXME: this isn't a reliable way to search tags.  e.g. searching ['tag1', 'tag2'] will match 'tag1tag2
             if 'tags' in kwargs:
-                kwargs['tags'] = ' and '.join(f'contains(text(),{xpath_literal(t)})' for t in kwargs['tags'])
+                kwargs['tags'] = ' and '.join(
+                    f'contains(text(),{xpath_literal(t)})' for t in kwargs['tags'] or []
+                ) or None
 
             # build xpath to filter results with specified attributes
             for key, value in kwargs.items():
-- 
2.43.0


From b81fcf653181d19d6bd8ab3a4e78cd332553d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 17/29] fix: regex searches did not find uuids whose base64
 form contains '+'

---
 pykeepass/pykeepass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 1f0b063..fdf318e 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -423,6 +423,8 @@ class PyKeePass:
             # convert uuid to base64 form before building xpath
             if kwargs.get('uuid') is not None:
                 kwargs['uuid'] = base64.b64encode(kwargs['uuid'].bytes).decode('utf-8')
+                if regex:
+                    kwargs['uuid'] = re.escape(kwargs['uuid'])
 
             # convert tags to semicolon separated string before building xpath
             # FIXME: this isn't a reliable way to search tags.  e.g. searching ['tag1', 'tag2'] will match 'tag1tag2
-- 
2.43.0


From 024d27ec0f609f2ffa806ac3352e8b07beb8df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 18/29] fix: add_entry() did not accept None for title,
 username and password

---
 pykeepass/entry.py     | 6 +++---
 pykeepass/pykeepass.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index e483e3a..5dd2d54 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -40,10 +40,10 @@ class Entry(BaseElement):
                 expiry_time=expiry_time,
                 icon=icon
             )
-            self._element.append(E.String(E.Key('Title'), E.Value(title)))
-            self._element.append(E.String(E.Key('UserName'), E.Value(username)))
+            self._element.append(E.String(E.Key('Title'), E.Value(title or '')))
+            self._element.append(E.String(E.Key('UserName'), E.Value(username or '')))
             self._element.append(
-                E.String(E.Key('Password'), E.Value(password, Protected="True"))
+                E.String(E.Key('Password'), E.Value(password or '', Protected="True"))
             )
             if url:
                 self._element.append(E.String(E.Key('URL'), E.Value(url)))
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index fdf318e..353f559 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -692,7 +692,8 @@ class PyKeePass:
             `Group`: newly added group
         """
 
-        entries = self.find_entries(
+        # untitled entries have no identical title
+        entries = title is not None and self.find_entries(
             title=title,
             username=username,
             first=True,
-- 
2.43.0


From dc74f89d795510e6cd7369914d4d5e9d96c94351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 19/29] fix: deref() failed on circular references, absent
 fields and uuid fields

---
 pykeepass/pykeepass.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 353f559..a6d35d3 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -902,7 +902,7 @@ class PyKeePass:
 
     # ---------- Misc ----------
 
-    def deref(self, value):
+    def deref(self, value, _resolving=frozenset()):
 
         """Dereference [field reference][fieldref] of Entry
 
@@ -930,13 +930,28 @@ class PyKeePass:
         for ref, wanted_field, search_in, search_value in references:
             wanted_field = field_to_attribute[wanted_field]
             search_in = field_to_attribute[search_in]
+            if ref in _resolving:
+                # circular reference
+                return None
             if search_in == 'uuid':
-                search_value = uuid.UUID(search_value)
+                try:
+                    search_value = uuid.UUID(search_value)
+                except ValueError:
+                    return None
             ref_entry = self.find_entries(first=True, **{search_in: search_value})
             if ref_entry is None:
                 return None
-            value = value.replace(ref, getattr(ref_entry, wanted_field))
-        return self.deref(value)
+            field = getattr(ref_entry, wanted_field)
+            if wanted_field == 'uuid':
+                if value == ref and not _resolving:
+                    return field
+                field = field.hex.upper()
+            # an absent field is empty
+            field = self.deref(field or '', _resolving | {ref})
+            if field is None:
+                return None
+            value = value.replace(ref, field)
+        return value
 
 
     # ---------- Credential Changing and Expiry ----------
-- 
2.43.0


From 4b7db25fd793ce36f2ae5edf967e9b03eea532f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:52 +0000
Subject: [PATCH 20/29] fix: saved databases with texts over 10 MB or deeply
 nested groups could not be opened

libxml2 refuses such documents unless huge_tree is set, so save() produced
files which could never be read again.
---
 pykeepass/kdbx_parsing/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 8d780f1..43e0ae9 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -195,7 +195,7 @@ class XML(Adapter):
     """Bytes <---> lxml etree"""
 
     def _decode(self, data, con, path):
-        parser = etree.XMLParser(remove_blank_text=True)
+        parser = etree.XMLParser(remove_blank_text=True, huge_tree=True)
         return etree.parse(io.BytesIO(data), parser)
 
     def _encode(self, tree, con, path):
-- 
2.43.0


From e60f237636cf6cf4c01d928b55910afc45fd50f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:37 +0000
Subject: [PATCH 21/29] fix: corrupted headers of KDBX3 databases went
 undetected

The header checksum stored in the payload was never compared, so e.g. a damaged
protected stream key silently garbled all protected values.
---
 pykeepass/pykeepass.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index a6d35d3..e244059 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1,4 +1,5 @@
 import base64
+import hashlib
 import logging
 import os
 import re
@@ -92,7 +93,7 @@ class PyKeePass:
 
         try:
             if hasattr(filename, "read"):
-                self.kdbx = KDBX.parse_stream(
+                kdbx = KDBX.parse_stream(
                     filename,
                     password=password,
                     keyfile=keyfile,
@@ -100,7 +101,7 @@ class PyKeePass:
                     decrypt=decrypt
                 )
             else:
-                self.kdbx = KDBX.parse_file(
+                kdbx = KDBX.parse_file(
                     filename,
                     password=password,
                     keyfile=keyfile,
@@ -131,7 +132,14 @@ class PyKeePass:
             else:
                 raise
 
+        # header verification.  KDBX3 keeps the checksum of the header in the payload
+        if decrypt and kdbx.header.value.major_version == 3:
+            header_hash = kdbx.body.payload.xml.findtext('Meta/HeaderHash')
+            if header_hash and base64.b64decode(header_hash) != hashlib.sha256(kdbx.header.data).digest():
+                raise HeaderChecksumError("Corrupted database")
+
         # only remember these once the database has been opened successfully
+        self.kdbx = kdbx
         self._password = password
         self._keyfile = keyfile
         self._transformed_key = transformed_key
-- 
2.43.0


From d4eb7b78e989ac41a6005e38b6642562b8436dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:05 +0000
Subject: [PATCH 22/29] fix: databases of unsupported versions were opened
 without error

Only their signature and version were parsed, and save() wrote just that.
---
 pykeepass/pykeepass.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index e244059..2bb0d45 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -132,6 +132,10 @@ class PyKeePass:
             else:
                 raise
 
+        # other versions have not been parsed
+        if kdbx.body is None:
+            raise HeaderChecksumError("Unsupported database version")
+
         # header verification.  KDBX3 keeps the checksum of the header in the payload
         if decrypt and kdbx.header.value.major_version == 3:
             header_hash = kdbx.body.payload.xml.findtext('Meta/HeaderHash')
-- 
2.43.0


From 8590d506f15854656ce338b26e50890862117356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:53 +0000
Subject: [PATCH 23/29] fix: save() to the path of a directory left a stray
 file in it

shutil.move() moved the temporary file into the directory and reported success.
Also remove the temporary file when the move itself fails.
---
 pykeepass/pykeepass.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 2bb0d45..587af99 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -196,10 +196,13 @@ class PyKeePass:
                     transformed_key=transformed_key,
                     decrypt=True
                 )
+                # move() would put the file into a directory of that name
+                if os.path.isdir(filename):
+                    raise IsADirectoryError('{} is a directory'.format(filename))
+                shutil.move(filename_tmp, filename)
             except Exception as e:
                 os.remove(filename_tmp)
                 raise e
-            shutil.move(filename_tmp, filename)
 
     @property
     def version(self):
-- 
2.43.0


From 9b4a24113d9a3ad038f8101d551c2bfe089a365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:30 +0000
Subject: [PATCH 24/29] fix: assigning an invalid text to autotype settings,
 file names or database settings erased the old one

lxml discards the old text of an element before it rejects the new one.
---
 pykeepass/attachment.py  |  3 ++-
 pykeepass/baseelement.py |  7 +++++++
 pykeepass/entry.py       |  8 ++++----
 pykeepass/pykeepass.py   | 11 ++++++-----
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/pykeepass/attachment.py b/pykeepass/attachment.py
index 8006e12..72834f8 100644
--- a/pykeepass/attachment.py
+++ b/pykeepass/attachment.py
@@ -1,4 +1,5 @@
 from . import entry
+from .baseelement import set_text
 from .exceptions import BinaryError
 
 
@@ -35,7 +36,7 @@ class Attachment:
 
     @filename.setter
     def filename(self, filename):
-        self._element.find('Key').text = filename
+        set_text(self._element.find('Key'), filename)
 
     @property
     def entry(self):
diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index d0250f2..e134bdb 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -7,6 +7,13 @@ from lxml import etree
 from lxml.builder import E
 
 
+def set_text(element, value):
+    """Set the text of an element.  Unlike plain assignment, which discards the
+    old text first, the element is left alone if the value is invalid"""
+    etree.Element('Value').text = value
+    element.text = value
+
+
 class BaseElement:
     """Entry and Group inherit from this class"""
 
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 5dd2d54..0435a81 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -6,7 +6,7 @@ from lxml.etree import Element, _Element
 from lxml.objectify import ObjectifiedElement
 
 from . import attachment
-from .baseelement import BaseElement
+from .baseelement import BaseElement, set_text
 from .xpath import xpath_format
 
 logger = logging.getLogger(__name__)
@@ -293,7 +293,7 @@ class Entry(BaseElement):
     def autotype_enabled(self, value):
         enabled = self._element.find('AutoType/Enabled')
         if value is not None:
-            enabled.text = str(value)
+            set_text(enabled, str(value))
         else:
             enabled.text = None
 
@@ -307,7 +307,7 @@ class Entry(BaseElement):
 
     @autotype_sequence.setter
     def autotype_sequence(self, value):
-        self._element.find('AutoType/DefaultSequence').text = value
+        set_text(self._element.find('AutoType/DefaultSequence'), value)
 
     @property
     def autotype_window(self):
@@ -319,7 +319,7 @@ class Entry(BaseElement):
 
     @autotype_window.setter
     def autotype_window(self, value):
-        self._element.find('AutoType/Association/Window').text = value
+        set_text(self._element.find('AutoType/Association/Window'), value)
 
     @property
     def is_a_history_entry(self):
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 587af99..81587d2 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -17,6 +17,7 @@ from lxml import etree
 from lxml.builder import E
 
 from .attachment import Attachment
+from .baseelement import set_text
 from .entry import Entry
 from .exceptions import (
     BinaryError,
@@ -299,7 +300,7 @@ class PyKeePass:
     @database_name.setter
     def database_name(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def database_description(self):
@@ -310,7 +311,7 @@ class PyKeePass:
     @database_description.setter
     def database_description(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def default_username(self):
@@ -321,7 +322,7 @@ class PyKeePass:
     @default_username.setter
     def default_username(self, name):
         item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     def xml(self):
         """Get XML part of database as string
@@ -1011,13 +1012,13 @@ class PyKeePass:
     def credchange_required_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeForce'
         item = self._xpath(path, first=True)
-        item.text = str(days)
+        set_text(item, str(days))
 
     @credchange_recommended_days.setter
     def credchange_recommended_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeRec'
         item = self._xpath(path, first=True)
-        item.text = str(days)
+        set_text(item, str(days))
 
     @property
     def credchange_date(self):
-- 
2.43.0


From 55cb66abb4e32f4eb43b882fbb63152698f91e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:32 +0000
Subject: [PATCH 25/29] fix: failed assignment of password or keyfile changed
 the credentials

Assigning credentials of a database opened with decrypt=False raises
ValueError, but the credentials of the session had been replaced already.
---
 pykeepass/pykeepass.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 81587d2..d4a5fd4 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -979,9 +979,10 @@ class PyKeePass:
 
     @password.setter
     def password(self, password):
+        # fails if there is no place to record it, so this comes first
+        self.credchange_date = datetime.now(timezone.utc)
         self._password = password
         self._transformed_key = None
-        self.credchange_date = datetime.now(timezone.utc)
 
     @property
     def keyfile(self):
@@ -990,9 +991,10 @@ class PyKeePass:
 
     @keyfile.setter
     def keyfile(self, keyfile):
+        # fails if there is no place to record it, so this comes first
+        self.credchange_date = datetime.now(timezone.utc)
         self._keyfile = keyfile
         self._transformed_key = None
-        self.credchange_date = datetime.now(timezone.utc)
 
     @property
     def credchange_required_days(self):
-- 
2.43.0


From 0e91edaa48a798d0ffbf0a1460fecd560bf947c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:20 +0000
Subject: [PATCH 26/29] fix: credential change settings without content raised
 exceptions

An empty MasterKeyChanged element means that no change was recorded, an absent
or empty MasterKeyChangeForce/Rec that no change is ever demanded.
---
 pykeepass/pykeepass.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index d4a5fd4..3594165 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1000,14 +1000,14 @@ class PyKeePass:
     def credchange_required_days(self):
         """`int`: Days until password update should be required"""
         e = self._xpath('/KeePassFile/Meta/MasterKeyChangeForce', first=True)
-        if e is not None:
+        if e is not None and e.text is not None:
             return int(e.text)
 
     @property
     def credchange_recommended_days(self):
         """`int`: Days until password update should be recommended"""
         e = self._xpath('/KeePassFile/Meta/MasterKeyChangeRec', first=True)
-        if e is not None:
+        if e is not None and e.text is not None:
             return int(e.text)
 
     @credchange_required_days.setter
@@ -1026,7 +1026,7 @@ class PyKeePass:
     def credchange_date(self):
         """`datetime.datetime`: get or set UTC time of last credential change"""
         e = self._xpath('/KeePassFile/Meta/MasterKeyChanged', first=True)
-        if e is not None:
+        if e is not None and e.text is not None:
             return self._decode_time(e.text)
 
     @credchange_date.setter
@@ -1038,7 +1038,7 @@ class PyKeePass:
     def credchange_required(self):
         """`bool`: Check if credential change is required"""
         change_date = self.credchange_date
-        if change_date is None or self.credchange_required_days == -1:
+        if change_date is None or self.credchange_required_days in (None, -1):
             return False
         now_date = datetime.now(timezone.utc)
         return (now_date - change_date).days > self.credchange_required_days
@@ -1047,7 +1047,7 @@ class PyKeePass:
     def credchange_recommended(self):
         """`bool`: Check if credential change is recommended"""
         change_date = self.credchange_date
-        if change_date is None or self.credchange_recommended_days == -1:
+        if change_date is None or self.credchange_recommended_days in (None, -1):
             return False
         now_date = datetime.now(timezone.utc)
         return (now_date - change_date).days > self.credchange_recommended_days
-- 
2.43.0


From 7b20e792bc57e450e447bff2c06b31a2ce508568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:00 +0000
Subject: [PATCH 27/29] fix: a save that could not create its temporary file
 reported the wrong error

Removing the temporary file that was never created raised FileNotFoundError,
which replaced the real reason (no permission, disk full, ...).
---
 pykeepass/pykeepass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 3594165..a5c5fd0 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -202,7 +202,9 @@ class PyKeePass:
                     raise IsADirectoryError('{} is a directory'.format(filename))
                 shutil.move(filename_tmp, filename)
             except Exception as e:
-                os.remove(filename_tmp)
+                # it does not exist if it could not be created
+                if os.path.lexists(filename_tmp):
+                    os.remove(filename_tmp)
                 raise e
 
     @property
-- 
2.43.0


From e641a571c398c1bc0170c613cc74c9ce5f6aa206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:03 +0000
Subject: [PATCH 28/29] fix: autotype settings of entries without autotype
 elements could not be set

KeePass and KeePassXC write no <Association> for entries without window
associations, so assigning autotype_window raised AttributeError.  The same
went for the other settings when <AutoType> or parts of it are absent.
---
 pykeepass/entry.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 0435a81..b0db8f2 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -2,7 +2,7 @@ import logging
 from copy import deepcopy
 
 from lxml.builder import E
-from lxml.etree import Element, _Element
+from lxml.etree import Element, SubElement, _Element
 from lxml.objectify import ObjectifiedElement
 
 from . import attachment
@@ -282,20 +282,27 @@ class Entry(BaseElement):
     def history(self, value):
         raise NotImplementedError()
 
+    def _set_autotype_text(self, path, value):
+        element = self._element.find(path)
+        if element is None:
+            # other programs leave out what is not in use
+            set_text(Element('Value'), value)
+            element = self._element
+            for tag in path.split('/'):
+                child = element.find(tag)
+                element = SubElement(element, tag) if child is None else child
+        set_text(element, value)
+
     @property
     def autotype_enabled(self):
         """bool: get or set autotype enabled state.  Determines whether `autotype_sequence` should be used"""
         enabled = self._element.find('AutoType/Enabled')
-        if enabled.text is not None:
+        if enabled is not None and enabled.text is not None:
             return enabled.text == 'True'
 
     @autotype_enabled.setter
     def autotype_enabled(self, value):
-        enabled = self._element.find('AutoType/Enabled')
-        if value is not None:
-            set_text(enabled, str(value))
-        else:
-            enabled.text = None
+        self._set_autotype_text('AutoType/Enabled', str(value) if value is not None else None)
 
     @property
     def autotype_sequence(self):
@@ -307,7 +314,7 @@ class Entry(BaseElement):
 
     @autotype_sequence.setter
     def autotype_sequence(self, value):
-        set_text(self._element.find('AutoType/DefaultSequence'), value)
+        self._set_autotype_text('AutoType/DefaultSequence', value)
 
     @property
     def autotype_window(self):
@@ -319,7 +326,7 @@ class Entry(BaseElement):
 
     @autotype_window.setter
     def autotype_window(self, value):
-        set_text(self._element.find('AutoType/Association/Window'), value)
+        self._set_autotype_text('AutoType/Association/Window', value)
 
     @property
     def is_a_history_entry(self):
-- 
2.43.0


From 1e878b91aba295db97040e330a265bbcab088a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:17 +0000
Subject: [PATCH 29/29] fix: a refused append() of several elements moves none
 of them

---
 pykeepass/group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykeepass/group.py b/pykeepass/group.py
index 46adb7e..094d43a 100644
--- a/pykeepass/group.py
+++ b/pykeepass/group.py
@@ -93,6 +93,10 @@ class Group(BaseElement):
         Args:
             entries (`Entry` or `list` of `Entry`)
         """
+        # nothing is moved unless everything can be
+        for e in entries if isinstance(entries, list) else [entries]:
+            if e._element in [self._element, *self._element.iterancestors()]:
+                raise ValueError('cannot append parent to itself')
         # FIXME: check if `entries` is iterable instead of list
         if isinstance(entries, list):
             for e in entries:
-- 
2.43.0

