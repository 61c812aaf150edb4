From 164a434101412eff196579af57b831af8bb97b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 01/39] fix: a range that encloses an existing range overlaps
 it

---
 lgr/char.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index ba94f83..bf74c46 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -874,8 +874,7 @@ class Repertoire(object):
             # From now on:
             #    * first_cp <= range_last
             #    * last_cp >= range_first
-            if first_cp >= range_first or last_cp <= range_last:
-                return True
+            return True
         return False
 
     def _add_char(self, char):
-- 
2.43.0


From 805da4a5308cf9fc7a7cb04f60cf4edac69e8df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 02/39] fix: a refused range leaves no code point behind

---
 lgr/char.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/char.py b/lgr/char.py
index bf74c46..7bae054 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -587,11 +587,15 @@ class Repertoire(object):
                          format_cp(first_cp), format_cp(last_cp))
             raise RangeAlreadyExists(first_cp, last_cp)
 
+        # Refuse before anything is added: no range is left half-way on error
+        for cp in range(first_cp, last_cp + 1):
+            if cp in self:
+                raise CharAlreadyExists((cp,))
+
         for cp in range(first_cp, last_cp + 1):
             char = RangeChar(cp, first_cp, last_cp,
                              comment=comment, ref=ref, tag=tag,
                              when=when, not_when=not_when)
-            # TODO: clean-up range on error.
             self._add_char(char)
 
         # Insert by first cp
-- 
2.43.0


From 6b9b130b7343d95f0159d1b3f3e68e7e837a3e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 03/39] fix: a refused range deletion deletes nothing

---
 lgr/char.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index 7bae054..3cb5bbf 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -629,17 +629,18 @@ class Repertoire(object):
                          format_cp(first_cp), format_cp(last_cp))
             raise NotInLGR(first_cp)
 
+        # Refuse before anything is deleted: a code point of the range may have
+        # been deleted on its own
         for cp in range(first_cp, last_cp + 1):
-            char = RangeChar(cp, first_cp, last_cp)
-            if not self._del_char(char):
-                # TODO: clean-up range on error
-                # This should only happen if range insertion failed
-                # -> inconsistent state for now
+            if cp not in self:
                 logger.critical("Range '%s - %s' is missing code point %s",
                                 format_cp(first_cp), format_cp(last_cp),
                                 format_cp(cp))
                 raise NotInLGR(cp)
 
+        for cp in range(first_cp, last_cp + 1):
+            self._del_char(RangeChar(cp, first_cp, last_cp))
+
         # Remove and sort by first cp
         self.ranges.remove((first_cp, last_cp))
 
-- 
2.43.0


From e3bf296b2b83f51d52f9dc8ac5b8f0eab4ca7a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 04/39] fix: collapsing no code point gives no range

---
 lgr/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/utils.py b/lgr/utils.py
index 4893154..f419b21 100644
--- a/lgr/utils.py
+++ b/lgr/utils.py
@@ -126,6 +126,8 @@ def collapse_codepoints(codepoints):
     result = []
     # Sort list
     codepoints = sorted(codepoints)
+    if not codepoints:
+        return result
     first_cp = codepoints[0]
     last_cp = codepoints[0]
     for cp in codepoints[1:]:
-- 
2.43.0


From 124f722fbea9dcf3f69861a05c9f2dd26c044be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 05/39] fix: a reference identifier does not end with a newline

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 2097fa2..096a940 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -348,7 +348,7 @@ class ReferenceManager(OrderedDict):
     so if no ref_id is given, generate one int-based id, converted to string.
     """
 
-    REFERENCE_REGEX = r'^[\-_.:0-9A-Z]*$'
+    REFERENCE_REGEX = r'^[\-_.:0-9A-Z]*\Z'
 
     def __init__(self, *args, **kwargs):
         super(ReferenceManager, self).__init__(*args, **kwargs)
-- 
2.43.0


From fb6fde95f5a67f4c36b9637983886047aca96132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 06/39] fix: deleting a range withdraws its code points from
 the classes of their tags

---
 lgr/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 634826d..1a760cb 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -575,7 +575,12 @@ class LGR(object):
             logger.error('First code point of range is greater than last')
             raise LGRApiInvalidParameter('first_cp')
 
+        tags = [(cp, self.repertoire[cp].tags)
+                for cp in range(first_cp, last_cp + 1)
+                if cp in self.repertoire]
         self.repertoire.del_range(first_cp, last_cp)
+        for cp, cp_tags in tags:
+            self._del_cp_from_tag_classes(cp, cp_tags)
 
     def expand_ranges(self):
         """
-- 
2.43.0


From 49006f6ed5f1970e352bde060365ee660efa6091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 07/39] fix: the context of an index variant is what follows
 the code points it replaces

---
 lgr/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 1a760cb..021f16f 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1362,9 +1362,10 @@ class LGR(object):
         logger.debug("Computing index label for partition: %s", chars)
         index_label = []
         prefix = tuple()
-        suffix = tuple(c for cp in chars[1:] for c in cp.cp)
+        suffix = tuple(c for cp in chars for c in cp.cp)
         idx = 0
         for char in chars:
+            suffix = suffix[len(char):]
             logger.debug('Char CP: %s', format_cp(char.cp))
             # Index: smallest id of the char and its variants
             ids = [list(char.cp)]
@@ -1381,7 +1382,6 @@ class LGR(object):
             logger.debug('List of variant ids: %s', ids)
             index_label.extend(list(min(ids)))
             prefix += char.cp
-            suffix = suffix[len(char):]
             idx += len(char)
 
         logger.debug("Index label: '%s'", index_label)
-- 
2.43.0


From b02fb807d14ae408c802a9bd35aa300578d61371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 08/39] fix: the checks run depend on the options of this
 validation only

---
 lgr/validate/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/__init__.py b/lgr/validate/__init__.py
index abdbe7f..d408306 100644
--- a/lgr/validate/__init__.py
+++ b/lgr/validate/__init__.py
@@ -50,7 +50,7 @@ def validate_lgr(lgr, options):
 
     result = []
 
-    TO_RUN = CHECKS
+    TO_RUN = list(CHECKS)
     if options.get('rfc7940'):
         TO_RUN += RFC7940_CHECKS
 
-- 
2.43.0


From c9b8d07890e5611037b15db08f46689b0567aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 09/39] fix: a non-standard disposition does not prevent the
 data checks

---
 lgr/validate/miscellaneous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 6af4988..54dae36 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -115,7 +115,8 @@ def check_miscellaneous(lgr, options):
         'repertoire': []
     }
 
-    success = check_lgr_rules(lgr) and check_lgr_data(lgr)
+    success = check_lgr_rules(lgr)
+    success = check_lgr_data(lgr) and success
 
     logger.info("Miscellaneous test done")
 
-- 
2.43.0


From fa6f06a71c75022b7a5fb1d9d01c4bd0e75a7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 10/39] fix: the transitivity check reports a variant that is
 not in the repertoire

---
 lgr/validate/transitivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/validate/transitivity.py b/lgr/validate/transitivity.py
index 6a5cc30..5ffa641 100644
--- a/lgr/validate/transitivity.py
+++ b/lgr/validate/transitivity.py
@@ -49,6 +49,8 @@ def check_transitivity(lgr, options):
             except NotInLGR:
                 logger.error("Code point '%s' not in LGR", format_cp(b.cp))
                 success = False
+                lgr.notify_error('basic_transitivity')
+                result['repertoire'].append({'char': a, 'variant': b})
                 continue
             # Variant is defined in repertoire
             # (we have checked for symmetry first)
-- 
2.43.0


From fd9ff0d929948a88e2ef18dfa639eee88c97b988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 11/39] fix: a document without metadata can be read

---
 lgr/parser/xml_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 38d9ff6..837e52c 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -494,7 +494,7 @@ class XMLParser(LGRParser):
         """
         metadata_added = False
         for _, elem in context:
-            if not metadata_added and elem == DATA_TAG:
+            if not metadata_added and elem.tag == DATA_TAG:
                 # The optional "meta" element is not present since it must
                 # preceed the required data element.
                 # However, we still have to call _process_meta
@@ -503,6 +503,7 @@ class XMLParser(LGRParser):
             if elem.tag == META_TAG:
                 logger.debug("Got 'meta' element")
                 self._process_meta(elem)
+                metadata_added = True
             elif elem.tag == DATA_TAG:
                 logger.debug("Got 'data' element")
                 self._process_data(elem)
-- 
2.43.0


From 16241ef5f5d59515189a78dff09993f92e652257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 12/39] fix: an empty description can be read

---
 lgr/parser/xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 837e52c..cad6474 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -201,7 +201,7 @@ class XMLParser(LGRParser):
             elif tag == DESCRIPTION_TAG:
                 # Seems to be an issue with CDATA/iterparse: https://bugs.launchpad.net/lxml/+bug/1788449
                 # For now, manually replace CRLF with LF
-                metadata.description = Description(child.text.replace('\r\n', '\n'),
+                metadata.description = Description((child.text or '').replace('\r\n', '\n'),
                                                    child.get('type', None))
             elif tag == REFERENCES_TAG:
                 for reference in child:
-- 
2.43.0


From 303f02b4a8d879c9da97dafda382b21b20a45ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 13/39] fix: a description that contains the end of a CDATA
 section can be written

---
 lgr/parser/xml_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/xml_serializer.py b/lgr/parser/xml_serializer.py
index 70c08ae..c132764 100644
--- a/lgr/parser/xml_serializer.py
+++ b/lgr/parser/xml_serializer.py
@@ -100,7 +100,7 @@ def _serialize_meta(lgr, meta):
             node.attrib['type'] = metadata.description.description_type
 
         content = metadata.description.value
-        if metadata.description.description_type not in [None, 'text/plain']:
+        if metadata.description.description_type not in [None, 'text/plain'] and ']]>' not in content:
             # Wrap content in CDATA section
             content = etree.CDATA(content)
         node.text = content
-- 
2.43.0


From 66f24e8ac4c3580ad9a320a832a1fed4e596d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 14/39] fix: the union keeps the variants of code points only
 the first rules have

---
 lgr/tools/compare/union.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 887f53b..8542bc1 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -332,6 +332,11 @@ def union_lgrs(lgr1, lgr2):
                    tag=char.tags,
                    when=char.when, not_when=char.not_when)
 
+        for v in char.get_variants():
+            lgr.add_variant(char.cp, v.cp, variant_type=v.type,
+                            when=v.when, not_when=v.not_when,
+                            comment=v.comment)
+
     for cp in set.difference(second_cps, first_cps):
         char = lgr2.get_char(cp)
 
-- 
2.43.0


From 3b0be099539c9ca23d6a0259335788d67bb2f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 15/39] fix: the scopes of both sides are compared

---
 lgr/tools/compare/intersect.py | 2 +-
 lgr/tools/compare/union.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 3bbbc69..7d538bc 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -85,7 +85,7 @@ def intersect_metadata(first, second):
     output.description = intersect_description(first.description,
                                                second.description)
 
-    output.scopes = set.intersection(set(first.scopes), set(first.scopes))
+    output.scopes = set.intersection(set(first.scopes), set(second.scopes))
     output.languages = set.intersection(set(first.languages),
                                         set(second.languages))
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 8542bc1..fe2e4cd 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -94,7 +94,7 @@ def union_metadata(first, second):
         output.description = union_description(first.description,
                                                second.description)
 
-    output.scopes = set.union(set(first.scopes), set(first.scopes))
+    output.scopes = set.union(set(first.scopes), set(second.scopes))
     output.languages = set.union(set(first.languages),
                                  set(second.languages))
 
-- 
2.43.0


From d30439441407652fb50e91928297098c4b910aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 16/39] fix: the union keeps the version and the description
 only the second rules have

---
 lgr/tools/compare/union.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index fe2e4cd..db639b4 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -88,11 +88,9 @@ def union_metadata(first, second):
 
     output = Metadata()
 
-    if first.version is not None:
-        output.version = union_version(first.version, second.version)
-    if first.description is not None:
-        output.description = union_description(first.description,
-                                               second.description)
+    output.version = union_version(first.version, second.version)
+    output.description = union_description(first.description,
+                                           second.description)
 
     output.scopes = set.union(set(first.scopes), set(second.scopes))
     output.languages = set.union(set(first.languages),
-- 
2.43.0


From 1455ec537984bc63f06c8bbebb60a06ba6724ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 17/39] fix: a condition both rules put on a code point is kept
 by their union and intersection

---
 lgr/tools/compare/intersect.py | 4 +++-
 lgr/tools/compare/union.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 7d538bc..1f0b349 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -135,7 +135,9 @@ def intersect_char(lgr, first, second):
 
     tags = list(set.intersection(set(first.tags), set(second.tags)))
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    lgr.add_cp(first.cp, comment=comment, tag=tags,
+               when=first.when if first.when == second.when else None,
+               not_when=first.not_when if first.not_when == second.not_when else None)
 
     variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
     variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index db639b4..01b0842 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -142,7 +142,9 @@ def union_char(lgr, first, second):
 
     tags = list(set.union(set(first.tags), set(second.tags)))
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    lgr.add_cp(first.cp, comment=comment, tag=tags,
+               when=first.when if first.when == second.when else None,
+               not_when=first.not_when if first.not_when == second.not_when else None)
 
     for v in set.union(set(first.get_variants()), set(second.get_variants())):
         lgr.add_variant(first.cp, v.cp, variant_type=v.type,
-- 
2.43.0


From 992964dc584b3298a43cd849be4a3e79c5227a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 18/39] fix: the intersection keeps what both rules say of a
 variant

---
 lgr/tools/compare/intersect.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 1f0b349..20d282d 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -139,11 +139,15 @@ def intersect_char(lgr, first, second):
                when=first.when if first.when == second.when else None,
                not_when=first.not_when if first.not_when == second.not_when else None)
 
-    variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
-    variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
-
-    for v in set.intersection(variant_first, variant_second):
-        lgr.add_variant(first.cp, v[0], when=v[1], not_when=v[2])
+    variant_second = list(second.get_variants())
+
+    for v in first.get_variants():
+        for other in variant_second:
+            if v == other:
+                lgr.add_variant(first.cp, v.cp,
+                                variant_type=v.type if v.type == other.type else None,
+                                when=v.when, not_when=v.not_when,
+                                comment=let_user_choose(v.comment, other.comment))
 
 
 def intersect_actions(lgr1, lgr2):
-- 
2.43.0


From a63ee0369b59e2b188e7a4e9408ec09ed18ca543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 19/39] fix: renaming a rule or a class changes its name only

---
 lgr/tools/compare/intersect.py | 8 ++++----
 lgr/tools/compare/union.py     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 20d282d..ec8489f 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -195,8 +195,8 @@ def intersect_rules(lgr1, lgr2):
             rules.append(rule_name)
             continue
 
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
+        rule_1 = rule_1.replace('name="%s"' % rule_name, 'name="%s_1"' % rule_name)
+        rule_2 = rule_2.replace('name="%s"' % rule_name, 'name="%s_2"' % rule_name)
 
         rules_xml.append(rule_1)
         rules_xml.append(rule_2)
@@ -232,8 +232,8 @@ def intersect_classes(lgr1, lgr2):
             classes.append(class_name)
             continue
 
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
+        class_1 = class_1.replace('name="%s"' % class_name, 'name="%s_1"' % class_name)
+        class_2 = class_2.replace('name="%s"' % class_name, 'name="%s_2"' % class_name)
 
         classes_xml.append(class_1)
         classes_xml.append(class_2)
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 01b0842..5cf0148 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -209,8 +209,8 @@ def union_rules(lgr1, lgr2):
             rules.append(rule_name)
             continue
 
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
+        rule_1 = rule_1.replace('name="%s"' % rule_name, 'name="%s_1"' % rule_name)
+        rule_2 = rule_2.replace('name="%s"' % rule_name, 'name="%s_2"' % rule_name)
 
         rules_xml.append(rule_1)
         rules_xml.append(rule_2)
@@ -260,8 +260,8 @@ def union_classes(lgr1, lgr2):
             classes.append(class_name)
             continue
 
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
+        class_1 = class_1.replace('name="%s"' % class_name, 'name="%s_1"' % class_name)
+        class_2 = class_2.replace('name="%s"' % class_name, 'name="%s_2"' % class_name)
 
         classes_xml.append(class_1)
         classes_xml.append(class_2)
-- 
2.43.0


From 95f44e462d4cedc5822fa110c3ac8ab9db280fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 20/39] fix: the intersection keeps the order of the actions

---
 lgr/tools/compare/intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index ec8489f..4f24285 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -163,7 +163,7 @@ def intersect_actions(lgr1, lgr2):
     # Intersection of actions:
     # - keep same actions.
 
-    actions = list(set.intersection(set(lgr1.actions), set(lgr2.actions)))
+    actions = [a for a in lgr1.actions if a in lgr2.actions]
     actions_xml = [lgr1.actions_xml[lgr1.actions.index(a)] for a in actions]
 
     return actions, actions_xml
-- 
2.43.0


From fff14307d845880705ca0c0722c54378958766de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 21/39] fix: a pair of colliding labels is reported once

---
 lgr/tools/diff_collisions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 8785e83..05aa731 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -265,13 +265,9 @@ def _get_new_variants(new_labels, old_labels):
 
 
 def dump_collisions(colliding1, cb, colliding2=None, **kwargs):
-    idx = 0
-    list2 = colliding2
-    for l1 in colliding1:
-        idx += 1
-        if list2 is None:
-            # do not display the same collision permuted
-            list2 = colliding1[idx:]
+    for idx, l1 in enumerate(colliding1, 1):
+        # do not display the same collision permuted
+        list2 = colliding1[idx:] if colliding2 is None else colliding2
         for l2 in list2:
             if l1 != l2:
                 yield cb(l1, l2, **kwargs)
-- 
2.43.0


From c4adbd11e1c6cdc0469374a60267eb4588b08781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 22/39] fix: the annotation tells that the first action refused
 the label

---
 lgr/tools/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index 6247d92..b4982e9 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -13,7 +13,7 @@ logger = logging.getLogger(__name__)
 
 def _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
     yield "%s: %s\n" % (label, disp)
-    if not eligible and action_idx > 0:
+    if not eligible and action_idx >= 0:
         yield " Rule %s: %s\n" % (action_idx, lgr.effective_actions[action_idx])
     for cp_not_in_lgr, rules in label_invalid_parts:
         yield " Code point {cp} {reason}\n".format(
-- 
2.43.0


From d7394652d8356b484e81bb6fb30c676585d60d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 23/39] fix: a label is told to collide with the set labels
 only if it does itself

---
 lgr/tools/annotate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index b4982e9..45732b9 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -82,7 +82,8 @@ def lgr_set_annotate(lgr, script_lgr, set_labels_input, labels_input):
                 if label in filtered_set:
                     collision = 'Label is in the LGR set labels'
                 indexes = get_collisions(lgr, filtered_set + [label], quiet=False)
-                if len(indexes) > 0:
+                # the set labels may also collide among themselves
+                if any(label == l['label'] for colliding in indexes.values() for l in colliding):
                     collision = 'Label collides with the LGR set labels'
 
             out = disp
-- 
2.43.0


From 60a4e51f95b0a0e0c93ff1e12d6666e3d11d7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 24/39] fix: alternative scripts of a label with code points
 that occur in sequences only

---
 lgr/mixed_scripts_variant_filter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index c6a2ed2..6ea55fb 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -80,9 +80,9 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
         :return: A set of scripts to keep for computation when filtering cross-script variants.
         """
         scripts = None
-        current_label = label
 
-        for c in label:
+        for idx, c in enumerate(label):
+            current_label = label[idx:]
             scripts_for_char = set()
             try:
                 chars_from_prefix = repertoire.get_chars_from_prefix(c, only_variants=True)
@@ -103,7 +103,6 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
                 scripts = set(scripts_for_char)
             else:
                 scripts.intersection_update(scripts_for_char)
-            current_label = current_label[1:]
 
         if scripts is None:
             return set()
-- 
2.43.0


From e5ad006f4f657a6696d402934ec4357c591309e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 25/39] fix: a range whose code points are accepted by override
 is refused as a whole if some exist

---
 lgr/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 021f16f..391fe5f 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -501,6 +501,14 @@ class LGR(object):
                                 status.__class__.__name__, format_cp(cp))
                 raise LGRException()
 
+        # A code point accepted by override may be present in repertoire
+        for cp in [cp for cp in codepoints if cp in self.repertoire]:
+            logger.error("CP '%s' is already present in repertoire",
+                         format_cp(cp))
+            if not force:
+                raise CharAlreadyExists((cp,))
+            codepoints.remove(cp)
+
         # References handling
         references = []
         for ref_id in ref if ref is not None else []:
-- 
2.43.0


From 78bf05d260604311293da28a1230edce7458fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:10 +0000
Subject: [PATCH 26/39] fix: conditions of different kinds are different, not
 missing

---
 lgr/tools/idn_review/variant_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 42a9c05..395a57a 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -203,7 +203,7 @@ class VariantComparison:
             return self.IdnRuleCheck.DIFFERENT
         if (idn_wle['when'] or idn_wle['not-when']) and not ref_wle['when'] and not ref_wle['not-when']:
             return self.IdnRuleCheck.LESS_CONSERVATIVE
-        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when']) or ref_wle['not-when']:
+        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when'] or ref_wle['not-when']):
             return self.IdnRuleCheck.MISSING
         return self.IdnRuleCheck.DIFFERENT
 
-- 
2.43.0


From 0c505cd984e1c9f32fb9008e8ce5ebab02ec3af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:10 +0000
Subject: [PATCH 27/39] fix: code points reported in a variant set are not
 additional

---
 lgr/tools/idn_review/variant_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 395a57a..9851a46 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -472,7 +472,7 @@ def get_additional_codepoints(idn_table, idn_table_variant_sets, reference_lgr)
     Get code points from IDN table not in reference LGR that are not handled in the report (i.e. not in a variant set)
     """
     unidb = idn_table.unicode_database
-    variants_flat = set(zip(*[v for v in idn_table_variant_sets.values()]))
+    variants_flat = set(cp for v in idn_table_variant_sets.values() for cp in v)
     return cp_report(unidb, [char for char in idn_table.repertoire if
                       char.cp not in variants_flat and char not in reference_lgr.repertoire])
 
-- 
2.43.0


From b6578863b985df0005af7551f557c0181be0724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:46 +0000
Subject: [PATCH 28/39] fix: a sequence the reference does not contain is not
 missing from the table

---
 lgr/tools/idn_review/variant_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 9851a46..820b38e 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -373,7 +373,7 @@ class VariantSetsReport:
         if not self.idn_table_variant_set:
             # check if a sequence is missing
             for cp in self.reference_lgr_variant_set:
-                if len(cp) > 1:
+                if len(cp) > 1 and cp in self.reference_lgr_repertoire:
                     in_idn_table = set(cp) & set(char for c in self.idn_repertoire for char in c.cp)
                     if in_idn_table:
                         for c in in_idn_table:
-- 
2.43.0


From 4ad9c9144de68b1d8ecf31059a1d346904a35060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:10 +0000
Subject: [PATCH 29/39] fix: variant sets that share their lowest member are
 all reviewed

---
 lgr/tools/idn_review/variant_sets.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 820b38e..7efc759 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -477,9 +477,20 @@ def get_additional_codepoints(idn_table, idn_table_variant_sets, reference_lgr)
                       char.cp not in variants_flat and char not in reference_lgr.repertoire])
 
 
+def get_indexed_variant_sets(lgr: LGR) -> Dict[Tuple, Tuple]:
+    """
+    Get variant sets by lowest member, merging the sets that share it (i.e. that are not symmetric or transitive)
+    """
+    variant_sets = {}
+    for variant_set in lgr.repertoire.get_variant_sets(force=True):
+        index = variant_set[0]
+        variant_sets[index] = tuple(sorted(set(variant_sets.get(index, ())) | set(variant_set)))
+    return variant_sets
+
+
 def generate_variant_sets_report(idn_table: LGR, reference_lgr: LGR) -> Dict:
-    idn_table_variant_sets = {s[0]: s for s in idn_table.repertoire.get_variant_sets(force=True)}
-    reference_lgr_variant_sets = {s[0]: s for s in reference_lgr.repertoire.get_variant_sets(force=True)}
+    idn_table_variant_sets = get_indexed_variant_sets(idn_table)
+    reference_lgr_variant_sets = get_indexed_variant_sets(reference_lgr)
 
     # if some variant sets from IDN table or Ref. LGR are included respectively in Ref. LGR or IDN table but does not
     # have the same index, try to update the indexes to make them match
-- 
2.43.0


From 56c2a1a879c601423289232edab1800dc79236e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:37 +0000
Subject: [PATCH 30/39] fix: merging a set of rule sets leaves the set and its
 members as they are

---
 lgr/tools/merge_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 5982621..cf5c8e7 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -460,7 +460,7 @@ def merge_lgr_set(lgr_set, name):
     logger.debug("Merge %s", name)
 
     # order LGRs
-    lgr_set.sort(key=lambda x: get_script(x).replace('und-', 'zzz'))
+    lgr_set = sorted(lgr_set, key=lambda x: get_script(x).replace('und-', 'zzz'))
 
     # Ensure all unicode version are correct
     unicode_version = OrderedDict().fromkeys(lgr.metadata.unicode_version for lgr in lgr_set)
@@ -473,6 +473,9 @@ def merge_lgr_set(lgr_set, name):
     previous_scripts = []
     for lgr in lgr_set:
         script = get_script(lgr)
+        # expand ranges on a copy of the repertoire, the LGR in the set must not be modified
+        lgr = copy.copy(lgr)
+        lgr.repertoire = copy.deepcopy(lgr.repertoire)
         lgr.expand_ranges()
 
         merge_references(lgr, script, merged_lgr, ref_mapping)
-- 
2.43.0


From c2655a891ae36d59f1661aefeaf9327a12408f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:37 +0000
Subject: [PATCH 31/39] fix: references of a code point already merged from
 another rule set are mapped to their merged identifiers

---
 lgr/tools/merge_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index cf5c8e7..85a1966 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -340,7 +340,8 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # same cp already in LGR
             existing_char.comment = let_user_choose(existing_char.comment, char.comment)
             existing_char.tags = list(set.union(set(existing_char.tags), set(new_tags)))
-            existing_char.references = set.union(set(existing_char.references), set(char.references))
+            new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
+            existing_char.references = set.union(set(existing_char.references), set(new_ref))
 
             # if 2 scripts have different variants on a character, we need to add the variants for script 1 as
             # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
-- 
2.43.0


From a4fb74928424bc092e80dab6f762d37e9afcd43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:37 +0000
Subject: [PATCH 32/39] fix: merging rule sets of the same script does not
 reuse the reference mapping of the previous one

---
 lgr/tools/merge_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 85a1966..3e799aa 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -141,7 +141,8 @@ def merge_references(lgr, script, merged_lgr, ref_mapping):
     :param merged_lgr: The merged LGR
     :param ref_mapping: The reference id mapping from base LGR to LGR set
     """
-    ref_mapping.setdefault(script, OrderedDict())
+    # start afresh if another LGR of the set has the same script
+    ref_mapping[script] = OrderedDict()
     if lgr.reference_manager:
         inserted_references = {x['value']: ref_id for ref_id, x in merged_lgr.reference_manager.items()}
         for ref_id, ref_dict in lgr.reference_manager.items():
-- 
2.43.0


From 0c1290cea56926aacddf70b2efcd230f80d5c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:37 +0000
Subject: [PATCH 33/39] fix: merging does not fail on variants added for
 transitivity that are already defined

---
 lgr/tools/merge_set.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 3e799aa..c43ba01 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -445,10 +445,14 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
     for var1_list, var2_list in new_variants:
         for v1 in var1_list:
             for v2 in var2_list:
-                merged_lgr.add_variant(v1.cp, v2.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
-                merged_lgr.add_variant(v2.cp, v1.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
+                if v1.cp == v2.cp:
+                    # same variant with different contextual rules
+                    continue
+                for cp, var_cp in ((v1.cp, v2.cp), (v2.cp, v1.cp)):
+                    if var_cp in [v.cp for v in merged_lgr.get_variants(cp)]:
+                        continue
+                    merged_lgr.add_variant(cp, var_cp, variant_type='blocked',
+                                           comment='New variant for merge to keep transitivity')
 
 
 def merge_lgr_set(lgr_set, name):
-- 
2.43.0


From 7b83c43b4a15172054f627d090e986625f808e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:49 +0000
Subject: [PATCH 34/39] fix: renaming the rule of a merged action only changes
 its match or not-match attribute

---
 lgr/tools/merge_set.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index c43ba01..091b520 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -174,14 +174,15 @@ def rename_action(action, action_xml, script):
         else:
             # Prefix MSR action with 'Common-'
             new_action.match = 'Common-' + action.match
-        action_xml = action_xml.replace(action.match, new_action.match)
+        action_xml = action_xml.replace('match="{}"'.format(action.match), 'match="{}"'.format(new_action.match))
     if action.not_match:
         if action.not_match not in MSR_2_RULES:
             new_action.not_match = script + '-' + action.not_match
         else:
             # Prefix MSR action with 'Common-'
             new_action.not_match = 'Common-' + action.not_match
-        action_xml = action_xml.replace(action.not_match, new_action.not_match)
+        action_xml = action_xml.replace('not-match="{}"'.format(action.not_match),
+                                        'not-match="{}"'.format(new_action.not_match))
 
     return new_action, action_xml
 
-- 
2.43.0


From cdce9783f4aed57e49d890f93aeae3e749e9fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:17 +0000
Subject: [PATCH 35/39] fix: references with the same value are listed once
 when merging

---
 lgr/tools/merge_set.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 091b520..8bdf113 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -158,6 +158,18 @@ def merge_references(lgr, script, merged_lgr, ref_mapping):
                     ref_mapping[script][ref_id] = inserted_references[ref]
 
 
+def map_references(references, script, ref_mapping):
+    """
+    Get the ids in the merged LGR of some references.
+
+    :param references: The reference ids in the LGR
+    :param script: The LGR script
+    :param ref_mapping: The reference id mapping from base LGR to LGR set
+    :return: The ids in the merged LGR, without duplicates
+    """
+    return list(OrderedDict.fromkeys(ref_mapping.get(script, {}).get(x, x) for x in references))
+
+
 def rename_action(action, action_xml, script):
     """
     Prefix action matches with script
@@ -206,7 +218,7 @@ def merge_actions(lgr, script, merged_lgr, ref_mapping):
         merged_action, merged_action_xml = rename_action(action, action_xml, script)
 
         # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in action.references]
+        new_ref = map_references(action.references, script, ref_mapping)
         merged_action.references = new_ref
         merged_action_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_action_xml)
 
@@ -264,7 +276,7 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
             continue
 
         # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in rule.references]
+        new_ref = map_references(rule.references, script, ref_mapping)
         merged_rule_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_rule_xml)
 
         merged_lgr.rules.append(merged_rule_name)
@@ -309,7 +321,7 @@ def merge_classes(lgr, script, merged_lgr, ref_mapping):
         merged_class_name, merged_class_xml = rename_class(classe, class_xml, script)
 
         # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in classe.references]
+        new_ref = map_references(classe.references, script, ref_mapping)
         merged_class_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_class_xml)
 
         merged_lgr.classes.append(merged_class_name)
@@ -342,7 +354,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # same cp already in LGR
             existing_char.comment = let_user_choose(existing_char.comment, char.comment)
             existing_char.tags = list(set.union(set(existing_char.tags), set(new_tags)))
-            new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
+            new_ref = map_references(char.references, script, ref_mapping)
             existing_char.references = set.union(set(existing_char.references), set(new_ref))
 
             # if 2 scripts have different variants on a character, we need to add the variants for script 1 as
@@ -366,7 +378,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # add new variants to current code point
             # do not keep new_v1 as reflexive variant may have been removed
             for v in set.difference(set(char.get_variants()), set(existing_char.get_variants())):
-                new_ref = [ref_mapping[script].get(x, x) for x in v.references]
+                new_ref = map_references(v.references, script, ref_mapping)
                 new_when = None
                 new_not_when = None
                 if v.when:
@@ -425,7 +437,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
         if char.not_when:
             not_when = script + '-' + char.not_when
 
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
+        new_ref = map_references(char.references, script, ref_mapping)
         merged_lgr.add_cp(char.cp, comment=char.comment, ref=new_ref,
                           tag=list(new_tags),
                           when=when, not_when=not_when)
@@ -437,7 +449,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             if v.not_when:
                 not_when = script + '-' + v.not_when
 
-            new_ref = [ref_mapping[script].get(r, r) for r in v.references]
+            new_ref = map_references(v.references, script, ref_mapping)
             merged_lgr.add_variant(char.cp, v.cp, variant_type='blocked',
                                    comment=v.comment, ref=new_ref,
                                    when=when, not_when=not_when)
-- 
2.43.0


From 93599f628342ef2243677a2afac15f0edf309cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 36/39] fix: skip the variants of a line whose code point is
 invalid (text tables)

---
 lgr/parser/rfc3743_parser.py | 1 +
 lgr/parser/rfc4290_parser.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index d295f09..df2d25c 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -100,6 +100,7 @@ class RFC3743Parser(LGRParser):
                 self._lgr.add_cp(codepoints, ref=references, force=self.force)
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char, line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index b2a1fc5..6da34db 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -61,6 +61,7 @@ class RFC4290Parser(LGRParser):
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char,
                              line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
-- 
2.43.0


From fa5179827dc88d1fa3aee55536a244fbae5a2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 37/39] fix: RFC4290 code points with too many digits or above
 U+10FFFF are errors

---
 lgr/parser/rfc4290_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index 6da34db..90455a1 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -15,6 +15,7 @@ from lgr.utils import format_cp
 logger = logging.getLogger(__name__)
 
 UNICODE_CODEPOINT_RE = re.compile(r'U\+([0-9a-fA-F]{4,6})')
+VALID_CODEPOINT_RE = re.compile(r'U\+((?:10|0?[0-9a-fA-F])?[0-9a-fA-F]{4})\b')
 
 
 class RFC4290Parser(LGRParser):
@@ -100,7 +101,7 @@ def parse_char(char):
     codepoints = []
     chars = char.split('-')
     for c in chars:
-        codepoint_re = UNICODE_CODEPOINT_RE.match(c)
+        codepoint_re = VALID_CODEPOINT_RE.match(c)
         if codepoint_re is not None:
             codepoints.append(int(codepoint_re.group(1), 16))
         else:
-- 
2.43.0


From cfea3375e5196d19627a892fb611914389f857bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 38/39] fix: RFC3743 code points outside the notation are
 errors

---
 lgr/parser/rfc3743_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index df2d25c..0a46feb 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -23,6 +23,10 @@ VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d)\s+(?P<date>\d{8})\s*(?:#\
 # Try to support both.
 UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d(,\d)*)\))?')
 
+VALID_CODEPOINT = r'(?:U\+)?(?:10|0?[0-9a-fA-F])?[0-9a-fA-F]{4}'
+VALID_CHAR = VALID_CODEPOINT + r'(?: ' + VALID_CODEPOINT + r')* ?(?:\(\d(?:,\d)*\))?'
+VALID_CHARS_RE = re.compile(VALID_CHAR + r'(?:\s*,\s*' + VALID_CHAR + r')*')
+
 
 class RFC3743Parser(LGRParser):
 
@@ -167,9 +171,12 @@ def parse_char(char):
     >>> parse_char('U+0926 U+094D U+0917')
     [([2342, 2381, 2327], [])]
     """
+    if VALID_CHARS_RE.fullmatch(char.strip()) is None:
+        raise ValueError(char)
+
     codepoints = []
     for match in UNICODE_CODEPOINT_RE.finditer(char):
-        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split(' ')]
+        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split()]
         references = match.group('references')
 
         ref_list = []
-- 
2.43.0


From e0d58fa8a83ec608f980573a730961f0592e9128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 39/39] fix: line table code points outside the notation are
 errors

---
 lgr/parser/line_parser.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lgr/parser/line_parser.py b/lgr/parser/line_parser.py
index cf4f15a..518564a 100644
--- a/lgr/parser/line_parser.py
+++ b/lgr/parser/line_parser.py
@@ -14,7 +14,7 @@ from lgr.parser.parser import LGRParser
 
 logger = logging.getLogger(__name__)
 
-UNICODE_CODEPOINT_RE = re.compile(r'U\+([0-9a-fA-F]{4,6})')
+UNICODE_CODEPOINT_RE = re.compile(r'U\+([0-9a-fA-F]*)')
 
 
 class LineParser(LGRParser):
@@ -44,12 +44,15 @@ class LineParser(LGRParser):
                 continue
 
             codepoints = []
-            for cp in UNICODE_CODEPOINT_RE.finditer(line):
-                try:
-                    codepoints.append(int(cp.group(1), 16))
-                except ValueError:
-                    logger.error("Invalid code point '%s' at line %d",
-                                 cp, line_num)
+            try:
+                for cp in UNICODE_CODEPOINT_RE.finditer(line):
+                    digits = cp.group(1)
+                    if not 4 <= len(digits) <= 6 or int(digits, 16) > 0x10ffff:
+                        raise ValueError(cp.group(0))
+                    codepoints.append(int(digits, 16))
+            except ValueError as exc:
+                logger.error("Invalid code point '%s' at line %d", exc, line_num)
+                continue
 
             try:
                 self._lgr.add_cp(codepoints)
-- 
2.43.0

