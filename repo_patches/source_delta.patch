From d73319b04e2cef2adb5fee1353b19b5e6e85fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:33 +0000
Subject: [PATCH 01/46] fix: report the extensions used by an element's
 attributes

XAttributable.get_extensions asked each attribute for the extensions of its
own children, and so never reported any extension.
---
 src/opyenxes/model/XAttributable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XAttributable.py b/src/opyenxes/model/XAttributable.py
index a269b6c..9084a04 100644
--- a/src/opyenxes/model/XAttributable.py
+++ b/src/opyenxes/model/XAttributable.py
@@ -24,8 +24,8 @@ class XAttributable:
         """
         extensions = set()
         for attribute in self.__attributes.values():
-            extension = attribute.get_extensions()
-            if len(extension) != 0:
+            extension = attribute.get_extension()
+            if extension is not None:
                 extensions.add(extension)
         return extensions
 
-- 
2.43.0


From d84796c67a7fa061d475aed92432c8fc3db76f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 02/46] fix: clone attributes together with their children

Cloning a map shared the attribute objects with the original, cloning an
attribute lost its nested attributes, and lists and containers could not be
cloned at all.
---
 src/opyenxes/model/XAttributeBoolean.py    |  1 +
 src/opyenxes/model/XAttributeCollection.py | 19 +++++++++++++++++++
 src/opyenxes/model/XAttributeContinuous.py |  1 +
 src/opyenxes/model/XAttributeDiscrete.py   |  1 +
 src/opyenxes/model/XAttributeID.py         |  1 +
 src/opyenxes/model/XAttributeLiteral.py    |  1 +
 src/opyenxes/model/XAttributeMap.py        |  2 +-
 src/opyenxes/model/XAttributeTimestamp.py  |  1 +
 8 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XAttributeBoolean.py b/src/opyenxes/model/XAttributeBoolean.py
index 395973a..4a5e0c3 100644
--- a/src/opyenxes/model/XAttributeBoolean.py
+++ b/src/opyenxes/model/XAttributeBoolean.py
@@ -41,6 +41,7 @@ class XAttributeBoolean(XAttribute):
         """
         clone = XAttributeBoolean(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 55c8661..3302792 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -34,6 +34,25 @@ class XAttributeCollection(XAttribute):
             return self.get_attributes().values()
         return self.__collection.copy()
 
+    def clone(self):
+        """Creates and returns a copy of this object.
+
+        :return: A clone of this instance.
+        :rtype: `XAttributeCollection`
+        """
+        clone = self.__class__(self.get_key(), self.get_extension())
+        children = self.get_attributes()
+        clone.set_attributes(children.clone())
+        for attribute in self.get_collection():
+            # A child may also be present in the attribute map (e.g. in parsed
+            # logs), keep them the same object in the clone.
+            if children.get(attribute.get_key()) is attribute:
+                clone.add_to_collection(
+                    clone.get_attributes()[attribute.get_key()])
+            else:
+                clone.add_to_collection(attribute.clone())
+        return clone
+
     def __str__(self):
         text = []
         sep = "["
diff --git a/src/opyenxes/model/XAttributeContinuous.py b/src/opyenxes/model/XAttributeContinuous.py
index b255d68..20cde5f 100644
--- a/src/opyenxes/model/XAttributeContinuous.py
+++ b/src/opyenxes/model/XAttributeContinuous.py
@@ -41,6 +41,7 @@ class XAttributeContinuous(XAttribute):
         """
         clone = XAttributeContinuous(self.get_key(), self.__value,
                                      self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeDiscrete.py b/src/opyenxes/model/XAttributeDiscrete.py
index 9c567af..7715fac 100644
--- a/src/opyenxes/model/XAttributeDiscrete.py
+++ b/src/opyenxes/model/XAttributeDiscrete.py
@@ -41,6 +41,7 @@ class XAttributeDiscrete(XAttribute):
         """
         clone = XAttributeDiscrete(self.get_key(), self.__value,
                                    self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeID.py b/src/opyenxes/model/XAttributeID.py
index c84fc45..5d33825 100644
--- a/src/opyenxes/model/XAttributeID.py
+++ b/src/opyenxes/model/XAttributeID.py
@@ -40,6 +40,7 @@ class XAttributeID(XAttribute):
         """
         clone = XAttributeID(self.get_key(), self.__value.clone(),
                              self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeLiteral.py b/src/opyenxes/model/XAttributeLiteral.py
index 1868c40..5f0fb55 100644
--- a/src/opyenxes/model/XAttributeLiteral.py
+++ b/src/opyenxes/model/XAttributeLiteral.py
@@ -41,6 +41,7 @@ class XAttributeLiteral(XAttribute):
         """
         clone = XAttributeLiteral(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeMap.py b/src/opyenxes/model/XAttributeMap.py
index fa1b9e6..3dd4851 100644
--- a/src/opyenxes/model/XAttributeMap.py
+++ b/src/opyenxes/model/XAttributeMap.py
@@ -18,7 +18,7 @@ class XAttributeMap(dict):
         """
         clone = XAttributeMap()
         for key in self.keys():
-            clone[key] = self[key]
+            clone[key] = self[key].clone()
 
         return clone
 
diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index c937480..34ff9d2 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -54,6 +54,7 @@ class XAttributeTimestamp(XAttribute):
         """
         clone = XAttributeTimestamp(self.get_key(), self.__value,
                                     self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
-- 
2.43.0


From e6d368e5c706a3b2752685e502d1bdf8ede751ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 03/46] fix: keep milliseconds and time zone in
 XAttributeTimestamp.get_value_millis

---
 src/opyenxes/model/XAttributeTimestamp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 34ff9d2..03c817e 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,7 +1,6 @@
 from opyenxes.model.XAttribute import XAttribute
 from datetime import datetime
 import platform
-import time
 
 
 class XAttributeTimestamp(XAttribute):
@@ -33,7 +32,7 @@ class XAttributeTimestamp(XAttribute):
         return self.__value
 
     def get_value_millis(self):
-        return time.mktime(self.__value.timetuple()) * 1000
+        return self.__value.timestamp() * 1000
 
     def set_value(self, value):
         """Assigns the string value or datetime value of this attribute.
-- 
2.43.0


From aae2314bdd615d7cffbc83fabc4be14b1f3bdb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:15 +0000
Subject: [PATCH 04/46] fix: write the UTC offset of timestamps, not the name
 of their time zone

A timestamp in a named zone (CET, ...) was written with that name, which no
XES reader understands, and one in UTC was written without any zone.
---
 src/opyenxes/model/XAttributeTimestamp.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 03c817e..c64fa19 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -95,7 +95,7 @@ class XAttributeTimestamp(XAttribute):
             self.__value.minute,
             self.__value.second,
             self.__value.microsecond // 1000,
-            self.__value.tzname().replace("UTC", "").replace("+00:00", "Z").replace("-00:00", "Z"))
+            self.__zone())
 
     def __lt__(self, other):
         return True if self.compare_to(other) < 0 else False
@@ -120,6 +120,16 @@ class XAttributeTimestamp(XAttribute):
     def __ge__(self, other):
         return True if self.compare_to(other) >= 0 else False
 
+    def __zone(self):
+        """Text of the UTC offset, as used in xs:dateTime.
+
+        """
+        minutes = round(self.__value.utcoffset().total_seconds() / 60)
+        if minutes == 0:
+            return "Z"
+        return "{}{:02}:{:02}".format("-" if minutes < 0 else "+",
+                                      abs(minutes) // 60, abs(minutes) % 60)
+
     def __timestamp(self, value):
         """ Windows timestamp workaround
 
-- 
2.43.0


From 6d2e00e2a44a76a9a9f7f2ed6e6104e865726449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:16 +0000
Subject: [PATCH 05/46] fix: give equal traces the same hash

The hash was that of a temporary super() proxy, so that it changed from call
to call and a log info could not find the time bounds of a trace.
---
 src/opyenxes/model/XTrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XTrace.py b/src/opyenxes/model/XTrace.py
index e7df86f..5ec4f31 100644
--- a/src/opyenxes/model/XTrace.py
+++ b/src/opyenxes/model/XTrace.py
@@ -66,4 +66,4 @@ class XTrace(XElement, list):
         super(XTrace, self).append(p_object)
 
     def __hash__(self):
-        return hash(super(XTrace, self))
+        return hash(tuple(self))
-- 
2.43.0


From 68d5a84344aa4d953961e2b46d1da7aa297c77ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:16 +0000
Subject: [PATCH 06/46] fix: make equality of lists and containers symmetric

A list or container compared equal to any attribute with its key, while that
attribute did not compare equal to it.
---
 src/opyenxes/model/XAttributeCollection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 3302792..ffe5782 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -53,6 +53,14 @@ class XAttributeCollection(XAttribute):
                 clone.add_to_collection(attribute.clone())
         return clone
 
+    def __hash__(self):
+        return super().__hash__()
+
+    def __eq__(self, other):
+        if type(other) is not type(self):
+            return False
+        return super().__eq__(other)
+
     def __str__(self):
         text = []
         sep = "["
-- 
2.43.0


From ef1abc6f58e98629c3a8313e953fb8f143da061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:17 +0000
Subject: [PATCH 07/46] fix: keep the identity given to XFactory.create_event
 without attributes

---
 src/opyenxes/factory/XFactory.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/factory/XFactory.py b/src/opyenxes/factory/XFactory.py
index 58a671e..c5dd1af 100644
--- a/src/opyenxes/factory/XFactory.py
+++ b/src/opyenxes/factory/XFactory.py
@@ -55,13 +55,10 @@ class XFactory:
         :return: A new event instance.
         :rtype: `XEvent`
         """
-        if attribute and identity:
-            return XEvent(attribute, identity)
-
         if attribute:
-            return XEvent(attribute)
+            return XEvent(attribute, identity)
 
-        return XEvent()
+        return XEvent(identity=identity)
 
     @staticmethod
     def create_attribute_map():
-- 
2.43.0


From 2711ca2ab5d388e9b0d0a0bbeba8a98e27880c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:31 +0000
Subject: [PATCH 08/46] fix: split classifier keys at spaces outside quotes

Only quotes separated the keys, so that the usual keys="concept:name
lifecycle:transition" was read as one key.
---
 src/opyenxes/utils/XTokenHelper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XTokenHelper.py b/src/opyenxes/utils/XTokenHelper.py
index 9559550..4743878 100644
--- a/src/opyenxes/utils/XTokenHelper.py
+++ b/src/opyenxes/utils/XTokenHelper.py
@@ -1,8 +1,12 @@
+import re
+
+
 class XTokenHelper:
 
     @staticmethod
     def extract_tokens(token_string):
-        keys = list(map(lambda elem: elem.strip(), token_string.split("'")))
+        tokens = re.findall("'([^']*)'|([^ ]+)", token_string)
+        keys = list(map(lambda elem: (elem[0] or elem[1]).strip(), tokens))
         return list(filter(lambda key: key != '', keys))
 
     @staticmethod
-- 
2.43.0


From 75affc2bb4ae3f6868bcccd73f04c3e447d9c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:48 +0000
Subject: [PATCH 09/46] fix: leave out a XES date that cannot be read instead
 of failing

The end of such an element popped an attribute that was never pushed.
---
 src/opyenxes/data_in/XesXmlParser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index df2fc6f..3561788 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -81,6 +81,7 @@ class XesXmlParser:
             self.__extension = set()
             self.__globals = None
             self.__last = None
+            self.__skipped = 0  # depth inside an unreadable attribute
 
         def get_log(self):
             """Retrieves the parsed log.
@@ -148,6 +149,8 @@ class XesXmlParser:
                         array = XTokenHelper.extract_tokens(keys)
                         classifier = XEventAttributeClassifier(name, array)
                         self.__log.get_classifiers().append(classifier)
+            elif self.__skipped > 0:
+                self.__skipped += 1
             else:
                 name = attributes.get("key")
                 if name is None:
@@ -170,6 +173,7 @@ class XesXmlParser:
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
+                        self.__skipped = 1
                         return
                     attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
 
@@ -222,6 +226,9 @@ class XesXmlParser:
                         self.__log.get_extensions().add(extension)
                     self.__attributable_stack.pop()
 
+            elif self.__skipped > 0:
+                self.__skipped -= 1
+
             else:
                 i = self.__attribute_stack.pop()
                 self.__attributable_stack.pop()
-- 
2.43.0


From a8395be363408c1834c29e779694371c4bd964c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 10/46] fix: keep nested attributes of XES globals below their
 parent

The children of a global attribute were read as globals of their own.
---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 3561788..afa9324 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -233,7 +233,7 @@ class XesXmlParser:
                 i = self.__attribute_stack.pop()
                 self.__attributable_stack.pop()
 
-                if self.__globals is not None:
+                if self.__globals is not None and len(self.__attribute_stack) == 0:
 
                     self.__globals.append(i)
                 else:
-- 
2.43.0


From 9b001b9870cddfa23b3c88927853c65a4cea028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:12 +0000
Subject: [PATCH 11/46] fix: build parsed logs with the factory given to the
 parser

Both parsers ignored it and always used the current default factory.
---
 src/opyenxes/data_in/XMxmlParser.py  | 33 +++++++++++++---------
 src/opyenxes/data_in/XesXmlParser.py | 41 ++++++++++++++++------------
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index cdb48e2..4170524 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -24,10 +24,16 @@ class XMxmlParser:
                         XEventResourceClassifier()]
 
     def __init__(self, factory=None):
-        if factory:
-            self.factory = factory
-        else:
-            self.factory = XFactoryRegistry().current_default()
+        self.__factory = factory
+
+    @property
+    def factory(self):
+        """The factory given to this parser, or else the current default one.
+
+        """
+        if self.__factory:
+            return self.__factory
+        return XFactoryRegistry().current_default()
 
     def can_parse(self, file):
         """Checks whether this parser can handle the given file.
@@ -51,7 +57,7 @@ class XMxmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XMxmlParser.MxmlHandler()
+        handler = XMxmlParser.MxmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -77,8 +83,9 @@ class XMxmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory):
             super().__init__()
+            self.__factory = factory
             self.__buffer = list()
             self.__logs = list()
             self.__currentProcess = None
@@ -115,13 +122,13 @@ class XMxmlParser:
                 if tag_name == "Source":
                     self.__sourceOpen = True
                     description_string = attributes.get("program")
-                    self.__sourceAttribute = XMxmlParser().factory.create_attribute_literal("source", description_string, None)
+                    self.__sourceAttribute = self.__factory.create_attribute_literal("source", description_string, None)
                     self.__add_model_reference__(attributes, self.__sourceAttribute)
                 elif tag_name == "Process":
                     description_string = attributes.get("id")
                     description = attributes.get("description")
 
-                    self.__currentProcess = XMxmlParser().factory.create_log()
+                    self.__currentProcess = self.__factory.create_log()
                     self.__currentProcess.get_extensions().add(XConceptExtension())
                     self.__currentProcess.get_extensions().add(XOrganizationalExtension())
                     self.__currentProcess.get_extensions().add(XLifecycleExtension())
@@ -135,13 +142,13 @@ class XMxmlParser:
 
                     if description and len(description.lower()) > 0:
 
-                        description1 = XMxmlParser().factory.create_attribute_literal("description", description, None)
+                        description1 = self.__factory.create_attribute_literal("description", description, None)
                         self.__currentProcess.get_attributes()[description1.get_key()] = description1
 
                     self.__add_model_reference__(attributes, self.__currentProcess)
 
                 elif tag_name == "ProcessInstance":
-                    self.__currentInstance = XMxmlParser().factory.create_trace()
+                    self.__currentInstance = self.__factory.create_trace()
                     name = attributes.get("id")
                     if name is None:
                         name = "None"
@@ -150,16 +157,16 @@ class XMxmlParser:
                     description_string = attributes.get("description")
 
                     if description_string and len(description_string.strip()) > 0:
-                        description2 = XMxmlParser().factory.create_attribute_literal("description", description_string, None)
+                        description2 = self.__factory.create_attribute_literal("description", description_string, None)
                         self.__currentInstance.get_attributes()[description2.get_key()] = description2
 
                     self.__add_model_reference__(attributes, self.__currentInstance)
 
                 elif tag_name == "AuditTrailEntry":
-                    self.__entry = XMxmlParser().factory.create_event()
+                    self.__entry = self.__factory.create_event()
 
                 elif tag_name == "Attribute":
-                    self.__genericAttribute = XMxmlParser().factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
+                    self.__genericAttribute = self.__factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
                     self.__add_model_reference__(attributes, self.__genericAttribute)
 
                 elif tag_name == "EventType":
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index afa9324..30ab43c 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -18,10 +18,16 @@ class XesXmlParser:
     :type factory: `XFactory`
     """
     def __init__(self, factory=None):
-        if factory:
-            self.factory = factory
-        else:
-            self.factory = XFactoryRegistry().current_default()
+        self.__factory = factory
+
+    @property
+    def factory(self):
+        """The factory given to this parser, or else the current default one.
+
+        """
+        if self.__factory:
+            return self.__factory
+        return XFactoryRegistry().current_default()
 
     def can_parse(self, file):
         """Checks whether this parser can handle the given file.
@@ -43,7 +49,7 @@ class XesXmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XesXmlParser.XesXmlHandler()
+        handler = XesXmlParser.XesXmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -71,8 +77,9 @@ class XesXmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory):
             super().__init__()
+            self.__factory = factory
             self.__log = None
             self.__trace = None
             self.__event = None
@@ -103,13 +110,13 @@ class XesXmlParser:
             tag_name = element_name.lower()
             if tag_name not in ["string", "date", "int", "float", "boolean", "id", "list", "container"]:
                 if tag_name == "event":
-                    self.__event = XesXmlParser().factory.create_event()
+                    self.__event = self.__factory.create_event()
                     self.__attributable_stack.append(self.__event)
                 elif tag_name == "trace":
-                    self.__trace = XesXmlParser().factory.create_trace()
+                    self.__trace = self.__factory.create_trace()
                     self.__attributable_stack.append(self.__trace)
                 elif tag_name == "log":
-                    self.__log = XesXmlParser().factory.create_log()
+                    self.__log = self.__factory.create_log()
                     for attr_name in attributes.getNames():
                         if attr_name.startswith('xes.') or \
                         attr_name.startswith('openxes.'):
@@ -168,33 +175,33 @@ class XesXmlParser:
                 attribute = None
 
                 if tag_name == "string":
-                    attribute = XesXmlParser().factory.create_attribute_literal(name, value, keys_list)
+                    attribute = self.__factory.create_attribute_literal(name, value, keys_list)
 
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
                         self.__skipped = 1
                         return
-                    attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
+                    attribute = self.__factory.create_attribute_timestamp(name, var15, keys_list)
 
                 elif tag_name == "int":
-                    attribute = XesXmlParser().factory.create_attribute_discrete(name, int(value), keys_list)
+                    attribute = self.__factory.create_attribute_discrete(name, int(value), keys_list)
 
                 elif tag_name == "float":
-                    attribute = XesXmlParser().factory.create_attribute_continuous(name, float(value), keys_list)
+                    attribute = self.__factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
                     var16 = True if value.lower() == "true" else False
-                    attribute = XesXmlParser().factory.create_attribute_boolean(name, var16, keys_list)
+                    attribute = self.__factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-                    attribute = XesXmlParser().factory.create_attribute_id(name, XID.parse(value), keys_list)
+                    attribute = self.__factory.create_attribute_id(name, XID.parse(value), keys_list)
 
                 elif tag_name == "list":
-                    attribute = XesXmlParser().factory.create_attribute_list(name, keys_list)
+                    attribute = self.__factory.create_attribute_list(name, keys_list)
 
                 elif tag_name == "container":
-                    attribute = XesXmlParser().factory.create_attribute_container(name, keys_list)
+                    attribute = self.__factory.create_attribute_container(name, keys_list)
 
                 if attribute is not None:
                     self.__attribute_stack.append(attribute)
-- 
2.43.0


From 5480577a2ff8348827bf518582fc54588c0279f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:29 +0000
Subject: [PATCH 12/46] fix: read timestamps with any number of fractional
 digits

More than six digits made the timestamp unreadable, and an absurd zone offset
raised OverflowError instead of being reported as not valid.
---
 src/opyenxes/utils/XsDateTimeConversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 8011840..5110ff8 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -1,3 +1,4 @@
+import re
 from datetime import datetime, timedelta, timezone
 
 
@@ -34,6 +35,8 @@ def parse_date_time(date_time):
             hours = 0
             minute = 0
 
+        # xs:dateTime allows more digits than datetime can hold
+        value = re.sub(r"(\.[0-9]{6})[0-9]+$", r"\1", value)
         if '.' in value:
             time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
         else:
@@ -42,6 +45,6 @@ def parse_date_time(date_time):
         time = time.replace(tzinfo=timezone(timedelta(minutes=int(minute), hours=int(hours))))
         return time
 
-    except ValueError:
+    except (ValueError, OverflowError):
         print("\"" + date_time + "\" is not a valid representation of a XES timestamp.")
         return None
-- 
2.43.0


From a02fc11ffec8356e652bf4b0eeab268136b657fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:30 +0000
Subject: [PATCH 13/46] fix: ignore the case of file suffixes, as documented

---
 src/opyenxes/data_in/XMxmlParser.py  | 2 +-
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 4170524..63eee3a 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -76,7 +76,7 @@ class XMxmlParser:
         """
         i = len(name) - len(suffix)
         if i > 0:
-            return suffix in name[i:]
+            return suffix.lower() in name[i:].lower()
         return False
 
     class MxmlHandler(ContentHandler):
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 30ab43c..747dc07 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -70,7 +70,7 @@ class XesXmlParser:
         i = len(name) - len(suffix)
 
         if i > 0:
-            return suffix in name[i:]
+            return suffix.lower() in name[i:].lower()
         return False
 
     class XesXmlHandler(ContentHandler):
-- 
2.43.0


From 06b7a1cf5fdd77e4fb200d728f87c4246caef4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:31 +0000
Subject: [PATCH 14/46] fix: accept the .xez suffix which the compressed XES
 serializer declares

---
 src/opyenxes/data_in/XesXmlGZIPParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlGZIPParser.py b/src/opyenxes/data_in/XesXmlGZIPParser.py
index 4a93e55..95d1f6e 100644
--- a/src/opyenxes/data_in/XesXmlGZIPParser.py
+++ b/src/opyenxes/data_in/XesXmlGZIPParser.py
@@ -20,7 +20,7 @@ class XesXmlGZIPParser(XesXmlParser):
         :return: Whether this parser can handle the given file.
         :rtype: bool
         """
-        return super().ends_with_ignore_case(file, ".xes.gz")
+        return super().ends_with_ignore_case(file, ".xes.gz") or super().ends_with_ignore_case(file, ".xez")
 
     def parse(self, file):
         """Parses a log from the given input stream, which is supposed to
-- 
2.43.0


From ee0a8bea6daa696909e6ea8d3fc8cd39997ccd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:25 +0000
Subject: [PATCH 15/46] fix: write the data attributes of elements to MXML

Only model references were written, which belong in the modelReference
attribute instead, and under a tag that the MXML format does not know.
---
 src/opyenxes/data_out/XMxmlSerializer.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 7e1a439..81b4dbb 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -152,8 +152,8 @@ class XMxmlSerializer:
             node = tag
 
         for attribute in attributes:
-            if attribute.get_key() == "semantic:modelReference":
-                attribute_tag = Et.SubElement(node, "attribute")
+            if attribute.get_key() != "semantic:modelReference":
+                attribute_tag = Et.SubElement(node, "Attribute")
                 attribute_tag.set("name", key_prefix + attribute.get_key())
                 self.add_model_reference(attribute, attribute_tag)
 
@@ -165,12 +165,9 @@ class XMxmlSerializer:
                 sub_attributes = attribute.get_attributes().values()
 
                 if len(sub_attributes) > 0:
-                    sub_key_prefix = attribute.get_key()
+                    sub_key_prefix = key_prefix + attribute.get_key() + ":"
 
-                    if len(sub_key_prefix) > 0:
-                        sub_key_prefix = key_prefix + ":" + sub_key_prefix
-
-                    self.add_attribute(node, sub_key_prefix, sub_attributes)
+                    self.add_attribute(node, sub_attributes, sub_key_prefix)
 
     @staticmethod
     def add_model_reference(element, target):
-- 
2.43.0


From 7100f07e9dafc5796038f44cbc10f43ce929d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:25 +0000
Subject: [PATCH 16/46] fix: write originator, timestamp and unknown event
 types as MXML defines them

Their names differed in case from those of the MXML format (and of our own
parser), and the timestamp was not an xs:dateTime, so all three were lost.
---
 src/opyenxes/data_out/XMxmlSerializer.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 81b4dbb..9a03db6 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -93,7 +93,7 @@ class XMxmlSerializer:
                     if originator_attr in self.__known_types:
                         type_.text = originator_attr
                     else:
-                        type_.set("unknownType", type_attr.get_value())
+                        type_.set("unknowntype", type_attr.get_value())
                         type_.text = "unknown"
 
                 else:
@@ -107,16 +107,15 @@ class XMxmlSerializer:
                     originator_attr_1 = event.get_attributes().get("org:group")
 
                 if originator_attr_1 is not None:
-                    timestamp_attr = Et.SubElement(ate, "originator")
+                    timestamp_attr = Et.SubElement(ate, "Originator")
                     self.add_model_reference(originator_attr_1, timestamp_attr)
                     timestamp_attr.text = (originator_attr_1.get_value())
 
                 timestamp_attr_1 = event.get_attributes().get("time:timestamp")
                 if timestamp_attr_1:
-                    timestamp = Et.SubElement(ate, "timestamp")
+                    timestamp = Et.SubElement(ate, "Timestamp")
                     self.add_model_reference(timestamp_attr_1, timestamp)
-                    date = timestamp_attr_1.get_value()
-                    timestamp.text = str(date)
+                    timestamp.text = str(timestamp_attr_1)
 
         text = minidom.parseString(Et.tostring(root, "utf-8"))
         c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
-- 
2.43.0


From e7e54a20cd10d6394d9b0639d5c1ea7cc0efd19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:26 +0000
Subject: [PATCH 17/46] fix: put MXML data on the process, instance or source
 it belongs to

Data of a process or instance which has no children yet went to the element
around it, as empty traces and logs count as false.
---
 src/opyenxes/data_in/XMxmlParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 63eee3a..4b731db 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -207,7 +207,7 @@ class XMxmlParser:
                 self.__logs.append(self.__currentProcess)
                 self.__currentProcess = None
 
-            elif tag_name == "Process":
+            elif tag_name == "Source":
                 self.__sourceOpen = False
 
             elif tag_name == "ProcessInstance":
@@ -238,9 +238,9 @@ class XMxmlParser:
                         self.__genericAttribute.set_value("".join(self.__buffer).strip())
                         if self.__entry:
                             self.__entry.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentInstance:
+                        elif self.__currentInstance is not None:
                             self.__currentInstance.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentProcess:
+                        elif self.__currentProcess is not None:
                             self.__currentProcess.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
                         elif self.__sourceOpen:
                             self.__sourceAttribute.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-- 
2.43.0


From b0cb558dcebdc958072947854981824550da3fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:52 +0000
Subject: [PATCH 18/46] fix: return None for events without timestamp, as
 documented

---
 src/opyenxes/extension/std/XTimeExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 302a635..9df6e9e 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -41,7 +41,7 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
         attribute = event.get_attributes().get("time:timestamp")
         if attribute:
             return attribute.get_value()
-        return -1
+        return None
 
     def assign_timestamp(self, event, date):
         """Assigns to a given event its timestamp.
-- 
2.43.0


From f419227d81a75c67de434f6a970eadd1e0d0a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:53 +0000
Subject: [PATCH 19/46] fix: assign timestamps to events without losing time
 zone and milliseconds

---
 src/opyenxes/extension/std/XTimeExtension.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 9df6e9e..7b8961a 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -3,7 +3,6 @@ from urllib.parse import urlparse
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.utils.SingletonClassGenerator import XTimeExtensionMetaclass
-import time
 from datetime import datetime
 
 
@@ -52,11 +51,9 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
             milliseconds in UNIX time..
         :type date: datetime or int
         """
+        attr = self.ATTR_TIMESTAMP.clone()
         if isinstance(date, datetime):
-            aux = time.mktime(date.timetuple()) * 1000
+            attr.set_value(date)
         else:
-            aux = date
-
-        attr = self.ATTR_TIMESTAMP.clone()
-        attr.set_value_millis(aux)
+            attr.set_value_millis(date)
         event.get_attributes()["time:timestamp"] = attr
-- 
2.43.0


From 9420d1def04b8afe33487fa06f822dc06b6b1ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:54 +0000
Subject: [PATCH 20/46] fix: assign the activity instance as concept:instance,
 not concept:name

---
 src/opyenxes/extension/std/XConceptExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XConceptExtension.py b/src/opyenxes/extension/std/XConceptExtension.py
index 2213854..23508e7 100644
--- a/src/opyenxes/extension/std/XConceptExtension.py
+++ b/src/opyenxes/extension/std/XConceptExtension.py
@@ -89,4 +89,4 @@ class XConceptExtension(XExtension, metaclass=XConceptExtensionMetaclass):
         if instance is not None and len(instance.strip()) > 0:
             attr = self.ATTR_INSTANCE.clone()
             attr.set_value(instance)
-            event.get_attributes()["concept:name"] = attr
+            event.get_attributes()["concept:instance"] = attr
-- 
2.43.0


From f8f30296d9f02e57294f55ba7b3af6eba7c9fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:55 +0000
Subject: [PATCH 21/46] fix: assign cost currency and cost types where they are
 looked up

The currency overwrote concept:name, the type was set to the builtin type, and
assign_types read its keys as lists of single letters.
---
 src/opyenxes/extension/std/XCostExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index c20b93f..e911da3 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -180,7 +180,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         if currency is not None and len(currency.strip()) > 0:
             attr = self.ATTR_CURRENCY.clone()
             attr.set_value(currency)
-            element.get_attributes()["concept:name"] = attr
+            element.get_attributes()["cost:currency"] = attr
 
     @staticmethod
     def extract_amount(attribute):
@@ -477,7 +477,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         """
         if type_ is not None and len(type_.strip()) > 0:
             attr = self.ATTR_TYPE.clone()
-            attr.set_value(type)
+            attr.set_value(type_)
             attribute.get_attributes()["cost:type"] = attr
 
     @staticmethod
@@ -491,7 +491,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         :param types: Dictionary with keys to cost types which are to be assigned.
         :type types: dict(list[str]: str)
         """
-        XCostType().assign_nested_values(element, types)
+        XCostType().assign_values(element, types)
 
     @staticmethod
     def assign_nested_types(element, types):
-- 
2.43.0


From a2b2f907518af326e687ec0a64771796f07a8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:56 +0000
Subject: [PATCH 22/46] fix: support nested values, with tuples as keys of the
 dictionaries

Lists cannot be dictionary keys, so every extraction and assignment failed;
and the key list of a nested value repeated the key of its parent.
---
 .../std/XAbstractNestedAttributeSupport.py       | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index 49368ab..6907e5c 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -91,13 +91,13 @@ class XAbstractNestedAttributeSupport:
 
         should result into the following:::
 
-            {["key.1"]: val.1, ["key.1", "key.1.1"]: val.1.1, ["key.1", "key.1.2"]: val.1.2, ["key.2"]: val.2, ["key.3"]: val.3}
+            {("key.1",): val.1, ("key.1", "key.1.1"): val.1.1, ("key.1", "key.1.2"): val.1.2, ("key.2",): val.2, ("key.3",): val.3}
 
 
         :param element: Element to retrieve all values for.
         :type element: `XAttributable`
         :return: Dictionary with all descending keys to values.
-        :rtype: dict(list[str]: Any)
+        :rtype: dict(tuple[str]: Any)
         """
         nested_values = dict()
         for attr in element.get_attributes().values():
@@ -111,12 +111,12 @@ class XAbstractNestedAttributeSupport:
 
         """
         value = self.extract_value(element)
-        if value:
-            nested_values[keys] = value
+        if value is not None:
+            nested_values[tuple(keys)] = value
 
         for attr in element.get_attributes().values():
             new_keys = list(keys)
-            new_keys.append(element.get_key())
+            new_keys.append(attr.get_key())
             self.__extract_nested_values_private__(attr, nested_values, new_keys)
 
     def assign_values(self, element, values):
@@ -149,7 +149,7 @@ class XAbstractNestedAttributeSupport:
         for key in values.keys():
             keys = list()
             keys.append(key)
-            nested_values[keys] = values[key]
+            nested_values[tuple(keys)] = values[key]
 
         self.assign_nested_values(element, nested_values)
 
@@ -160,7 +160,7 @@ class XAbstractNestedAttributeSupport:
         method creates attributes when it does not find an attribute with the
         proper key. For example, the call:::
 
-            assignNestedValues(event, {["key.1"]: val.1, ["key.1", "key.1.1"]: val.1.1, ["key.1", "key.1.2"]: val.1.2, ["key.2"]: val.2, ["key.3"]: val.3})
+            assignNestedValues(event, {("key.1",): val.1, ("key.1", "key.1.1"): val.1.1, ("key.1", "key.1.2"): val.1.2, ("key.2",): val.2, ("key.3",): val.3})
 
         should result into the following XES fragment:::
 
@@ -186,7 +186,7 @@ class XAbstractNestedAttributeSupport:
         :type element: `XAttributable`
         :param amounts: Dictionary with key lists to values which are to be
          assigned.
-        :type amounts: dict(list[str]: Any)
+        :type amounts: dict(tuple[str]: Any)
         """
 
         for keys in amounts.keys():
-- 
2.43.0


From daafe53439e5547fab41922c359077473ae79de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:12 +0000
Subject: [PATCH 23/46] fix: make the micro extension accessors work as
 documented

Assigning a parent id failed, extracting an absent one failed, and an absent
length was not reported as -1.
---
 src/opyenxes/extension/std/XMicroExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XMicroExtension.py b/src/opyenxes/extension/std/XMicroExtension.py
index b801389..f0fa250 100644
--- a/src/opyenxes/extension/std/XMicroExtension.py
+++ b/src/opyenxes/extension/std/XMicroExtension.py
@@ -77,7 +77,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         :return: The requested event parent Id, null if not set.
         :rtype: XID
         """
-        attribute = event.get_attributes()["micro:parentId"]
+        attribute = event.get_attributes().get("micro:parentId")
         if attribute:
             return attribute.get_value()
         return None
@@ -93,7 +93,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         """
         if parent_id is not None:
             attr = self.ATTR_PID.clone()
-            attr.setValue(parent_id)
+            attr.set_value(parent_id)
             event.get_attributes()["micro:parentId"] = attr
         else:
             if "micro:parentId" in event.get_attributes():
@@ -124,7 +124,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         attribute = event.get_attributes().get("micro:length")
         if attribute:
             return attribute.get_value()
-        return None
+        return -1
 
     def assign_length(self, event, length):
         """Assigns any event its state number of children, as defined by this
-- 
2.43.0


From a3081e97c0a3a00e1f4ac10ef67cfe3a05cfed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 24/46] fix: extract the model references which were assigned

The references were split at the two characters \\s instead of at whitespace,
and their case was lost.
---
 src/opyenxes/extension/std/XSemanticExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XSemanticExtension.py b/src/opyenxes/extension/std/XSemanticExtension.py
index f652df3..04fc533 100644
--- a/src/opyenxes/extension/std/XSemanticExtension.py
+++ b/src/opyenxes/extension/std/XSemanticExtension.py
@@ -44,11 +44,11 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
         model_references = list()
         model_reference_attribute = target.get_attributes().get("semantic:modelReference")
         if model_reference_attribute:
-            ref_string = model_reference_attribute.get_value().lower()
-            aux = ref_string.split("\\s")
+            ref_string = model_reference_attribute.get_value()
+            aux = ref_string.split()
             for i in range(len(aux)):
                 reference = aux[i]
-                model_references.append(reference.lower())
+                model_references.append(reference)
 
         return model_references
 
-- 
2.43.0


From 290cf3b9dd94197ab9b30a6e8e639d9ccb3e23ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:14 +0000
Subject: [PATCH 25/46] fix: keep the case of resource, role and group set on a
 wrapped event

---
 src/opyenxes/extension/std/XExtendedEvent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XExtendedEvent.py b/src/opyenxes/extension/std/XExtendedEvent.py
index 7217235..607adb1 100644
--- a/src/opyenxes/extension/std/XExtendedEvent.py
+++ b/src/opyenxes/extension/std/XExtendedEvent.py
@@ -101,7 +101,7 @@ class XExtendedEvent:
         :param resource: Resource string.
         :type resource: str
         """
-        XOrganizationalExtension().assign_resource(self.__original, resource.lower())
+        XOrganizationalExtension().assign_resource(self.__original, resource)
 
     def get_role(self):
         """Returns the role of the event, as defined by the Organizational
@@ -119,7 +119,7 @@ class XExtendedEvent:
         :param role: Role string.
         :type role: str
         """
-        XOrganizationalExtension().assign_role(self.__original, role.lower())
+        XOrganizationalExtension().assign_role(self.__original, role)
 
     def get_group(self):
         """Returns the group of the event, as defined by the Organizational
@@ -137,7 +137,7 @@ class XExtendedEvent:
         :param group: Group string.
         :type group: str
         """
-        XOrganizationalExtension().assign_group(self.__original, group.lower())
+        XOrganizationalExtension().assign_group(self.__original, group)
 
     def get_transition(self):
         """Returns the lifecycle transition of the event, as defined by the
-- 
2.43.0


From 51514d694b1f7f59c3674bac509a149fa9c43725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:15 +0000
Subject: [PATCH 26/46] fix: derive prototypes of timestamps

A misspelled method name made every log info over a log with timestamps fail.
---
 src/opyenxes/utils/XAttributeUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XAttributeUtils.py b/src/opyenxes/utils/XAttributeUtils.py
index 735630a..6eb42e1 100644
--- a/src/opyenxes/utils/XAttributeUtils.py
+++ b/src/opyenxes/utils/XAttributeUtils.py
@@ -107,7 +107,7 @@ class XAttributeUtils:
             elif isinstance(prototype, XAttributeDiscrete):
                 prototype.set_value(0)
             elif isinstance(prototype, XAttributeTimestamp):
-                prototype.set_value_millies(0)
+                prototype.set_value_millis(0)
             elif isinstance(prototype, XAttributeID):
                 prototype.set_value(XIDFactory().create_id())
             else:
-- 
2.43.0


From 1360389fc98d26b346fc9770bbced758b5f46e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:37 +0000
Subject: [PATCH 27/46] fix: file registered attributes by type and extension
 in XAttributeInfo

The prototypes were never added to the sets which these queries read.
---
 src/opyenxes/info/XAttributeInfo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/info/XAttributeInfo.py b/src/opyenxes/info/XAttributeInfo.py
index 12d8c6c..e73b50e 100644
--- a/src/opyenxes/info/XAttributeInfo.py
+++ b/src/opyenxes/info/XAttributeInfo.py
@@ -131,7 +131,7 @@ class XAttributeInfo:
         :return: A tuple of attribute prototypes registered for no extension.
         :rtype: tuple
         """
-        return self.__no_extension_set
+        return tuple(self.__no_extension_set)
 
     def get_keys_without_extension(self):
         """Returns keys of all registered attributes defined by no extension.
@@ -155,6 +155,11 @@ class XAttributeInfo:
             if type_set is None:
                 type_set = set()
             self.__type_map[XAttributeUtils.get_type(prototype)] = type_set
+            type_set.add(prototype)
+            if attribute.get_extension() is None:
+                self.__no_extension_set.add(prototype)
+            else:
+                self.__extension_map.setdefault(attribute.get_extension(), set()).add(prototype)
         else:
             self.__frequencies[attribute.get_key()] += 1
 
-- 
2.43.0


From 676abceb0c173ad844eecf29ad9a4dd779c63e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 28/46] fix: keep the place of missing attributes in class
 identities

With three or more keys a missing attribute was skipped, so that events with
the same value under different keys fell into the same class.
---
 src/opyenxes/classification/XEventAttributeClassifier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/classification/XEventAttributeClassifier.py b/src/opyenxes/classification/XEventAttributeClassifier.py
index 03fe255..1da6a89 100644
--- a/src/opyenxes/classification/XEventAttributeClassifier.py
+++ b/src/opyenxes/classification/XEventAttributeClassifier.py
@@ -46,8 +46,7 @@ class XEventAttributeClassifier:
             identity = []
             for key in self.__keys:
                 attribute = event.get_attributes().get(key)
-                if attribute:
-                    identity.append(str(attribute))
+                identity.append(str(attribute) if attribute else "")
 
             return "&&".join(identity)
 
-- 
2.43.0


From 1bd4b01a2e442fe82be5fd469f841d484b164711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:39 +0000
Subject: [PATCH 29/46] fix: map attributes safely when the named mapping does
 not exist

map_safely returned None instead of falling back to the standard mapping.
---
 src/opyenxes/info/XGlobalAttributeNameMap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/info/XGlobalAttributeNameMap.py b/src/opyenxes/info/XGlobalAttributeNameMap.py
index bacd9b1..09d2c54 100644
--- a/src/opyenxes/info/XGlobalAttributeNameMap.py
+++ b/src/opyenxes/info/XGlobalAttributeNameMap.py
@@ -90,7 +90,10 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
         if isinstance(attribute, XAttribute) and isinstance(mapping, XAttributeNameMap):
             return self.map_safely(attribute.get_key(), mapping)
 
-        elif isinstance(attribute, str) and isinstance(mapping, XAttributeNameMap):
+        elif isinstance(attribute, XAttribute) and mapping is None:
+            return self.map_safely(attribute.get_key(), mapping)
+
+        elif isinstance(attribute, str) and (mapping is None or isinstance(mapping, XAttributeNameMap)):
             alias = None
             if mapping is not None:
                 alias = mapping.map(attribute)
-- 
2.43.0


From a197e1d739f2409e4a4b0f01635a1e582c29e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:19 +0000
Subject: [PATCH 30/46] fix: let a newly registered extension replace the one
 with the same URI

Only the lookup by URI returned the new extension, those by name, prefix and
index went on returning the old one.
---
 src/opyenxes/extension/XExtensionManager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 9dbe634..b23aaa2 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -43,6 +43,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         self.__extension_map[extension.get_uri()] = extension
         if extension not in self.__extension_list:
             self.__extension_list.append(extension)
+        else:
+            self.__extension_list[self.get_index(extension)] = extension
 
     def get_by_uri(self, uri):
         """Retrieves an extension instance by its unique URI. If the extension
-- 
2.43.0


From bd63439539c2ecc0da339ddc983ebe3590e02c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:20 +0000
Subject: [PATCH 31/46] fix: define extension attributes on the level where
 they are declared

All attributes of a parsed extension were defined as log attributes.
---
 src/opyenxes/extension/XExtensionParser.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index b5530dc..24b617d 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -76,37 +76,31 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 self.__xAttributes = self.__extension.get_meta_attributes()
 
             elif tag_name.lower() == "string":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_literal(mapping, "DEFAULT", self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "date":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_timestamp(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "int":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_discrete(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "float":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_continuous(mapping, 0.0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "boolean":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_boolean(mapping, False, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "id":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_id(mapping, XIDFactory.create_id(), self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
-- 
2.43.0


From 57774cfd1f26a0107fd751dbfe28bdbb0fcf9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:21 +0000
Subject: [PATCH 32/46] fix: parse extension files without network and in their
 own encoding

Parsing a local file failed when its URI could not be downloaded, although the
download was not used, and when its encoding was not that of the locale.
---
 src/opyenxes/extension/XExtensionParser.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index 24b617d..6c9dc48 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -5,7 +5,7 @@ from xml.sax import parse as xml_parse, parseString
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.id.XIDFactory import XIDFactory
-from urllib import request, parse, error
+from urllib import request, parse
 import os
 
 
@@ -59,11 +59,6 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 mapping = attributes.getValue("name")
                 name = attributes.getValue("prefix")
                 x_uri = parse.urlparse(attributes.getValue("uri"))
-                try:
-                    request.urlopen(attributes.getValue("uri"))
-                except error.URLError:
-                    return
-
                 self.__extension = XExtension(mapping, name, x_uri)
 
             elif tag_name.lower() == "log":
@@ -134,7 +129,7 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
         """
         handler = XExtensionParser.XExtensionHandler()
         if os.path.isfile(file):
-            with open(file) as data:
+            with open(file, "rb") as data:
                 xml_parse(data, handler)
 
         elif not os.path.isdir(file):
-- 
2.43.0


From c475f7ffd066c7045b8393c0b4ef122eecc1e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:22 +0000
Subject: [PATCH 33/46] fix: include attributes defined later in
 XExtension.get_defined_attributes

The first result was kept forever.
---
 src/opyenxes/extension/XExtension.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtension.py b/src/opyenxes/extension/XExtension.py
index 50fdeee..15f8baa 100644
--- a/src/opyenxes/extension/XExtension.py
+++ b/src/opyenxes/extension/XExtension.py
@@ -59,12 +59,11 @@ class XExtension:
         :return: The collection of attributes defined by this extension
         :rtype: set
         """
-        if self.__all_attributes is None:
-            self.__all_attributes = set()
-            self.__all_attributes.update(self.__log_attributes)
-            self.__all_attributes.update(self.__trace_attributes)
-            self.__all_attributes.update(self.__event_attributes)
-            self.__all_attributes.update(self.__meta_attributes)
+        self.__all_attributes = set()
+        self.__all_attributes.update(self.__log_attributes)
+        self.__all_attributes.update(self.__trace_attributes)
+        self.__all_attributes.update(self.__event_attributes)
+        self.__all_attributes.update(self.__meta_attributes)
 
         return self.__all_attributes
 
-- 
2.43.0


From c9224ca61e12da914c2c1e87140b0b5f2461e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:23 +0000
Subject: [PATCH 34/46] fix: measure timers from their creation to their stop
 in milliseconds

stop() stored seconds, so that the duration was negative, and timers started
when the module was imported.
---
 src/opyenxes/utils/XTimer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/utils/XTimer.py b/src/opyenxes/utils/XTimer.py
index bfab16c..8fc04fa 100644
--- a/src/opyenxes/utils/XTimer.py
+++ b/src/opyenxes/utils/XTimer.py
@@ -12,9 +12,9 @@ class XTimer:
     HOUR_MILLIS = 3600000
     MINUTE_MILLIS = 60000
     SECOND_MILLIS = 1000
-    __start = time.time() * 1000
 
     def __init__(self):
+        self.__start = time.time() * 1000
         self.__stop = self.__start
 
     def start(self):
@@ -28,7 +28,7 @@ class XTimer:
         """Stops the timer (takes time).
 
         """
-        self.__stop = time.time()
+        self.__stop = time.time() * 1000
 
     def get_duration(self):
         """Retrieve the runtime of the timer.
-- 
2.43.0


From 2aa51a40b99ab04ee2f7fbe734e3506f0c016127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:24 +0000
Subject: [PATCH 35/46] fix: find the support folder on every platform, also
 when it exists already

It was looked up in USERPROFILE, which only Windows sets, and creating it a
second time failed.
---
 src/opyenxes/utils/XRuntimeUtils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/utils/XRuntimeUtils.py b/src/opyenxes/utils/XRuntimeUtils.py
index dfb5440..794e1d2 100644
--- a/src/opyenxes/utils/XRuntimeUtils.py
+++ b/src/opyenxes/utils/XRuntimeUtils.py
@@ -63,16 +63,16 @@ class XRuntimeUtils:
         :return: The path of the platform-dependent OpenXES support folder.
         :rtype: str
         """
-        home_dir = os.path.expanduser(os.getenv('USERPROFILE'))
+        home_dir = os.path.expanduser("~")
         dir_name = "OpenXES"
         if self.is_running_windows():
-            os.makedirs(home_dir + "\\" + dir_name)
+            os.makedirs(home_dir + "\\" + dir_name, exist_ok=True)
             return home_dir + "\\" + dir_name + "\\"
         elif self.is_running_mac_os_x():
-            os.makedirs(home_dir + "/Library/Application Support/" + dir_name)
+            os.makedirs(home_dir + "/Library/Application Support/" + dir_name, exist_ok=True)
             return home_dir + "/Library/Application Support/" + dir_name + "/"
         else:
-            os.makedirs(home_dir + "/." + dir_name)
+            os.makedirs(home_dir + "/." + dir_name, exist_ok=True)
             return home_dir + "/." + dir_name + "/"
 
     def get_extension_cache_folder(self):
@@ -82,5 +82,5 @@ class XRuntimeUtils:
         :rtype: str
         """
         ext_folder = self.get_support_folder() + "ExtensionCache"
-        os.makedirs(ext_folder)
+        os.makedirs(ext_folder, exist_ok=True)
         return ext_folder
-- 
2.43.0


From b911ae89c4c44582c61f68546a1a6def06092eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:24 +0000
Subject: [PATCH 36/46] fix: make the extension cache usable

Caching an extension wrote bytes to a text file, and loading the cache looked
for its files in the current directory.
---
 src/opyenxes/extension/XExtensionManager.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index b23aaa2..b0c1d8d 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -140,7 +140,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         uri_str = uri.geturl()
         if uri_str[-1] == "/":
-            uri_str = uri_str[(0, len(uri_str) - 1)]
+            uri_str = uri_str[0:len(uri_str) - 1]
         filename = uri_str[uri_str.rindex(chr(47)):]
         if not filename.endswith(".xesext"):
             filename += ".xesext"
@@ -149,7 +149,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
 
         try:
             bis = request.urlopen(uri.geturl())
-            bos = open(cache_file, "w")
+            bos = open(cache_file, "wb")
 
             file = bis.read(1024)
             while file != b"":
@@ -170,7 +170,9 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         min_modified = (lambda: int(round(time.time() * 1000)))() - 2592000000
         ext_folder = XRuntimeUtils().get_extension_cache_folder()
-        ext_files = list(filter(os.path.isfile, os.listdir(ext_folder)))
+        ext_files = list(filter(
+            lambda name: os.path.isfile(ext_folder + os.path.sep + name),
+            os.listdir(ext_folder)))
         if len(ext_files) == 0:
             XLogging().log("Extension caching disabled (Could not access cache"
                            " directory)!",
-- 
2.43.0


From 502112d1a9736acab5a528429b0b35ee2bea12f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 37/46] fix: keep line breaks and tabs in the keys and values
 written to XES

---
 src/opyenxes/data_out/XesXmlSerializer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index 9e9f70f..6b2937d 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -1,4 +1,5 @@
 from opyenxes.log.XLogging import XLogging
+import re
 import time
 import xml.etree.ElementTree as Et
 from xml.dom import minidom
@@ -94,10 +95,16 @@ class XesXmlSerializer:
         text.insertBefore(c2, text.childNodes[0])
         text.insertBefore(c1, text.childNodes[0])
 
+        # minidom writes line breaks and tabs in values as they are, which any
+        # reader would replace with spaces
+        text = re.sub('"[^"]*"', lambda value: value.group().replace(
+            "\t", "&#9;").replace("\n", "&#10;").replace("\r", "&#13;"),
+                      text.toprettyxml("\t"))
+
         if in_bytes:
-            out.write(text.toprettyxml("\t").encode())
+            out.write(text.encode())
         else:
-            out.write(text.toprettyxml("\t"))
+            out.write(text)
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
-- 
2.43.0


From a50b718f27af611444f97466369f0cb16b206549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:59 +0000
Subject: [PATCH 38/46] fix: write infinite and undefined numbers as xs:double
 spells them

---
 src/opyenxes/model/XAttributeContinuous.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opyenxes/model/XAttributeContinuous.py b/src/opyenxes/model/XAttributeContinuous.py
index 20cde5f..d6c033a 100644
--- a/src/opyenxes/model/XAttributeContinuous.py
+++ b/src/opyenxes/model/XAttributeContinuous.py
@@ -1,3 +1,4 @@
+import math
 from opyenxes.model.XAttribute import XAttribute
 from opyenxes.utils.CompareUtils import compare_to_number
 
@@ -60,6 +61,9 @@ class XAttributeContinuous(XAttribute):
         return result
 
     def __str__(self):
+        # xs:double spells these values differently than Python
+        if math.isinf(self.__value) or math.isnan(self.__value):
+            return str(self.__value).replace("inf", "INF").replace("nan", "NaN")
         return str(self.__value)
 
     def __hash__(self):
-- 
2.43.0


From 154f5e7530ec1025b78b8de06c307905c4460379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:59 +0000
Subject: [PATCH 39/46] fix: make timestamps given in milliseconds mean the
 same instant in any local time zone

---
 src/opyenxes/model/XAttributeTimestamp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index c64fa19..eb246f5 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,5 +1,5 @@
 from opyenxes.model.XAttribute import XAttribute
-from datetime import datetime
+from datetime import datetime, timezone
 import platform
 
 
@@ -21,7 +21,7 @@ class XAttributeTimestamp(XAttribute):
         if isinstance(value, datetime):
             self.__value = value
         elif isinstance(value, int):
-            self.__value = datetime.fromtimestamp(self.__timestamp(value))
+            self.__value = datetime.fromtimestamp(self.__timestamp(value), timezone.utc)
 
     def get_value(self):
         """Retrieves the datetime value of this attribute
@@ -43,7 +43,7 @@ class XAttributeTimestamp(XAttribute):
         self.__value = value
 
     def set_value_millis(self, value):
-        self.__value = datetime.fromtimestamp(value / 1000.0)
+        self.__value = datetime.fromtimestamp(value / 1000.0, timezone.utc)
 
     def clone(self):
         """Creates and returns a copy of this object.
-- 
2.43.0


From 62311d83c9a68a550354b56a7dd60d064c6edfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:19 +0000
Subject: [PATCH 40/46] fix: do not invent an originator for MXML entries with
 an empty one

---
 src/opyenxes/data_in/XMxmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 4b731db..38f8d4d 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -271,8 +271,8 @@ class XMxmlParser:
                     originator = "".join(self.__buffer).strip()
                     if len(originator) > 0:
                         self.__originatorAttribute.set_value(originator)
+                        self.__entry.get_attributes()[self.__originatorAttribute.get_key()] = self.__originatorAttribute
 
-                    self.__entry.get_attributes()[self.__originatorAttribute.get_key()] = self.__originatorAttribute
                     self.__originatorAttribute = None
 
             self.__buffer.clear()
-- 
2.43.0


From b805b3422ede0f8465f475afce8c7900ae74a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 41/46] fix: give each log of a MXML document its own source
 attribute

---
 src/opyenxes/data_in/XMxmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 38f8d4d..19763d3 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -135,7 +135,7 @@ class XMxmlParser:
                     self.__currentProcess.get_extensions().add(XSemanticExtension())
                     self.__currentProcess.get_extensions().add(XTimeExtension())
                     if self.__sourceAttribute:
-                        self.__currentProcess.get_attributes()[self.__sourceAttribute.get_key()] = self.__sourceAttribute
+                        self.__currentProcess.get_attributes()[self.__sourceAttribute.get_key()] = self.__sourceAttribute.clone()
 
                     XConceptExtension().assign_name(self.__currentProcess, description_string)
                     XLifecycleExtension().assign_model(self.__currentProcess, "standard")
-- 
2.43.0


From 54cf7c7aefc49851d469ea527cce1d1af621d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:51 +0000
Subject: [PATCH 42/46] fix: read the XES boolean 1 as true

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 747dc07..022afb9 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -191,7 +191,7 @@ class XesXmlParser:
                     attribute = self.__factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
-                    var16 = True if value.lower() == "true" else False
+                    var16 = True if value.lower() in ["true", "1"] else False
                     attribute = self.__factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-- 
2.43.0


From 90fc8b9cf3b93ba4cc116ab6d42017747d7ed85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:56 +0000
Subject: [PATCH 43/46] fix: logs read from MXML have classifiers of their own

Renaming a classifier of one log renamed it for all logs read from MXML.
---
 src/opyenxes/data_in/XMxmlParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 19763d3..fc2c039 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from xml.sax.handler import ContentHandler
 from xml.sax import parse as xml_parse
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
@@ -200,7 +201,7 @@ class XMxmlParser:
                     XLogging().log("LogData: The log file you have loaded is not MXML compliant! (error compensated transparently)", XLogging.Importance.ERROR)
 
             elif tag_name == "Process":
-                self.__currentProcess.get_classifiers().extend(XMxmlParser.MXML_CLASSIFIERS)
+                self.__currentProcess.get_classifiers().extend(deepcopy(XMxmlParser.MXML_CLASSIFIERS))
                 self.__currentProcess.get_global_trace_attributes().append(XConceptExtension().ATTR_NAME.clone())
                 self.__currentProcess.get_global_event_attributes().append(XConceptExtension().ATTR_NAME.clone())
                 self.__currentProcess.get_global_event_attributes().append(XLifecycleExtension().ATTR_TRANSITION.clone())
-- 
2.43.0


From 1a3758f830a34e5af5dd02444bc67c67dd2118cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:40 +0000
Subject: [PATCH 44/46] fix: invalid dates with characters standard output
 cannot show do not stop reading

---
 src/opyenxes/utils/XsDateTimeConversion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 5110ff8..c6e59ee 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -46,5 +46,7 @@ def parse_date_time(date_time):
         return time
 
     except (ValueError, OverflowError):
-        print("\"" + date_time + "\" is not a valid representation of a XES timestamp.")
+        # standard output may be unable to encode the text
+        text = date_time.encode("ascii", "backslashreplace").decode("ascii")
+        print("\"" + text + "\" is not a valid representation of a XES timestamp.")
         return None
-- 
2.43.0


From 86e0bf529ec4472204edad86e5437d42eb8ac42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:40 +0000
Subject: [PATCH 45/46] fix: error messages standard output cannot show do not
 keep parsers from being tried

---
 src/opyenxes/data_in/XUniversalParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XUniversalParser.py b/src/opyenxes/data_in/XUniversalParser.py
index 35074d0..3914919 100644
--- a/src/opyenxes/data_in/XUniversalParser.py
+++ b/src/opyenxes/data_in/XUniversalParser.py
@@ -38,6 +38,7 @@ class XUniversalParser:
                     result = parse.parse(file)
                     return result
                 except Exception as error:
-                    print(error)
+                    # standard output may be unable to encode the message
+                    print(str(error).encode("ascii", "backslashreplace").decode("ascii"))
 
         raise Exception("No suitable parser could be found!")
-- 
2.43.0


From ef72f92531ff04df1827b0dfe4048292f4fe9931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:40 +0000
Subject: [PATCH 46/46] fix: error messages standard output cannot show do not
 stop loading cached extensions

---
 src/opyenxes/extension/XExtensionManager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index b0c1d8d..660791d 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -202,4 +202,6 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
                                            "\' (already defined)",
                                            XLogging.Importance.DEBUG)
                     except Exception as e:
-                        print("Exception error: {}".format(e))
+                        # standard output may be unable to encode the message
+                        message = str(e).encode("ascii", "backslashreplace").decode("ascii")
+                        print("Exception error: {}".format(message))
-- 
2.43.0

