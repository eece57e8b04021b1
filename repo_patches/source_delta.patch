From 790dc76523c1633c092a1860f80f863c684aea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 01/45] fix: reject fractional values in integer multipleOf,
 and do not cast 2^63 to int64_t

---
 include/valijson/validation_visitor.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7b8e7b3..c1849e2 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -954,7 +954,7 @@ public:
             // Casting a double outside the range of int64_t is undefined
             // behaviour, so check those values in floating point instead.
             if (d < static_cast<double>(std::numeric_limits<int64_t>::min()) ||
-                    d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
+                    d >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
                 if (fabs(remainder(d, static_cast<double>(divisor))) >
                         std::numeric_limits<double>::epsilon()) {
                     if (m_results) {
@@ -964,6 +964,13 @@ public:
                 }
                 return true;
             }
+            // A value with a fractional part is not a multiple of any integer
+            if (std::trunc(d) != d) {
+                if (m_results) {
+                    m_results->pushError(m_path, "Value should be a multiple of " + std::to_string(divisor));
+                }
+                return false;
+            }
             i = static_cast<int64_t>(d);
         } else {
             return true;
-- 
2.43.0


From 6c32b72cde70bbfabf9d35fb22cceca820001abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 02/45] fix: ignore non-number values in multipleOf when strict
 types are enabled

---
 include/valijson/validation_visitor.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index c1849e2..6259fda 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -862,6 +862,11 @@ public:
      */
     bool visit(const MultipleOfDoubleConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const double divisor = constraint.getDivisor();
 
         double d = 0.;
@@ -933,6 +938,11 @@ public:
      */
     bool visit(const MultipleOfIntConstraint &constraint) override
     {
+        if (m_strictTypes && !m_target.isNumber()) {
+            // Ignore values that are not numbers
+            return true;
+        }
+
         const int64_t divisor = constraint.getDivisor();
 
         int64_t i = 0;
-- 
2.43.0


From a0ef47fad1f9c1e6a9729af17002ca3fee5ced11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 03/45] fix: do not treat 2^63 as an int64_t in
 doubleIsIntegral

---
 include/valijson/internal/basic_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index d5368af..b3a7017 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -98,7 +98,7 @@ protected:
         if (d < static_cast<double>(std::numeric_limits<int64_t>::min())) {
             return false;
         }
-        if (d > static_cast<double>(std::numeric_limits<int64_t>::max())) {
+        if (d >= static_cast<double>(std::numeric_limits<int64_t>::max())) {
             return false;
         }
         double intPart = 0.0;
-- 
2.43.0


From a8054ad1609d35916213d00a15baaf13887877e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 04/45] fix: keep embedded NUL characters in property names and
 patterns held by constraints

---
 .../constraints/concrete_constraints.hpp      | 25 +++++++++++--------
 include/valijson/validation_visitor.hpp       | 14 +++++------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ba13343..ebea406 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -263,14 +263,14 @@ public:
             const StringType &propertyName,
             const StringType &dependencyName)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
                     key, PropertySet(std::less<String>(), m_allocator))).first;
         }
 
-        itr->second.insert(String(dependencyName.c_str(), m_allocator));
+        itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
 
         return *this;
     }
@@ -280,7 +280,7 @@ public:
             const StringType &propertyName,
             const ContainerType &dependencyNames)
     {
-        const String key(propertyName.c_str(), m_allocator);
+        const String key(propertyName.data(), propertyName.size(), m_allocator);
         auto itr = m_propertyDependencies.find(key);
         if (itr == m_propertyDependencies.end()) {
             itr = m_propertyDependencies.insert(PropertyDependencies::value_type(
@@ -289,7 +289,7 @@ public:
 
         typedef typename ContainerType::value_type ValueType;
         for (const ValueType &dependencyName : dependencyNames) {
-            itr->second.insert(String(dependencyName.c_str(), m_allocator));
+            itr->second.insert(String(dependencyName.data(), dependencyName.size(), m_allocator));
         }
 
         return *this;
@@ -299,7 +299,7 @@ public:
     DependenciesConstraint & addSchemaDependency(const StringType &propertyName, const Subschema *schemaDependency)
     {
         if (m_schemaDependencies.insert(SchemaDependencies::value_type(
-                String(propertyName.c_str(), m_allocator),
+                String(propertyName.data(), propertyName.size(), m_allocator),
                 schemaDependency)).second) {
             return *this;
         }
@@ -913,7 +913,7 @@ public:
     template<typename AllocatorType>
     bool getPattern(std::basic_string<char, std::char_traits<char>, AllocatorType> &result) const
     {
-        result.assign(m_pattern.c_str());
+        result.assign(m_pattern.data(), m_pattern.size());
         return true;
     }
 
@@ -921,13 +921,13 @@ public:
     std::basic_string<char, std::char_traits<char>, AllocatorType> getPattern(
             const AllocatorType &alloc = AllocatorType()) const
     {
-        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.c_str(), alloc);
+        return std::basic_string<char, std::char_traits<char>, AllocatorType>(m_pattern.data(), m_pattern.size(), alloc);
     }
 
     template<typename AllocatorType>
     void setPattern(const std::basic_string<char, std::char_traits<char>, AllocatorType> &pattern)
     {
-        m_pattern.assign(pattern.c_str());
+        m_pattern.assign(pattern.data(), pattern.size());
     }
 
 private:
@@ -997,7 +997,8 @@ public:
             std::char_traits<char>, AllocatorType> &patternProperty,
             const Subschema *subschema)
     {
-        return addPatternPropertySubschema(patternProperty.c_str(), subschema);
+        return m_patternProperties.insert(PropertySchemaMap::value_type(
+                String(patternProperty.data(), patternProperty.size(), m_allocator), subschema)).second;
     }
 
     bool addPropertySubschema(const char *propertyName,
@@ -1012,7 +1013,8 @@ public:
             std::char_traits<char>, AllocatorType> &propertyName,
             const Subschema *subschema)
     {
-        return addPropertySubschema(propertyName.c_str(), subschema);
+        return m_properties.insert(PropertySchemaMap::value_type(
+                String(propertyName.data(), propertyName.size(), m_allocator), subschema)).second;
     }
 
     template<typename FunctorType>
@@ -1107,7 +1109,8 @@ public:
     template<typename AllocatorType>
     bool addRequiredProperty(const std::basic_string<char, std::char_traits<char>, AllocatorType> &propertyName)
     {
-        return addRequiredProperty(propertyName.c_str());
+        return m_requiredProperties.insert(String(propertyName.data(), propertyName.size(),
+                Allocator::rebind<char>::other(m_allocator))).second;
     }
 
     template<typename FunctorType>
diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 6259fda..88a2cdb 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1488,14 +1488,14 @@ private:
         template<typename StringType>
         bool operator()(const StringType &property) const
         {
-            if (m_object.find(property.c_str()) == m_object.end()) {
+            if (m_object.find(std::string(property.data(), property.size())) == m_object.end()) {
                 if (m_validated) {
                     *m_validated = false;
                 }
 
                 if (m_results) {
                     m_results->pushError(m_path, "Missing required property '" +
-                            std::string(property.c_str()) + "'.");
+                            std::string(property.data(), property.size()) + "'.");
                 }
 
                 return m_continueOnFailure;
@@ -1531,14 +1531,14 @@ private:
         template<typename StringType, typename ContainerType>
         bool operator()(const StringType &propertyName, const ContainerType &dependencyNames) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
 
             typedef typename ContainerType::value_type ValueType;
             for (const ValueType &dependencyName : dependencyNames) {
-                const std::string dependencyNameKey(dependencyName.c_str());
+                const std::string dependencyNameKey(dependencyName.data(), dependencyName.size());
                 if (m_object.find(dependencyNameKey) == m_object.end()) {
                     if (m_validated) {
                         *m_validated = false;
@@ -1746,7 +1746,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &patternProperty, const Subschema *subschema) const
         {
-            const std::string patternPropertyStr(patternProperty.c_str());
+            const std::string patternPropertyStr(patternProperty.data(), patternProperty.size());
 
             // It would be nice to store pre-allocated regex objects in the
             // PropertiesConstraint. does internal::regex currently support
@@ -1851,7 +1851,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *subschema) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             const typename AdapterType::Object::const_iterator itr = m_object.find(propertyNameKey);
             if (itr == m_object.end()) {
                 return m_continueIfUnmatched;
@@ -1920,7 +1920,7 @@ private:
         template<typename StringType>
         bool operator()(const StringType &propertyName, const Subschema *schemaDependency) const
         {
-            const std::string propertyNameKey(propertyName.c_str());
+            const std::string propertyNameKey(propertyName.data(), propertyName.size());
             if (m_object.find(propertyNameKey) == m_object.end()) {
                 return true;
             }
-- 
2.43.0


From 84a02f88d31cfe854bfc0ab8d938ae04f48261a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 05/45] fix: compare whole member names, including embedded
 NULs, in the RapidJSON adapter

---
 include/valijson/adapters/rapidjson_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 5623dab..712f937 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -863,7 +863,7 @@ inline typename GenericRapidJsonObject<ValueType>::iterator
         for (typename ValueType::ConstMemberIterator itr = m_value.MemberBegin(); itr != m_value.MemberEnd(); ++itr) {
             const size_t memberNameLength = itr->name.GetStringLength();
             if (memberNameLength == propertyNameLength &&
-                    strncmp(itr->name.GetString(), propertyName.c_str(), itr->name.GetStringLength()) == 0) {
+                    propertyName.compare(0, propertyNameLength, itr->name.GetString(), memberNameLength) == 0) {
                 return itr;
             }
         }
-- 
2.43.0


From 8f6cc53aded75eef1182003a415500d331040564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 06/45] fix: keep embedded NUL characters in Boost.JSON strings

---
 include/valijson/adapters/boost_json_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index 2fa5d25..b65cfcf 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -389,7 +389,7 @@ public:
     bool getString(std::string &result) const
     {
         if (m_value.is_string()) {
-            result = m_value.get_string().c_str();
+            result.assign(m_value.get_string().data(), m_value.get_string().size());
             return true;
         }
 
-- 
2.43.0


From a9eb3a712d685aa29a1ced33d9e421e84d2772d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 07/45] fix: compare integers exactly in deep equality

---
 include/valijson/internal/basic_adapter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index b3a7017..7426a2e 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -512,6 +512,9 @@ public:
             return other.isNull() || (!strict && other.maybeNull());
         } else if (isBool() || (!strict && maybeBool())) {
             return (other.isBool() || (!strict && other.maybeBool())) && other.asBool() == asBool();
+        } else if (isInteger() && other.isInteger()) {
+            // Not all integers can be represented exactly as a double
+            return other.getInteger() == getInteger();
         } else if (isNumber() && strict) {
             return other.isNumber() && other.getNumber() == getNumber();
         } else if (!strict && maybeDouble()) {
-- 
2.43.0


From a8622624346fcdbd06829a3ea00c4cde6d111214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 08/45] fix: reject %-encodings in JSON Pointers that are not
 two hexadecimal digits

---
 include/valijson/internal/json_pointer.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 98e2576..083ed3d 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -1,8 +1,9 @@
 #pragma once
 
 #include <algorithm>
-#include <cerrno>
+#include <cctype>
 #include <cstddef>
+#include <cstdlib>
 #include <cstring>
 #include <stdexcept>
 #include <string>
@@ -53,15 +54,14 @@ inline char decodePercentEncodedChar(const std::string &digits)
                 "expected two characters");
     }
 
-    errno = 0;
-    const char *begin = digits.c_str();
-    char *end = nullptr;
-    const unsigned long value = strtoul(begin, &end, 16);
-    if (end != begin && *end != '\0') {
+    if (!isxdigit(static_cast<unsigned char>(digits[0])) ||
+            !isxdigit(static_cast<unsigned char>(digits[1]))) {
         throwRuntimeError("Failed to decode %-encoded character '" +
                 digits + "'");
     }
 
+    const unsigned long value = strtoul(digits.c_str(), nullptr, 16);
+
     return char(value);
 }
 
-- 
2.43.0


From ff8fa452c10cfca6c82d0bef57b7ee8291132baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 09/45] fix: accept only decimal array indices in JSON Pointers

---
 include/valijson/internal/json_pointer.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index 083ed3d..ca71896 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -195,7 +195,16 @@ inline AdapterType resolveJsonPointer(
 #if VALIJSON_USE_EXCEPTIONS
         try {
 #endif
-            // Fragment must be non-negative integer
+            // Fragment must be a non-negative decimal integer, with no sign,
+            // no leading zeros and no trailing characters
+            if (referenceToken.empty() ||
+                    referenceToken.find_first_not_of("0123456789") != std::string::npos ||
+                    (referenceToken[0] == '0' && referenceToken.size() > 1)) {
+                throwRuntimeError("Expected reference token to contain a "
+                        "non-negative integer to identify an element in the "
+                        "current array; actual token: " + referenceToken);
+            }
+
             const uint64_t index = std::stoul(referenceToken);
             typedef typename AdapterType::Array Array;
             const Array arr = node.asArray();
-- 
2.43.0


From 959a332711ff4f46033b80c3e8a785279cb72adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 10/45] fix: decode %-encoding before JSON Pointer escapes, and
 reject invalid escapes

---
 include/valijson/internal/json_pointer.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/valijson/internal/json_pointer.hpp b/include/valijson/internal/json_pointer.hpp
index ca71896..cb56e9b 100644
--- a/include/valijson/internal/json_pointer.hpp
+++ b/include/valijson/internal/json_pointer.hpp
@@ -98,10 +98,6 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 {
     std::string token(begin, end);
 
-    // Replace JSON Pointer-specific escaped character sequences
-    replaceAllInPlace(token, "~1", "/");
-    replaceAllInPlace(token, "~0", "~");
-
     // Replace %-encoded character sequences with their actual characters
     for (size_t n = token.find('%'); n != std::string::npos;
             n = token.find('%', n + 1)) {
@@ -119,6 +115,18 @@ inline std::string extractReferenceToken(std::string::const_iterator begin,
 #endif
     }
 
+    // A '~' is only valid at the beginning of '~0' or '~1'
+    for (size_t n = token.find('~'); n != std::string::npos;
+            n = token.find('~', n + 1)) {
+        if (n + 1 == token.size() || (token[n + 1] != '0' && token[n + 1] != '1')) {
+            throwRuntimeError("Expected '~' to be followed by '0' or '1' in token: " + token);
+        }
+    }
+
+    // Replace JSON Pointer-specific escaped character sequences
+    replaceAllInPlace(token, "~1", "/");
+    replaceAllInPlace(token, "~0", "~");
+
     return token;
 }
 
-- 
2.43.0


From 438e469a4deb292cef1f512cdcf400f5699886cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 11/45] fix: parse the propertyNames subschema under its own
 path, not that of its parent

---
 include/valijson/schema_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 065730e..f4ff506 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1110,7 +1110,7 @@ private:
             if (m_version == kDraft7) {
                 rootSchema.addConstraintToSubschema(
                       makePropertyNamesConstraint(rootSchema, rootNode, itr->second, updatedScope,
-                              nodePath, fetchDoc, docCache, schemaRegistry),
+                              nodePath + "/propertyNames", fetchDoc, docCache, schemaRegistry),
                       &subschema);
             } else {
                 throwRuntimeError("Not supported");
-- 
2.43.0


From ef501467808088b5b232cc6ddbd457d0944d5428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 12/45] fix: escape property names and patterns in the paths
 that identify subschemas

---
 include/valijson/schema_parser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index f4ff506..8aeade3 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -283,6 +283,8 @@ private:
                 result += "~0";
             } else if (c == '/') {
                 result += "~1";
+            } else if (c == '%') {
+                result += "%25";
             } else {
                 result += c;
             }
@@ -2371,7 +2373,7 @@ private:
         if (properties) {
             for (const Member m : properties->getObject()) {
                 const std::string &property = m.first;
-                const std::string childPath = propertiesPath + "/" + property;
+                const std::string childPath = propertiesPath + "/" + escapeJsonPointerToken(property);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &property, docCache,
@@ -2384,7 +2386,7 @@ private:
         if (patternProperties) {
             for (const Member m : patternProperties->getObject()) {
                 const std::string &pattern = m.first;
-                const std::string childPath = patternPropertiesPath + "/" + pattern;
+                const std::string childPath = patternPropertiesPath + "/" + escapeJsonPointerToken(pattern);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
                         fetchDoc, parentSubschema, &pattern, docCache,
-- 
2.43.0


From 1c2c5a53c399c6208436dcfbbfb1c57e7644f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 13/45] fix: detect cycles of references between remote
 documents

---
 include/valijson/schema_parser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 8aeade3..54127d4 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -589,6 +589,10 @@ private:
             return registeredPtr;
         }
 
+        if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
+            throwRuntimeError("found cycle while resolving JSON reference");
+        }
+
         if (actualDocumentUri && (!currentScope || *actualDocumentUri != *currentScope)) {
             std::string registeredPath;
             std::optional<std::string> registeredScope;
@@ -668,10 +672,6 @@ private:
 
         }
 
-        if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
-            throwRuntimeError("found cycle while resolving JSON reference");
-        }
-
         // JSON References in nested schema will be resolved relative to the
         // current document
         const AdapterType &referencedAdapter =
-- 
2.43.0


From 0d112bbcfa68fb8ec685bb97c37dde45687295bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:56 +0000
Subject: [PATCH 14/45] fix: fetch a document only once while following a chain
 of references from the root schema

---
 include/valijson/schema_parser.hpp | 31 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 54127d4..86893ed 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1267,21 +1267,30 @@ private:
             }
 
             // Resolve reference against remote document
-            if (!fetchDoc) {
-                throwRuntimeError("Fetching of remote JSON References not enabled.");
-            }
+            const typename DocumentCache<AdapterType>::DocumentType *newDoc = nullptr;
 
-            const typename DocumentCache<AdapterType>::DocumentType *newDoc = fetchDoc(*actualDocumentUri);
+            // Have we seen this document before?
+            const typename DocumentCache<AdapterType>::Type::iterator docCacheItr =
+                    docCache.find(*actualDocumentUri);
+            if (docCacheItr == docCache.end()) {
+                if (!fetchDoc) {
+                    throwRuntimeError("Fetching of remote JSON References not enabled.");
+                }
 
-            // Can't proceed without the remote document
-            if (!newDoc) {
-                throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
-            }
+                newDoc = fetchDoc(*actualDocumentUri);
 
-            // Add to document cache
-            typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
+                // Can't proceed without the remote document
+                if (!newDoc) {
+                    throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
+                }
+
+                // Add to document cache
+                typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
 
-            docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
+                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
+            } else {
+                newDoc = docCacheItr->second;
+            }
 
             const AdapterType newRootNode(*newDoc);
 
-- 
2.43.0


From 4365301e7113d6bd524aa48acba8fbdf0bda89ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 15/45] fix: keep document URIs and paths apart in schema
 registry keys

---
 include/valijson/schema_parser.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 86893ed..43de67a 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -293,6 +293,21 @@ private:
         return result;
     }
 
+    /**
+     * @brief  Make the key that identifies a schema in the schema registry
+     *
+     * The separator keeps a path within one document distinct from the URI of
+     * another document.
+     */
+    static std::string makeRegistryKey(
+            const std::optional<std::string> &documentUri,
+            const std::string &jsonPointer)
+    {
+        const std::string uri = documentUri ? *documentUri : std::string();
+
+        return jsonPointer.empty() ? uri : uri + "#" + jsonPointer;
+    }
+
     const char *idKeyword() const
     {
         return m_version == kDraft7 ? "$id" : "id";
@@ -505,7 +520,7 @@ private:
 
             // Construct a key that we can use to search the schema registry for
             // a schema corresponding to the current node
-            const std::string schemaRegistryKey = currentScope ? (*currentScope + nodePath) : nodePath;
+            const std::string schemaRegistryKey = makeRegistryKey(currentScope, nodePath);
 
             // Retrieve an existing schema from the registry if possible
             const Subschema *registeredPtr = querySchemaRegistry(schemaRegistry, schemaRegistryKey);
@@ -549,7 +564,7 @@ private:
         const std::optional<std::string> actualDocumentUri = resolveDocumentUri(currentScope, documentUri);
 
         // Construct a key to search the schema registry for an existing schema
-        const std::string queryKey = actualDocumentUri ? (*actualDocumentUri + actualJsonPointer) : actualJsonPointer;
+        const std::string queryKey = makeRegistryKey(actualDocumentUri, actualJsonPointer);
 
         if (!actualJsonPointer.empty() && actualJsonPointer[0] != '/') {
             const std::string idRef = actualDocumentUri ?
-- 
2.43.0


From 68192bd9eccea475726c004e4db6420712278183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 16/45] fix: report an error whenever validation fails (false
 schemas, propertyNames, empty not)

---
 include/valijson/validation_visitor.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 88a2cdb..a7d0b04 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -105,6 +105,9 @@ public:
     bool validateSchema(const Subschema &subschema)
     {
         if (subschema.getAlwaysInvalid()) {
+            if (m_results) {
+                m_results->pushError(m_path, "Schema does not allow any value.");
+            }
             return false;
         }
 
@@ -1016,6 +1019,10 @@ public:
         const Subschema *subschema = constraint.getSubschema();
         if (!subschema) {
             // Treat nullptr like empty schema
+            if (m_results) {
+                m_results->pushError(m_path,
+                        "Target should not validate against schema specified in 'not' constraint.");
+            }
             return false;
         }
 
@@ -1239,6 +1246,10 @@ public:
                 stringAdapter, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);
 
             if (!validator.validateSchema(*constraint.getSubschema())) {
+                if (m_results) {
+                    m_results->pushError(m_path, "Failed to validate property name '" + m.first +
+                            "' against schema set by 'propertyNames' constraint.");
+                }
                 return false;
             }
         }
-- 
2.43.0


From 1af9465179239fd2de32d21b9e26c133cf3a8a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:45 +0000
Subject: [PATCH 17/45] fix: do not report errors for a value accepted by
 another schema of a 'type' list

---
 include/valijson/validation_visitor.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index a7d0b04..d8e7c81 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1361,14 +1361,24 @@ public:
             }
         }
 
-        // Check schema-based types
+        // Check schema-based types, keeping errors only if none of them matches
         {
+            ValidationResults newResults;
+            ValidationResults *childResults = (m_results) ? &newResults : nullptr;
+
+            ValidationVisitor<AdapterType, RegexEngine> v(
+                m_target, m_path, m_strictTypes, m_strictDateTime, childResults, m_regexesCache);
+
             unsigned int numValidated = 0;
             constraint.applyToSchemaTypes(
-                    ValidateSubschemas(m_target, m_path, false, true, *this, nullptr, &numValidated, nullptr));
+                    ValidateSubschemas(m_target, m_path, false, true, v, nullptr, &numValidated, nullptr));
             if (numValidated > 0) {
                 return true;
             } else if (m_results) {
+                ValidationResults::Error childError;
+                while (childResults->popError(childError)) {
+                    m_results->pushError(childError);
+                }
                 m_results->pushError(m_path, "Value type not permitted by 'type' constraint.");
             }
         }
-- 
2.43.0


From f99198efe0b2db9da33d7ccc435035387783f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 18/45] fix: do not apply additionalItems to an item that
 failed its own items schema

---
 include/valijson/validation_visitor.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index d8e7c81..256f3a9 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1629,11 +1629,14 @@ private:
 
             // Validate current array item
             ValidationVisitor validator(*itr, newPath, m_strictTypes, m_strictDateTime, m_results, m_regexesCache);
-            if (validator.validateSchema(*subschema)) {
-                if (m_numValidated) {
-                    (*m_numValidated)++;
-                }
+            const bool itemValidated = validator.validateSchema(*subschema);
+
+            // Items that fail are still covered by the 'items' constraint
+            if (m_numValidated) {
+                (*m_numValidated)++;
+            }
 
+            if (itemValidated) {
                 return m_continueOnSuccess;
             }
 
-- 
2.43.0


From fa3aeb6286d6c7d7e5ae050f314fa4e3514f62e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 19/45] fix: require four-digit years in dates, instead of
 throwing std::out_of_range for long ones

---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 256f3a9..7c92289 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -415,7 +415,7 @@ public:
         const std::string format = constraint.getFormat();
         if (format == "date") {
             // Matches dates like: 2022-07-18
-            static const internal::regex date_regex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
+            static const internal::regex date_regex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, date_regex)) {
                 const auto year = std::stoi(matches[1].str());
@@ -462,8 +462,8 @@ public:
         } else if (format == "date-time") {
             // Strict mode matches date/times like: 2022-07-18T16:52:45Z, 2022-07-18T16:52:45+02:00
             // Permissive mode also matches date/times like: 2022-07-18T16:52:45
-            static const internal::regex strictRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
-            static const internal::regex permissiveRegex("^([0-9]+)-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex strictRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
+            static const internal::regex permissiveRegex("^([0-9]{4})-(0[1-9]|1[012])-(0[1-9]|[12][0-9]|3[01])[Tt]([01][0-9]|2[0-3]):([0-5][0-9]):([0-5][0-9]|60)(\\.[0-9]+)?(([Zz])?|([\\+\\-])([01][0-9]|2[0-3]):([0-5][0-9]))$");
             internal::smatch matches;
             if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {
                 const auto year = std::stoi(matches[1].str());
-- 
2.43.0


From 0193d459b04840098a3bc44bf8b896a490c10877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:50 +0000
Subject: [PATCH 20/45] fix: accept an empty schema as, or in the list of, a
 Draft 3 'type'

---
 include/valijson/schema_parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index 43de67a..fcdaa66 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -2564,7 +2564,7 @@ private:
 
         TypeConstraint constraint;
 
-        if (node.maybeString()) {
+        if (node.isString()) {
             const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(node.getString());
             if (type == TypeConstraint::kAny && m_version == kDraft4) {
                 throwRuntimeError("'any' type is not supported in version 4 schemas.");
@@ -2572,10 +2572,10 @@ private:
 
             constraint.addNamedType(type);
 
-        } else if (node.maybeArray()) {
+        } else if (node.isArray()) {
             int index = 0;
             for (const AdapterType v : node.getArray()) {
-                if (v.maybeString()) {
+                if (v.isString()) {
                     const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(v.getString());
                     if (type == TypeConstraint::kAny && m_version == kDraft4) {
                         throwRuntimeError("'any' type is not supported in version 4 schemas.");
-- 
2.43.0


From da3329a83d581c200b1f203775f5d282bb30cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:30 +0000
Subject: [PATCH 21/45] fix: only treat '://' preceded by a valid scheme as the
 start of an absolute URI

---
 include/valijson/internal/uri.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index b030743..0ac64eb 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm>
+#include <cctype>
 #include <optional>
 #include <string>
 #include <vector>
@@ -20,9 +21,22 @@ inline std::optional<size_t> parseScheme(const std::string &uri)
 
     const auto pos = uri.find(marker);
 
-    return pos == std::string::npos
-        ? std::nullopt
-        : std::make_optional<size_t>(pos + 3);
+    // A scheme consists of a letter followed by letters, digits, '+', '-' and
+    // '.'; anything else before the marker means that it is part of a path,
+    // query or fragment
+    if (pos == std::string::npos || pos == 0 ||
+            !isalpha(static_cast<unsigned char>(uri[0]))) {
+        return std::nullopt;
+    }
+
+    for (size_t i = 1; i < pos; ++i) {
+        const char c = uri[i];
+        if (!isalnum(static_cast<unsigned char>(c)) && c != '+' && c != '-' && c != '.') {
+            return std::nullopt;
+        }
+    }
+
+    return std::make_optional<size_t>(pos + 3);
 }
 
 /**
-- 
2.43.0


From 7b3296613c9e2cb7642dbf36ae7fe22c7a4feb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:48 +0000
Subject: [PATCH 22/45] fix: end the authority of a base URI at its query or
 fragment, if it has no path

---
 include/valijson/internal/uri.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index 0ac64eb..d848408 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -83,16 +83,14 @@ inline std::string resolveRelativeUri(
     std::string basePath;
     if (schemeEnd.has_value()) {
         // Extract scheme+authority, e.g. http://userinfo@example.com:8080
-        const auto authorityEnd = resolutionScope.find('/', *schemeEnd);
+        const auto authorityEnd = resolutionScope.find_first_of("/?#", *schemeEnd);
         schemeAndAuthority = resolutionScope.substr(0, authorityEnd);
 
         // Assume path starts immediately after scheme+authority
         const std::string::size_type pathStart = schemeAndAuthority.size();
 
-        // Extract base path from resolution scope, or use '/' as default
-        basePath = pathStart < resolutionScope.size()
-                ? resolutionScope.substr(pathStart)
-                : "/";
+        // Extract base path from resolution scope
+        basePath = resolutionScope.substr(pathStart);
     } else {
         // A relative resolution scope still represents a URI path. Relative
         // references replace its final path segment rather than being appended
@@ -112,6 +110,11 @@ inline std::string resolveRelativeUri(
         basePath.erase(baseQueryPos);
     }
 
+    // The base path is only empty if it follows an authority
+    if (basePath.empty() && schemeEnd.has_value()) {
+        basePath = "/";
+    }
+
     // Next two cases...
     if (!relativeUri.empty()) {
         // Relative URI is just a fragment OR a query
-- 
2.43.0


From 5eb1ed4da2f0c53f80eaa4804ed7ae0874af6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:48 +0000
Subject: [PATCH 23/45] fix: keep the query of the base URI when resolving a
 fragment-only reference

---
 include/valijson/internal/uri.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index d848408..8a85eb3 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -106,7 +106,9 @@ inline std::string resolveRelativeUri(
 
     // Strip everything after query marker if present (we need both)
     const std::string::size_type baseQueryPos = basePath.find('?');
+    std::string baseQuery;
     if (baseQueryPos != std::string::npos) {
+        baseQuery = basePath.substr(baseQueryPos);
         basePath.erase(baseQueryPos);
     }
 
@@ -117,8 +119,13 @@ inline std::string resolveRelativeUri(
 
     // Next two cases...
     if (!relativeUri.empty()) {
-        // Relative URI is just a fragment OR a query
-        if ((relativeUri[0] == '#') || relativeUri[0] == '?') {
+        // Relative URI is just a fragment, so the base query is retained
+        if (relativeUri[0] == '#') {
+            return schemeAndAuthority + basePath + baseQuery + relativeUri;
+        }
+
+        // Relative URI is just a query
+        if (relativeUri[0] == '?') {
             // Append it to the scheme+authority and clean base path
             return schemeAndAuthority + basePath + relativeUri;
         }
-- 
2.43.0


From decac276b8bef918c276c235433e9af920857d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:41 +0000
Subject: [PATCH 24/45] fix: keep the trailing slash left by a final dot
 segment when resolving URIs

---
 include/valijson/internal/uri.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index 8a85eb3..e992580 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -197,7 +197,10 @@ inline std::string resolveRelativeUri(
         }
         normalisedPath += *itr;
     }
-    if (!mergedPath.empty() && mergedPath[mergedPath.size() - 1] == '/' &&
+    // A final dot segment leaves a trailing slash, just as a final slash does
+    const bool trailingSlash = segment == "." || segment == ".." ||
+            (!mergedPath.empty() && mergedPath[mergedPath.size() - 1] == '/');
+    if (trailingSlash &&
             (normalisedPath.empty() || normalisedPath[normalisedPath.size() - 1] != '/')) {
         normalisedPath += "/";
     }
-- 
2.43.0


From 0b03ff9a1b0d2fe1df50bebe105b9e3ff7b9f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 25/45] fix: drop the fragment of the base URI when resolving
 an empty reference

---
 include/valijson/internal/uri.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/valijson/internal/uri.hpp b/include/valijson/internal/uri.hpp
index e992580..3479781 100644
--- a/include/valijson/internal/uri.hpp
+++ b/include/valijson/internal/uri.hpp
@@ -68,9 +68,10 @@ inline std::string resolveRelativeUri(
         const std::string &resolutionScope,
         const std::string &relativeUri)
 {
-    // Trivial case: There is no relative URI to resolve
+    // Trivial case: There is no relative URI to resolve, so the result is the
+    // resolution scope without its fragment
     if (relativeUri.empty()) {
-        return resolutionScope;
+        return resolutionScope.substr(0, resolutionScope.find('#'));
     }
 
     // Trivial case: The relative URI is actually absolute, or is a URN
-- 
2.43.0


From 7c1d4d981284255842506ea84bbe62b656b30943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 26/45] fix: follow a reference found at the target of a
 reference to a schema with an identifier

---
 include/valijson/schema_parser.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index fcdaa66..d618126 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -627,8 +627,19 @@ private:
                             actualJsonPointer, "", referencedScope);
                 }
 
-                const Subschema *subschema = rootSchema.createSubschema();
                 newRegistryKeys.push_back(queryKey);
+
+                // The referenced node may itself be another reference
+                std::string nextRef;
+                if (extractJsonReference(referencedAdapter, nextRef)) {
+                    return makeOrReuseSchema(rootSchema, registeredRoot,
+                            referencedAdapter, referencedScope,
+                            actualJsonPointer, fetchDoc, parentSubschema,
+                            ownName, docCache, schemaRegistry,
+                            newRegistryKeys);
+                }
+
+                const Subschema *subschema = rootSchema.createSubschema();
                 updateSchemaRegistry(schemaRegistry, newRegistryKeys, subschema);
 
                 populateSchema(rootSchema, registeredRoot, referencedAdapter,
-- 
2.43.0


From d6674e31742b450d943acb193ee98093d748f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 27/45] fix: do not allocate memory in RapidJSON assertions
 that hold

---
 include/valijson/adapters/rapidjson_adapter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/adapters/rapidjson_adapter.hpp b/include/valijson/adapters/rapidjson_adapter.hpp
index 712f937..0672fce 100644
--- a/include/valijson/adapters/rapidjson_adapter.hpp
+++ b/include/valijson/adapters/rapidjson_adapter.hpp
@@ -51,12 +51,12 @@
         #warning "Please include valijson/adapters/rapidjson_adapter.hpp before any RapidJSON headers."
     #else
         template<typename T>
-        T rapidjson_assert(T t, const std::string& file, const int line) {
+        T rapidjson_assert(T t, const char *file, const int line) {
           if (t) {
             return t;
           }
 
-          throw std::runtime_error("assertion failed; file: " + file + "; line: " + std::to_string(line));
+          throw std::runtime_error(std::string("assertion failed; file: ") + file + "; line: " + std::to_string(line));
         }
 
         #define RAPIDJSON_ASSERT(x) rapidjson_assert(x, __FILE__, __LINE__)
-- 
2.43.0


From 0cf81dd57c39815e171fa2c0eb8db8a82a286ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 28/45] fix: free a fetched document even if it cannot be added
 to the document cache

---
 include/valijson/schema_parser.hpp | 31 +++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index d618126..ee11686 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -164,7 +164,9 @@ private:
         typedef typename DocumentCache<AdapterType>::Type DocCacheType;
 
         for (const typename DocCacheType::value_type &v : docCache) {
-            freeDoc(v.second);
+            if (v.second) {
+                freeDoc(v.second);
+            }
         }
     }
 
@@ -661,22 +663,24 @@ private:
                     throwRuntimeError("Fetching of remote JSON References not enabled.");
                 }
 
+                typedef typename DocumentCache<AdapterType>::Type::value_type
+                        DocCacheValueType;
+
+                // Make room for the document before fetching it, so that it
+                // will be freed no matter what happens afterwards
+                docCacheItr = docCache.insert(DocCacheValueType(*actualDocumentUri, nullptr)).first;
+
                 // Returns a pointer to the remote document that was
                 // retrieved, or null if retrieval failed. This class
                 // will take ownership of the pointer, and call freeDoc
                 // when it is no longer needed.
                 newDoc = fetchDoc(*actualDocumentUri);
+                docCacheItr->second = newDoc;
 
                 // Can't proceed without the remote document
                 if (!newDoc) {
                     throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
                 }
-
-                typedef typename DocumentCache<AdapterType>::Type::value_type
-                        DocCacheValueType;
-
-                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
-
             } else {
                 newDoc = docCacheItr->second;
             }
@@ -1296,24 +1300,25 @@ private:
             const typename DocumentCache<AdapterType>::DocumentType *newDoc = nullptr;
 
             // Have we seen this document before?
-            const typename DocumentCache<AdapterType>::Type::iterator docCacheItr =
+            typename DocumentCache<AdapterType>::Type::iterator docCacheItr =
                     docCache.find(*actualDocumentUri);
             if (docCacheItr == docCache.end()) {
                 if (!fetchDoc) {
                     throwRuntimeError("Fetching of remote JSON References not enabled.");
                 }
 
+                // Add to document cache before fetching, so that the document
+                // will be freed no matter what happens afterwards
+                typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
+
+                docCacheItr = docCache.insert(DocCacheValueType(*actualDocumentUri, nullptr)).first;
                 newDoc = fetchDoc(*actualDocumentUri);
+                docCacheItr->second = newDoc;
 
                 // Can't proceed without the remote document
                 if (!newDoc) {
                     throwRuntimeError("Failed to fetch referenced schema document: " + *actualDocumentUri);
                 }
-
-                // Add to document cache
-                typedef typename DocumentCache<AdapterType>::Type::value_type DocCacheValueType;
-
-                docCache.insert(DocCacheValueType(*actualDocumentUri, newDoc));
             } else {
                 newDoc = docCacheItr->second;
             }
-- 
2.43.0


From 05c3f6e11830c43a1b43634507bb976090fe5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 29/45] fix: throw when a custom allocation function returns
 null, instead of using the null pointer

---
 include/valijson/internal/custom_allocator.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/valijson/internal/custom_allocator.hpp b/include/valijson/internal/custom_allocator.hpp
index fb34b9f..e9fcfc5 100644
--- a/include/valijson/internal/custom_allocator.hpp
+++ b/include/valijson/internal/custom_allocator.hpp
@@ -1,6 +1,10 @@
 #pragma once
 
+#include <cstddef>
 #include <limits>
+#include <new>
+
+#include <valijson/exceptions.hpp>
 
 namespace valijson {
 namespace internal {
@@ -67,7 +71,12 @@ public:
 
     pointer allocate(size_type cnt, const void * = nullptr)
     {
-        return reinterpret_cast<pointer>(m_allocFn(cnt * sizeof(T)));
+        void *ptr = m_allocFn(cnt * sizeof(T));
+        if (!ptr) {
+            throwRuntimeError("Failed to allocate memory");
+        }
+
+        return reinterpret_cast<pointer>(ptr);
     }
 
     void deallocate(pointer p, size_type)
-- 
2.43.0


From dae95d632f496debe88e56d66f96e4759e90af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 30/45] fix: keep references to a root schema with an
 identifier valid when the Schema is moved

---
 include/valijson/schema_parser.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index ee11686..c401c81 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -841,6 +841,7 @@ private:
         // Check for schema identifier attribute and update current scope.
         std::optional<std::string> updatedScope;
         bool foundId = false;
+        const Subschema *rootCopy = nullptr;
         if ((itr = object.find(idKeyword())) != object.end() && itr->second.maybeString()) {
             foundId = true;
             const std::string id = itr->second.asString();
@@ -851,7 +852,14 @@ private:
         }
 
         if (foundId && updatedScope) {
-            schemaRegistry.emplace(*updatedScope, &subschema);
+            const Subschema *registeredSubschema = &subschema;
+            if (registeredSubschema == rootSchema.root()) {
+                // The Schema object itself may be moved, so references must be
+                // made to a copy of the root subschema that will not move
+                registeredSubschema = rootSchema.createSubschema();
+                rootCopy = registeredSubschema;
+            }
+            schemaRegistry.emplace(*updatedScope, registeredSubschema);
         }
 
         // Add the type constraint first to be the first one to check because other constraints may rely on it
@@ -1197,6 +1205,15 @@ private:
 #endif
             }
         }
+
+        // References to the root subschema can be made via a copy of it
+        if (rootCopy) {
+            Subschema::ApplyFunction addToCopy = [&](const Subschema::Constraint &constraint) {
+                rootSchema.addConstraintToSubschema(constraint, rootCopy);
+                return true;
+            };
+            rootSchema.apply(addToCopy);
+        }
     }
 
     /**
-- 
2.43.0


From 5a05bacb80f7144650d8b4731026853b42506c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 31/45] fix: release enum values whose addition to an enum
 constraint fails

---
 include/valijson/constraints/concrete_constraints.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/valijson/constraints/concrete_constraints.hpp b/include/valijson/constraints/concrete_constraints.hpp
index ebea406..f76a53d 100644
--- a/include/valijson/constraints/concrete_constraints.hpp
+++ b/include/valijson/constraints/concrete_constraints.hpp
@@ -402,13 +402,17 @@ public:
     void addValue(const adapters::Adapter &value)
     {
         // TODO: Freeze value using custom alloc/free functions
-        m_enumValues.push_back(value.freeze());
+        std::unique_ptr<const EnumValue> enumValue(value.freeze());
+        m_enumValues.push_back(enumValue.get());
+        enumValue.release();
     }
 
     void addValue(const adapters::FrozenValue &value)
     {
         // TODO: Clone using custom alloc/free functions
-        m_enumValues.push_back(value.clone());
+        std::unique_ptr<const EnumValue> enumValue(value.clone());
+        m_enumValues.push_back(enumValue.get());
+        enumValue.release();
     }
 
     template<typename FunctorType>
-- 
2.43.0


From 25ac0681218abc129544e71f7def71fb64f0e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 32/45] fix: do not take the strings inf and nan for numbers

---
 include/valijson/internal/double_parser.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/valijson/internal/double_parser.hpp b/include/valijson/internal/double_parser.hpp
index 5ba9118..d526ae3 100644
--- a/include/valijson/internal/double_parser.hpp
+++ b/include/valijson/internal/double_parser.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <locale>
 #include <sstream>
 #include <string>
@@ -74,6 +75,12 @@ inline bool parseDouble(const std::string &input, double &result)
     }
 #endif
 
+    // std::from_chars and fast_float also accept "inf", "infinity" and "nan",
+    // none of which are JSON numbers
+    if (!std::isfinite(value)) {
+        return false;
+    }
+
     result = value;
     return true;
 }
-- 
2.43.0


From 05509804369840c54ab73f18a826c977c5dda35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 33/45] fix: read integers from strings as strictly as numbers,
 independent of the locale

---
 .../valijson/adapters/std_string_adapter.hpp  |  9 +--
 include/valijson/internal/basic_adapter.hpp   | 17 +-----
 include/valijson/internal/integer_parser.hpp  | 55 +++++++++++++++++++
 3 files changed, 60 insertions(+), 21 deletions(-)
 create mode 100644 include/valijson/internal/integer_parser.hpp

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index 94dc8aa..05f169e 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -20,6 +20,7 @@
 #include <valijson/internal/frozen_value.hpp>
 #include <valijson/internal/basic_adapter.hpp>
 #include <valijson/internal/double_parser.hpp>
+#include <valijson/internal/integer_parser.hpp>
 #include <valijson/exceptions.hpp>
 
 namespace valijson {
@@ -321,14 +322,8 @@ public:
 
     bool maybeInteger() const override
     {
-        std::istringstream i(m_value);
         int64_t x;
-        char c;
-        if (!(i >> x) || i.get(c)) {
-            return false;
-        }
-
-        return true;
+        return internal::parseInteger(m_value, x);
     }
 
     bool maybeNull() const override
diff --git a/include/valijson/internal/basic_adapter.hpp b/include/valijson/internal/basic_adapter.hpp
index 7426a2e..d8de9ab 100644
--- a/include/valijson/internal/basic_adapter.hpp
+++ b/include/valijson/internal/basic_adapter.hpp
@@ -4,10 +4,10 @@
 #include <cstdint>
 #include <limits>
 #include <optional>
-#include <sstream>
 
 #include <valijson/internal/adapter.hpp>
 #include <valijson/internal/double_parser.hpp>
+#include <valijson/internal/integer_parser.hpp>
 #include <valijson/exceptions.hpp>
 
 namespace valijson {
@@ -410,13 +410,7 @@ public:
         } else if (m_value.isString()) {
             std::string s;
             if (m_value.getString(s)) {
-                std::istringstream i(s);
-                int64_t x;
-                char c;
-                if (!(!(i >> x) || i.get(c))) {
-                    result = x;
-                    return true;
-                }
+                return internal::parseInteger(s, result);
             }
         }
 
@@ -819,13 +813,8 @@ public:
         } else if (maybeString()) {
             std::string s;
             if (m_value.getString(s)) {
-                std::istringstream i(s);
                 int64_t x;
-                char c;
-                if (!(i >> x) || i.get(c)) {
-                    return false;
-                }
-                return true;
+                return internal::parseInteger(s, x);
             }
         }
 
diff --git a/include/valijson/internal/integer_parser.hpp b/include/valijson/internal/integer_parser.hpp
new file mode 100644
index 0000000..0c17174
--- /dev/null
+++ b/include/valijson/internal/integer_parser.hpp
@@ -0,0 +1,55 @@
+#pragma once
+
+#include <cstdint>
+#include <limits>
+#include <string>
+
+namespace valijson {
+namespace internal {
+
+/**
+ * @brief   Convert a string to an integer
+ *
+ * The whole string must be a decimal integer with an optional minus sign, and
+ * the value must be in the range of int64_t. Unlike the stream operators, this
+ * does not skip white space, accept a plus sign, or depend on the locale, so
+ * that every string accepted here is also accepted by parseDouble.
+ */
+inline bool parseInteger(const std::string &input, int64_t &result)
+{
+    const bool negative = !input.empty() && input[0] == '-';
+
+    size_t pos = negative ? 1 : 0;
+    if (pos == input.length()) {
+        return false;
+    }
+
+    // Accumulate a negative value, as its range is larger
+    const int64_t min = std::numeric_limits<int64_t>::min();
+    int64_t value = 0;
+    for (; pos < input.length(); ++pos) {
+        if (input[pos] < '0' || input[pos] > '9') {
+            return false;
+        }
+
+        const int digit = input[pos] - '0';
+        if (value < (min + digit) / 10) {
+            return false;
+        }
+
+        value = value * 10 - digit;
+    }
+
+    if (!negative) {
+        if (value == min) {
+            return false;
+        }
+        value = -value;
+    }
+
+    result = value;
+    return true;
+}
+
+} // namespace internal
+} // namespace valijson
-- 
2.43.0


From 1a65438aab226ece9354d8582a2fdab62a8af661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 34/45] fix: convert property names to numbers and booleans as
 their tests promise

---
 .../valijson/adapters/std_string_adapter.hpp  | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/valijson/adapters/std_string_adapter.hpp b/include/valijson/adapters/std_string_adapter.hpp
index 05f169e..cbe331d 100644
--- a/include/valijson/adapters/std_string_adapter.hpp
+++ b/include/valijson/adapters/std_string_adapter.hpp
@@ -118,35 +118,52 @@ public:
 
     bool asBool() const override
     {
-        return true;
+        bool result;
+        if (asBool(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a boolean");
     }
 
     bool asBool(bool &result) const override
     {
-        result = true;
+        if (!maybeBool()) {
+            return false;
+        }
+
+        result = m_value == "true";
         return true;
     }
 
     double asDouble() const override
     {
-        return 0;
+        double result;
+        if (asDouble(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to a double");
     }
 
     bool asDouble(double &result) const override
     {
-        result = 0;
-        return true;
+        return internal::parseDouble(m_value, result);
     }
 
     int64_t asInteger() const override
     {
-        return 0;
+        int64_t result;
+        if (asInteger(result)) {
+            return result;
+        }
+
+        throwRuntimeError("String value cannot be cast to an integer");
     }
 
     bool asInteger(int64_t &result) const override
     {
-        result = 0;
-        return true;
+        return internal::parseInteger(m_value, result);
     }
 
     StdStringObject asObject() const
-- 
2.43.0


From 034b596f7914245cc7a93fd2c4a1466fcf5831f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 35/45] fix: read 64-bit integers from JsonCpp values

---
 include/valijson/adapters/jsoncpp_adapter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/jsoncpp_adapter.hpp b/include/valijson/adapters/jsoncpp_adapter.hpp
index 4a692a6..30508e9 100644
--- a/include/valijson/adapters/jsoncpp_adapter.hpp
+++ b/include/valijson/adapters/jsoncpp_adapter.hpp
@@ -327,8 +327,8 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isIntegral()) {
-            result = static_cast<int64_t>(m_value.asInt());
+        if (m_value.isInt64()) {
+            result = static_cast<int64_t>(m_value.asInt64());
             return true;
         }
 
@@ -406,7 +406,7 @@ public:
 
     bool isInteger() const
     {
-        return m_value.isIntegral() && !m_value.isBool();
+        return m_value.isInt64() && !m_value.isBool();
     }
 
     bool isNull() const
-- 
2.43.0


From 42826e89006877f07f2658a3142011bc2f6e78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 36/45] fix: do not use null pointers for the empty arrays and
 objects of the Poco adapter

---
 include/valijson/adapters/poco_json_adapter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index d50017c..7265c1e 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -110,7 +110,7 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty array.
     */
-    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr();
+    static inline const Poco::Dynamic::Var emptyArray = Poco::JSON::Array::Ptr(new Poco::JSON::Array());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -195,7 +195,7 @@ private:
     /**
     * @brief   Shared PocoJson value used to represent an empty object.
     */
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
@@ -442,7 +442,7 @@ public:
 private:
 
     /// Shared PocoJson value used to represent an empty object
-    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr();
+    static inline const Poco::Dynamic::Var emptyObject = Poco::JSON::Object::Ptr(new Poco::JSON::Object());
 
     /// Contained value
     Poco::Dynamic::Var m_value;
-- 
2.43.0


From 65e77c33ebc90783a986db1f82a9987280f90d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 37/45] fix: do not take booleans held by Poco values for
 numbers

---
 include/valijson/adapters/poco_json_adapter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index 7265c1e..4c8b07e 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -338,7 +338,7 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isInteger()) {
+        if (isInteger()) {
             result = m_value.convert<int64_t>();
             return true;
         }
@@ -426,7 +426,7 @@ public:
 
     bool isNumber() const
     {
-        return m_value.isNumeric();
+        return !isBool() && m_value.isNumeric();
     }
 
     bool isObject() const
-- 
2.43.0


From 10e1309204779d83f1604471d955ec48b780cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 38/45] fix: copy arrays and objects when freezing Poco values

---
 .../valijson/adapters/poco_json_adapter.hpp   | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/valijson/adapters/poco_json_adapter.hpp b/include/valijson/adapters/poco_json_adapter.hpp
index 4c8b07e..1b504ad 100644
--- a/include/valijson/adapters/poco_json_adapter.hpp
+++ b/include/valijson/adapters/poco_json_adapter.hpp
@@ -220,7 +220,7 @@ public:
     * @param  source  the PocoJson value to be copied
     */
     explicit PocoJsonFrozenValue(const Poco::Dynamic::Var &source)
-        : m_value(source)
+        : m_value(deepCopy(source))
     { }
 
     virtual FrozenValue * clone() const
@@ -232,6 +232,29 @@ public:
 
 private:
 
+    /// Arrays and objects are held by reference, so copying a value is not
+    /// enough to keep it from changing along with the document it came from
+    static Poco::Dynamic::Var deepCopy(const Poco::Dynamic::Var &source)
+    {
+        if (source.type() == typeid(Poco::JSON::Array::Ptr)) {
+            const Poco::JSON::Array::Ptr &array = source.extract<Poco::JSON::Array::Ptr>();
+            Poco::JSON::Array::Ptr copy(new Poco::JSON::Array());
+            for (auto itr = array->begin(); itr != array->end(); ++itr) {
+                copy->add(deepCopy(*itr));
+            }
+            return copy;
+        } else if (source.type() == typeid(Poco::JSON::Object::Ptr)) {
+            const Poco::JSON::Object::Ptr &object = source.extract<Poco::JSON::Object::Ptr>();
+            Poco::JSON::Object::Ptr copy(new Poco::JSON::Object());
+            for (auto itr = object->begin(); itr != object->end(); ++itr) {
+                copy->set(itr->first, deepCopy(itr->second));
+            }
+            return copy;
+        }
+
+        return source;
+    }
+
     /// Stored PocoJson value
     Poco::Dynamic::Var m_value;
 };
-- 
2.43.0


From 3a166d844f185465c5822d5ee1210ffcc38316bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 39/45] fix: read 64-bit integers from Qt JSON values

QJsonValue::toInt only converts values that fit an int: larger integers were
taken for fractions, and read as 0.
---
 include/valijson/adapters/qtjson_adapter.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/valijson/adapters/qtjson_adapter.hpp b/include/valijson/adapters/qtjson_adapter.hpp
index 86d6c1b..8006d5b 100644
--- a/include/valijson/adapters/qtjson_adapter.hpp
+++ b/include/valijson/adapters/qtjson_adapter.hpp
@@ -337,8 +337,8 @@ public:
 
     bool getInteger(int64_t &result) const
     {
-        if (m_value.isDouble()) {
-            result = m_value.toInt();
+        if (isInteger()) {
+            result = toInteger(0);
             return true;
         }
 
@@ -417,8 +417,8 @@ public:
 
     bool isInteger() const
     {
-        //toInt returns the default value (0, 1) if the value is not a whole number
-        return m_value.isDouble() && (m_value.toInt(0) == m_value.toInt(1));
+        //toInteger returns the default value (0, 1) if the value is not a whole number
+        return m_value.isDouble() && (toInteger(0) == toInteger(1));
     }
 
     bool isNull() const
@@ -443,6 +443,16 @@ public:
 
 private:
 
+    /// Convert to an integer, or return the default value if the value is not a whole number
+    int64_t toInteger(int64_t defaultValue) const
+    {
+#if QT_VERSION >= QT_VERSION_CHECK(6, 0, 0)
+        return m_value.toInteger(defaultValue);
+#else
+        return m_value.toInt(static_cast<int>(defaultValue));
+#endif
+    }
+
     /// Shared QtJson value instance used to represent an empty object
     static inline const QJsonValue emptyObject;
 
-- 
2.43.0


From dd3ee7243407dd5a3d9cf51f894154ea06722e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 40/45] fix: make default constructed adapters refer to an
 empty object

The Boost.JSON, Qt JSON and QVariant adapters documented to hold an empty
object when default constructed held a null value.
---
 include/valijson/adapters/boost_json_adapter.hpp | 2 +-
 include/valijson/adapters/qtjson_adapter.hpp     | 2 +-
 include/valijson/adapters/qvariant_adapter.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/adapters/boost_json_adapter.hpp b/include/valijson/adapters/boost_json_adapter.hpp
index b65cfcf..415f4c7 100644
--- a/include/valijson/adapters/boost_json_adapter.hpp
+++ b/include/valijson/adapters/boost_json_adapter.hpp
@@ -444,7 +444,7 @@ public:
 private:
 
     /// Shared Boost.JSON instance used to represent empty object.
-    static inline const boost::json::value emptyObject;
+    static inline const boost::json::value emptyObject = boost::json::object();
 
     /// Reference to the contained Boost.JSON value.
     const boost::json::value &m_value;
diff --git a/include/valijson/adapters/qtjson_adapter.hpp b/include/valijson/adapters/qtjson_adapter.hpp
index 8006d5b..f47ab06 100644
--- a/include/valijson/adapters/qtjson_adapter.hpp
+++ b/include/valijson/adapters/qtjson_adapter.hpp
@@ -454,7 +454,7 @@ private:
     }
 
     /// Shared QtJson value instance used to represent an empty object
-    static inline const QJsonValue emptyObject;
+    static inline const QJsonValue emptyObject = QJsonObject();
 
     /// Reference to the contained QtJson value.
     const QJsonValue m_value;
diff --git a/include/valijson/adapters/qvariant_adapter.hpp b/include/valijson/adapters/qvariant_adapter.hpp
index a055555..b4b3d8b 100644
--- a/include/valijson/adapters/qvariant_adapter.hpp
+++ b/include/valijson/adapters/qvariant_adapter.hpp
@@ -463,7 +463,7 @@ public:
 private:
 
     /// Shared QtVariant value instance used to represent an empty object
-    static inline const QVariant emptyObject;
+    static inline const QVariant emptyObject = QVariantMap();
 
     /// Reference to the contained QtVariant value.
     const QVariant m_value;
-- 
2.43.0


From 8748479acd452351d3935666fe4aec03cc79e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 41/45] fix: validate empty containers under weak typing
 without an exception

An empty array can be taken for an object, and an empty object for an array,
when types are not strict; uniqueItems and additionalProperties asked for
their size in a way that throws in that case.
---
 include/valijson/validation_visitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/valijson/validation_visitor.hpp b/include/valijson/validation_visitor.hpp
index 7c92289..5fc8d35 100644
--- a/include/valijson/validation_visitor.hpp
+++ b/include/valijson/validation_visitor.hpp
@@ -1183,7 +1183,7 @@ public:
         const Subschema *additionalPropertiesSubschema =
                 constraint.getAdditionalPropertiesSubschema();
         if (!additionalPropertiesSubschema) {
-            if (propertiesMatched.size() != m_target.getObjectSize()) {
+            if (propertiesMatched.size() != object.size()) {
                 if (m_results) {
                     std::string unwanted;
                     for (const typename AdapterType::ObjectMember m : object) {
@@ -1403,7 +1403,8 @@ public:
             return true;
         }
 
-        size_t array_size = m_target.getArraySize();
+        const typename AdapterType::Array targetArray = m_target.asArray();
+        const size_t array_size = targetArray.size();
 
         // Empty arrays are always valid
         if (array_size == 0) {
@@ -1412,7 +1413,6 @@ public:
 
         bool validated = true;
 
-        const typename AdapterType::Array targetArray = m_target.asArray();
         const typename AdapterType::Array::const_iterator end = targetArray.end();
 
         typename AdapterType::Array::const_iterator outerItr = targetArray.begin();
-- 
2.43.0


From e8ff51821f44e60ad7d083531e5343dc5982f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 42/45] fix: report malformed files loaded with nlohmann::json
 instead of throwing

---
 include/valijson/utils/nlohmann_json_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/valijson/utils/nlohmann_json_utils.hpp b/include/valijson/utils/nlohmann_json_utils.hpp
index 77e5771..793827a 100644
--- a/include/valijson/utils/nlohmann_json_utils.hpp
+++ b/include/valijson/utils/nlohmann_json_utils.hpp
@@ -23,7 +23,7 @@ inline bool loadDocument(const std::string &path, nlohmann::json &document)
 #if VALIJSON_USE_EXCEPTIONS
     try {
         document = nlohmann::json::parse(file);
-    } catch (std::invalid_argument const& exception) {
+    } catch (std::exception const& exception) {
         std::cerr << "nlohmann::json failed to parse the document\n"
             << "Parse error:" << exception.what() << "\n";
         return false;
-- 
2.43.0


From b01f1799d39909ca175661095654137bbad559ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 43/45] fix: report errors near the start of files loaded with
 RapidJSON instead of throwing

---
 include/valijson/utils/rapidjson_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/valijson/utils/rapidjson_utils.hpp b/include/valijson/utils/rapidjson_utils.hpp
index 2f90ba9..3901b52 100644
--- a/include/valijson/utils/rapidjson_utils.hpp
+++ b/include/valijson/utils/rapidjson_utils.hpp
@@ -28,7 +28,8 @@ inline bool loadDocument(const std::string &path, rapidjson::GenericDocument<Enc
         if (document.HasParseError()) {
             std::cerr << "RapidJson failed to parse the document:" << std::endl;
             std::cerr << "Parse error: " << document.GetParseError() << std::endl;
-            std::cerr << "Near: " << file.substr((std::max)(size_t(0), document.GetErrorOffset() - 20), 40) << std::endl;
+            const size_t offset = document.GetErrorOffset();
+            std::cerr << "Near: " << file.substr(offset > 20 ? offset - 20 : 0, 40) << std::endl;
             return false;
         }
 #if VALIJSON_USE_EXCEPTIONS
-- 
2.43.0


From f6dad0cc546cb058e68eee751fc755daf98c185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 44/45] fix: do not require a property named like a Draft 3
 pattern

---
 include/valijson/schema_parser.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/valijson/schema_parser.hpp b/include/valijson/schema_parser.hpp
index c401c81..aac0c77 100644
--- a/include/valijson/schema_parser.hpp
+++ b/include/valijson/schema_parser.hpp
@@ -1159,10 +1159,12 @@ private:
 
         if ((itr = object.find("required")) != object.end()) {
             if (m_version == kDraft3) {
-                if (parentSubschema && ownName) {
+                if (parentSubschema) {
+                    // A schema for a pattern does not have a name of its own,
+                    // so there is no property that it could require
                     std::optional<constraints::RequiredConstraint> constraint =
-                            makeRequiredConstraintForSelf(itr->second, *ownName);
-                    if (constraint) {
+                            makeRequiredConstraintForSelf(itr->second, ownName ? *ownName : std::string());
+                    if (constraint && ownName) {
                         rootSchema.addConstraintToSubschema(*constraint, parentSubschema);
                     }
                 } else {
@@ -2446,7 +2448,7 @@ private:
                 const std::string childPath = patternPropertiesPath + "/" + escapeJsonPointerToken(pattern);
                 const Subschema *subschema = makeOrReuseSchema<AdapterType>(
                         rootSchema, rootNode, m.second, currentScope, childPath,
-                        fetchDoc, parentSubschema, &pattern, docCache,
+                        fetchDoc, parentSubschema, nullptr, docCache,
                         schemaRegistry);
                 constraint.addPatternPropertySubschema(pattern, subschema);
             }
-- 
2.43.0


From 8837b9a411cb977952bf143ed148f2deb2715b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 45/45] fix: recognise json11 integers outside the range of int

---
 include/valijson/adapters/json11_adapter.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/valijson/adapters/json11_adapter.hpp b/include/valijson/adapters/json11_adapter.hpp
index 8a82de0..baac7d5 100644
--- a/include/valijson/adapters/json11_adapter.hpp
+++ b/include/valijson/adapters/json11_adapter.hpp
@@ -329,7 +329,8 @@ public:
     bool getInteger(int64_t &result) const
     {
         if (isInteger()) {
-            result = m_value.int_value();
+            // int_value() is limited to the range of int
+            result = static_cast<int64_t>(m_value.number_value());
             return true;
         }
         return false;
@@ -406,7 +407,14 @@ public:
 
     bool isInteger() const
     {
-        return m_value.is_number() && m_value.int_value() == m_value.number_value();
+        if (!m_value.is_number()) {
+            return false;
+        }
+
+        // The cast is only defined for numbers in the range of int64_t
+        const double value = m_value.number_value();
+        return value >= -9223372036854775808.0 && value < 9223372036854775808.0 &&
+                static_cast<double>(static_cast<int64_t>(value)) == value;
     }
 
     bool isNull() const
-- 
2.43.0

