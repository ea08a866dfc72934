From 10bb0e5e158eb20a853c67e1b8b8b2ad200100f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 001/114] fix: merge valid ranges of big unsigned integer
 fields using unsigned arithmetic

---
 lib/src/parse/ParseIntFieldImpl.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index e73bad8..4782eed 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -944,14 +944,30 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
             }
 
             if ((iter->m_sinceVersion != nextIter->m_sinceVersion) ||
-                (iter->m_deprecatedSince != nextIter->m_deprecatedSince) ||
-                ((iter->m_max + 1) < nextIter->m_min)) {
+                (iter->m_deprecatedSince != nextIter->m_deprecatedSince)) {
                 break;
             }
 
-            assert(iter->m_min <= nextIter->m_min);
+            // The values of big unsigned types are stored as wrapped signed ones
+            auto isLess =
+                [bigUnsigned](std::intmax_t val1, std::intmax_t val2)
+                {
+                    if (bigUnsigned) {
+                        return static_cast<std::uintmax_t>(val1) < static_cast<std::uintmax_t>(val2);
+                    }
+                    return val1 < val2;
+                };
+
+            if (isLess(iter->m_max, nextIter->m_min) &&
+                ((static_cast<std::uintmax_t>(iter->m_max) + 1U) != static_cast<std::uintmax_t>(nextIter->m_min))) {
+                break;
+            }
+
+            assert(!isLess(nextIter->m_min, iter->m_min));
             nextIter->m_deprecatedSince = 0U; // invalidate next range
-            iter->m_max = std::max(iter->m_max, nextIter->m_max);
+            if (isLess(iter->m_max, nextIter->m_max)) {
+                iter->m_max = nextIter->m_max;
+            }
         }
     }
 
-- 
2.43.0


From 363e208395552703b68c9763295b6ee828458612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 002/114] fix: keep aliases and valid conditions of copied
 bundle and bitfield fields

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 4 ++++
 lib/src/parse/ParseBundleFieldImpl.cpp   | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index c1c9750..838ac73 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -57,6 +57,10 @@ ParseBitfieldFieldImpl::ParseBitfieldFieldImpl(const ParseBitfieldFieldImpl& oth
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBitfieldFieldImpl::ParseMembers ParseBitfieldFieldImpl::parseMembersList() const
diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 43898b3..e5dfc6c 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -64,6 +64,15 @@ ParseBundleFieldImpl::ParseBundleFieldImpl(const ParseBundleFieldImpl& other)
     for (auto& m : other.m_members) {
         m_members.push_back(m->parseClone());
     }
+
+    m_aliases.reserve(other.m_aliases.size());
+    for (auto& a : other.m_aliases) {
+        m_aliases.push_back(a->parseClone());
+    }
+
+    if (other.m_validCond) {
+        m_validCond = other.m_validCond->parseClone();
+    }
 }
 
 ParseBundleFieldImpl::ParseMembers ParseBundleFieldImpl::parseMembersList() const
-- 
2.43.0


From 68c4035f17d1f46e8cd04139e3fa18edcbf4f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 003/114] fix: keep dotted aliases on reuse and copying of
 fields

---
 lib/src/parse/ParseBundleFieldImpl.cpp | 9 +++++++--
 lib/src/parse/ParseInterfaceImpl.cpp   | 9 +++++++--
 lib/src/parse/ParseMessageImpl.cpp     | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index e5dfc6c..4872a81 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -455,7 +455,9 @@ bool ParseBundleFieldImpl::parseUpdateAliases()
                 m_aliases.begin(), m_aliases.end(),
                 [this](auto& alias)
                 {
-                    auto& fieldName = alias->parseFieldName();
+                    auto& aliasedName = alias->parseFieldName();
+                    auto dotPos = aliasedName.find_first_of('.');
+                    auto fieldName = aliasedName.substr(0, dotPos);
                     auto iter =
                         std::find_if(
                             m_members.begin(), m_members.end(),
@@ -464,7 +466,10 @@ bool ParseBundleFieldImpl::parseUpdateAliases()
                                 return m->parseName() == fieldName;
                             });
 
-                    return iter == m_members.end();
+                    return
+                        (iter == m_members.end()) ||
+                        ((dotPos < aliasedName.size()) &&
+                         (!(*iter)->parseVerifyAliasedMember(aliasedName.substr(dotPos + 1U))));
                 }),
             m_aliases.end());
     }
diff --git a/lib/src/parse/ParseInterfaceImpl.cpp b/lib/src/parse/ParseInterfaceImpl.cpp
index 608c5f5..15b8f7a 100644
--- a/lib/src/parse/ParseInterfaceImpl.cpp
+++ b/lib/src/parse/ParseInterfaceImpl.cpp
@@ -576,7 +576,9 @@ bool ParseInterfaceImpl::parseCopyAliases()
                 m_state.m_aliases.begin(), m_state.m_aliases.end(),
                 [this](auto& alias)
                 {
-                    auto& fieldName = alias->parseFieldName();
+                    auto& aliasedName = alias->parseFieldName();
+                    auto dotPos = aliasedName.find_first_of('.');
+                    auto fieldName = aliasedName.substr(0, dotPos);
                     assert(!fieldName.empty());
                     auto fieldIter =
                         std::find_if(
@@ -586,7 +588,10 @@ bool ParseInterfaceImpl::parseCopyAliases()
                                 return fieldName == f->parseName();
                             });
 
-                    return fieldIter == m_state.m_fields.end();
+                    return
+                        (fieldIter == m_state.m_fields.end()) ||
+                        ((dotPos < aliasedName.size()) &&
+                         (!(*fieldIter)->parseVerifyAliasedMember(aliasedName.substr(dotPos + 1U))));
                 }),
             m_state.m_aliases.end());
     }
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index cf7cf0f..fe098a4 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -964,7 +964,9 @@ bool ParseMessageImpl::parseCopyAliases()
                 m_state.m_aliases.begin(), m_state.m_aliases.end(),
                 [this](auto& alias)
                 {
-                    auto& fieldName = alias->parseFieldName();
+                    auto& aliasedName = alias->parseFieldName();
+                    auto dotPos = aliasedName.find_first_of('.');
+                    auto fieldName = aliasedName.substr(0, dotPos);
                     assert(!fieldName.empty());
                     auto fieldIter =
                         std::find_if(
@@ -974,7 +976,10 @@ bool ParseMessageImpl::parseCopyAliases()
                                 return fieldName == f->parseName();
                             });
 
-                    return fieldIter == m_state.m_fields.end();
+                    return
+                        (fieldIter == m_state.m_fields.end()) ||
+                        ((dotPos < aliasedName.size()) &&
+                         (!(*fieldIter)->parseVerifyAliasedMember(aliasedName.substr(dotPos + 1U))));
                 }),
             m_state.m_aliases.end());
     }
-- 
2.43.0


From 9875463697dc0804a5341ba65018cfe81e0c888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 004/114] fix: allow reuse of messages with order or platforms

---
 lib/src/parse/ParseMessageImpl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index fe098a4..348617b 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -539,7 +539,6 @@ bool ParseMessageImpl::parseUpdateOrder()
 
     auto iter = m_props.find(common::parseOrderStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_order == 0U);
         return true;
     }
 
@@ -615,7 +614,6 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     auto iter = m_props.find(common::parsePlatformsStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_platforms.empty());
         return true;
     }
 
@@ -681,6 +679,7 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     assert(op == Minus);
     assert(platList.size() <= allPlatforms.size());
+    m_state.m_platforms.clear();
     m_state.m_platforms.reserve(allPlatforms.size() - platList.size());
     std::set_difference(
         allPlatforms.begin(), allPlatforms.end(),
-- 
2.43.0


From 596dc6b217700061b4716258c0d67c9c16357f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 005/114] fix: keep endian of the reused float fields

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index 539e57a..e4af283 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -319,6 +319,10 @@ bool ParseFloatFieldImpl::parseUpdateEndian()
     }
 
     auto& endianStr = common::parseGetStringProp(parseProps(), common::parseEndianStr());
+    if ((endianStr.empty()) && (m_state.m_endian != ParseEndian_NumOfValues)) {
+        return true;
+    }
+
     m_state.m_endian = common::parseEndian(endianStr, parseProtocol().parseCurrSchema().parseEndian());
     if (m_state.m_endian == ParseEndian_NumOfValues) {
         parseReportUnexpectedPropertyValue(common::parseEndianStr(), endianStr);
-- 
2.43.0


From 185cea21ca903db7f16f03a8b6843c5394731675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 006/114] fix: reject clearing of nonUniqueAllowed of the
 reused enum with repeating values

---
 lib/src/parse/ParseEnumFieldImpl.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseEnumFieldImpl.cpp b/lib/src/parse/ParseEnumFieldImpl.cpp
index e708ca5..54280fa 100644
--- a/lib/src/parse/ParseEnumFieldImpl.cpp
+++ b/lib/src/parse/ParseEnumFieldImpl.cpp
@@ -388,7 +388,20 @@ bool ParseEnumFieldImpl::parseUpdateBitLength()
 
 bool ParseEnumFieldImpl::parseUpdateNonUniqueAllowed()
 {
-    return parseValidateAndUpdateBoolPropValue(common::parseNonUniqueAllowedStr(), m_state.m_nonUniqueAllowed);
+    bool newAllowed = m_state.m_nonUniqueAllowed;
+    if (!parseValidateAndUpdateBoolPropValue(common::parseNonUniqueAllowedStr(), newAllowed)) {
+        return false;
+    }
+
+    if (m_state.m_nonUniqueAllowed && (!newAllowed) && (!parseIsUnique())) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+            "Cannot clear \"" << common::parseNonUniqueAllowedStr() << "\" property value "
+            "while having multiple names for the same value.";
+        return false;
+    }
+
+    m_state.m_nonUniqueAllowed = newAllowed;
+    return true;
 }
 
 bool ParseEnumFieldImpl::parseUpdateValidCheckVersion()
-- 
2.43.0


From 64087383f636dafd88da9eb89b01622d6b53a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 007/114] fix: take whole text of the property element split by
 comments or CDATA sections

---
 lib/src/parse/ParseXmlWrap.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseXmlWrap.cpp b/lib/src/parse/ParseXmlWrap.cpp
index abc904e..e72fdde 100644
--- a/lib/src/parse/ParseXmlWrap.cpp
+++ b/lib/src/parse/ParseXmlWrap.cpp
@@ -110,15 +110,17 @@ std::string ParseXmlWrap::parseGetText(::xmlNodePtr node)
         child = child->next;
     }
 
+    // The text may be split into several nodes by comments and CDATA sections
+    std::string result;
     child = node->children;
     while (child != nullptr) {
-        if (child->type == XML_TEXT_NODE) {
+        if ((child->type == XML_TEXT_NODE) || (child->type == XML_CDATA_SECTION_NODE)) {
             ParseStringPtr valuePtr(::xmlNodeGetContent(child));
-            return std::string(reinterpret_cast<const char*>(valuePtr.get()));
+            result += reinterpret_cast<const char*>(valuePtr.get());
         }
         child = child->next;
     }
-    return std::string();
+    return result;
 }
 
 bool ParseXmlWrap::parseNodeValue(
-- 
2.43.0


From 4c34d8d6d6f0a3619dbce99eba015dab3db7cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 008/114] fix: accept single conditions given as text of the
 child element

---
 lib/src/parse/ParseXmlWrap.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/parse/ParseXmlWrap.cpp b/lib/src/parse/ParseXmlWrap.cpp
index e72fdde..766ba9c 100644
--- a/lib/src/parse/ParseXmlWrap.cpp
+++ b/lib/src/parse/ParseXmlWrap.cpp
@@ -82,6 +82,13 @@ ParseXmlWrap::ParseNodesList ParseXmlWrap::parseGetChildren(::xmlNodePtr node, c
                     // Skip one with the value attribute
                     break;
                 }
+
+                auto text = parseGetText(cur);
+                common::parseRemoveHeadingTrailingWhitespaces(text);
+                if (!text.empty()) {
+                    // Skip one with the value given as text
+                    break;
+                }
             }
 
             std::string elemName(reinterpret_cast<const char*>(cur->name));
-- 
2.43.0


From 8b509e2d568bafcdb823c1c648bf44cc6fe1a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 009/114] fix: take display name of the namespace from its
 later definitions too

---
 lib/src/parse/ParseNamespaceImpl.cpp | 12 ++++++++++++
 lib/src/parse/ParseNamespaceImpl.h   |  5 +++++
 lib/src/parse/ParseProtocolImpl.cpp  | 12 ++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/lib/src/parse/ParseNamespaceImpl.cpp b/lib/src/parse/ParseNamespaceImpl.cpp
index 43caaea..519cc7a 100644
--- a/lib/src/parse/ParseNamespaceImpl.cpp
+++ b/lib/src/parse/ParseNamespaceImpl.cpp
@@ -547,6 +547,18 @@ bool ParseNamespaceImpl::processNamespace(::xmlNodePtr node)
             }
         }
 
+        if ((!nsToProcess->parseDisplayName().empty()) &&
+            (nsToProcess->parseDisplayName() != realNs->parseDisplayName())) {
+            if (realNs->parseDisplayName().empty()) {
+                realNs->parseUpdateDisplayName(nsToProcess->parseDisplayName());
+            }
+            else {
+                parseLogWarning() << ParseXmlWrap::parseLogPrefix(nsToProcess->parseGetNode()) <<
+                    "Display name of namespace \"" << nsToProcess->parseName() << "\" differs to "
+                    "one encountered before.";
+            }
+        }
+
         if (!nsToProcess->parseExtraAttributes().empty()) {
             for (auto& a : nsToProcess->parseExtraAttributes()) {
                 auto attIter = realNs->parseExtraAttributes().find(a.first);
diff --git a/lib/src/parse/ParseNamespaceImpl.h b/lib/src/parse/ParseNamespaceImpl.h
index d737768..f8e7684 100644
--- a/lib/src/parse/ParseNamespaceImpl.h
+++ b/lib/src/parse/ParseNamespaceImpl.h
@@ -124,6 +124,11 @@ public:
         m_description = value;
     }
 
+    void parseUpdateDisplayName(const std::string& value)
+    {
+        m_displayName = value;
+    }
+
     const ParseInterfacesMap& parseInterfaces() const
     {
         return m_interfaces;
diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 05259e6..e33582d 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -774,6 +774,18 @@ bool ParseProtocolImpl::parseValidateNamespaces(::xmlNodePtr root)
                     }
                 }
 
+                if ((!nsToProcess->parseDisplayName().empty()) &&
+                    (nsToProcess->parseDisplayName() != realNs->parseDisplayName())) {
+                    if (realNs->parseDisplayName().empty()) {
+                        realNs->parseUpdateDisplayName(nsToProcess->parseDisplayName());
+                    }
+                    else {
+                        parseLogWarning() << ParseXmlWrap::parseLogPrefix(nsToProcess->parseGetNode()) <<
+                            "Display name of namespace \"" << nsToProcess->parseName() << "\" differs to "
+                            "one encountered before.";
+                    }
+                }
+
                 if (!nsToProcess->parseExtraAttributes().empty()) {
                     for (auto& a : nsToProcess->parseExtraAttributes()) {
                         auto attIter = realNs->parseExtraAttributes().find(a.first);
-- 
2.43.0


From eac25e69644dadb24c7c4f33b28b2cad2b766c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 010/114] fix: resolve inner references of the optional field
 with an external field

---
 lib/src/parse/ParseOptionalFieldImpl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index dafbcdc..437f51b 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -249,11 +249,12 @@ ParseOptionalFieldImpl::ParseFieldRefInfo ParseOptionalFieldImpl::parseProcessIn
         restStr = refStr.substr(sepPos + 1);
     }
 
-    if (fieldName != m_field->parseName()) {
+    auto* field = parseGetField();
+    if (fieldName != field->parseName()) {
         return ParseFieldRefInfo();
     }
 
-    return m_field->parseProcessInnerRef(restStr);
+    return field->parseProcessInnerRef(restStr);
 }
 
 bool ParseOptionalFieldImpl::parseIsValidRefTypeImpl(ParseFieldRefType type) const
-- 
2.43.0


From 1583c94b1799df4acf35db21b4261bc4d39d639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 011/114] fix: ignore non-existing ranges when unifying valid
 ranges, treat only unsigned types as big unsigned

---
 app/commsdsl2comms/src/CommsIntField.cpp | 33 ++++++++++++------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 975805f..5d5a043 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -919,31 +919,35 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto type = obj.parseType();
     bool bigUnsigned =
         (type == commsdsl::parse::ParseIntField::ParseType::Uint64) ||
-        ((type != commsdsl::parse::ParseIntField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
+        (type == commsdsl::parse::ParseIntField::ParseType::Uintvar);
 
     bool validCheckVersion =
         genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
         obj.parseValidCheckVersion();
 
+    // Non-existing ranges must not be unified with the existing ones
+    validRanges.erase(
+        std::remove_if(
+            validRanges.begin(), validRanges.end(),
+            [this, validCheckVersion](auto& r)
+            {
+                return !this->genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, !validCheckVersion);
+            }),
+        validRanges.end());
+
     if (!validCheckVersion) {
         // unify
         std::size_t idx = 0U;
-        while (idx < (validRanges.size() - 1U)) {
+        while ((idx + 1U) < validRanges.size()) {
             auto& thisRange = validRanges[idx];
             auto& nextRange = validRanges[idx + 1];
 
             auto needToMergeCheck =
-                [](auto min1, auto max1, auto min2, auto max2) -> bool
+                [](auto min1, auto max1, auto min2) -> bool
                 {
                     static_cast<void>(min1);
-                    static_cast<void>(max2);
                     assert(min1 <= min2);
-                    if (min2 <= (max1 + 1)) {
-                        assert(max1 <= max2);
-                        return true;
-                    }
-
-                    return false;
+                    return (min2 <= max1) || ((min2 - 1) == max1);
                 };
 
             bool merge = false;
@@ -952,11 +956,10 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
                     needToMergeCheck(
                         static_cast<std::uintmax_t>(thisRange.m_min),
                         static_cast<std::uintmax_t>(thisRange.m_max),
-                        static_cast<std::uintmax_t>(nextRange.m_min),
-                        static_cast<std::uintmax_t>(nextRange.m_max));
+                        static_cast<std::uintmax_t>(nextRange.m_min));
             }
             else {
-                merge = needToMergeCheck(thisRange.m_min, thisRange.m_max, nextRange.m_min, nextRange.m_max);
+                merge = needToMergeCheck(thisRange.m_min, thisRange.m_max, nextRange.m_min);
             }
 
             if (!merge) {
@@ -992,10 +995,6 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     bool versionStorageRequired = false;
     bool addedRangeOpt = false;
     for (auto& r : validRanges) {
-        if (!genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, !validCheckVersion)) {
-            continue;
-        }
-
         if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, false))) {
             versionStorageRequired = true;
             continue;
-- 
2.43.0


From b2abe010e6d56516e0cc1292b5ee9e218f00fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 012/114] fix: treat only unsigned types as big unsigned in
 valid values of enum fields

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index f3e233e..8ef01f0 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -1259,7 +1259,7 @@ void CommsEnumField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto type = obj.parseType();
     bool bigUnsigned =
         (type == commsdsl::parse::ParseEnumField::ParseType::Uint64) ||
-        ((type != commsdsl::parse::ParseEnumField::ParseType::Uintvar) && (obj.parseMaxLength() >= sizeof(std::int64_t)));
+        (type == commsdsl::parse::ParseEnumField::ParseType::Uintvar);
 
     bool validCheckVersion =
         genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
-- 
2.43.0


From 22ed552fd5c17981e5ec2c445da7a0389930d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 013/114] fix: write floating point values into the generated
 code without loss of precision

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index f61763b..eb5a6c5 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -25,6 +25,9 @@
 #include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 
 namespace util = commsdsl::gen::util;
 namespace comms = commsdsl::gen::comms;
@@ -91,7 +94,10 @@ std::string commsValueToString(double val, commsdsl::parse::ParseFloatField::Par
         return "std::numeric_limits<ValueType>::max()";
     }
 
-    return "static_cast<ValueType>(" + std::to_string(val) + ")";
+    // Fixed number of digits after decimal point loses small values and precision
+    std::ostringstream stream;
+    stream << std::showpoint << std::setprecision(std::numeric_limits<double>::max_digits10) << val;
+    return "static_cast<ValueType>(" + stream.str() + ")";
 }
 
 std::string commsCmpToString(double val, commsdsl::parse::ParseFloatField::ParseType type)
-- 
2.43.0


From efbeee0385848e2128918cfc55f2a9676ed528ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 014/114] fix: report unknown field type inside length / count
 prefix instead of asserting

---
 lib/src/parse/ParseDataFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseListFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseStringFieldImpl.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index ffcd923..aab0f58 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -447,8 +447,8 @@ bool ParseDataFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 66e1e0c..20df205 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -714,8 +714,8 @@ bool ParseListFieldImpl::parseCheckPrefixAsChild(
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index bc28561..f889637 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -547,8 +547,8 @@ bool ParseStringFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
-- 
2.43.0


From 46ae0f8341b39e8412c7383218942cee3d578a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 015/114] fix: report empty field definition of optional fields
 and layers instead of crashing

---
 lib/src/parse/ParseLayerImpl.cpp         | 7 +++++++
 lib/src/parse/ParseOptionalFieldImpl.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/src/parse/ParseLayerImpl.cpp b/lib/src/parse/ParseLayerImpl.cpp
index a15c1e4..dc877cd 100644
--- a/lib/src/parse/ParseLayerImpl.cpp
+++ b/lib/src/parse/ParseLayerImpl.cpp
@@ -567,6 +567,13 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
+            if (fields.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                    "The \"" << common::parseFieldStr() << "\" node "
+                    "is expected to define field as child element";
+                return false;
+            }
+
             fieldNode = fields.front();
             break;
         }
diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index 437f51b..86ef32f 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -491,6 +491,13 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
+            if (fields.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                    "The \"" << common::parseFieldStr() << "\" node "
+                    "is expected to define field as child element";
+                return false;
+            }
+
             fieldNode = fields.front();
             break;
         }
-- 
2.43.0


From 6f23de11386206d17b65ab354b54e3e228928747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 016/114] fix: report empty list of replaced members instead of
 asserting

---
 lib/src/parse/ParseFieldImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index f9e36ad..d388753 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1147,7 +1147,12 @@ bool ParseFieldImpl::parseCheckReplace()
         replMembers.push_back(std::move(field));
     }
 
-    assert(!replMembers.empty());
+    if (replMembers.empty()) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
+            "The \"" << common::parseReplaceStr() << "\" child node element must contain at least one member field.";
+        return false;
+    }
+
     return parseReplaceMembersImpl(replMembers);
 }
 
-- 
2.43.0


From 8ed5767e70cddef870c29ab25c3541275ac1fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 017/114] fix: report unknown field type of replaced members
 instead of asserting

---
 lib/src/parse/ParseFieldImpl.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index d388753..5f4dff3 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1132,10 +1132,8 @@ bool ParseFieldImpl::parseCheckReplace()
         std::string fieldKind(reinterpret_cast<const char*>(fieldNode->name));
         auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
         if (!field) {
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
-            parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
-                "Internal error, failed to create objects for member fields to replace.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+                "Unknown field type \"" << fieldKind << "\".";
             return false;
         }
 
-- 
2.43.0


From 3150e2bf23b70d28de6bfbc50d0ac5bc295e2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 018/114] fix: reject bit lengths of bitfield members which are
 0 or exceed the maximal length

---
 lib/src/parse/ParseEnumFieldImpl.cpp | 2 +-
 lib/src/parse/ParseIntFieldImpl.cpp  | 2 +-
 lib/src/parse/ParseRefFieldImpl.cpp  | 2 +-
 lib/src/parse/ParseSetFieldImpl.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseEnumFieldImpl.cpp b/lib/src/parse/ParseEnumFieldImpl.cpp
index 54280fa..3d5cfb5 100644
--- a/lib/src/parse/ParseEnumFieldImpl.cpp
+++ b/lib/src/parse/ParseEnumFieldImpl.cpp
@@ -374,7 +374,7 @@ bool ParseEnumFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 4782eed..6a364e3 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -641,7 +641,7 @@ bool ParseIntFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index e3f47ed..959c50e 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -254,7 +254,7 @@ bool ParseRefFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index e9a4515..1f62444 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -375,7 +375,7 @@ bool ParseSetFieldImpl::parseUpdateLength()
 
         bool ok = false;
         m_state.m_bitLength = static_cast<decltype(m_state.m_bitLength)>(common::parseStrToUintMax(bitLengthStr, &ok));
-        if ((!ok) || (m_state.m_bitLength == 0U)) {
+        if ((!ok) || (m_state.m_bitLength == 0U) || ((maxLength * 8U) < m_state.m_bitLength)) {
             parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
             return false;
         }
-- 
2.43.0


From 841fc250a77a4d89fe022d52074c5b94248ceb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 019/114] fix: report failure to read the input file through
 the error reporting callback

---
 lib/src/parse/ParseProtocolImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index e33582d..06d37f7 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -69,7 +69,7 @@ bool ParseProtocolImpl::parse(const std::string& input)
 
     ParseXmlDocPtr doc(xmlParseFile(input.c_str()));
     if (!doc) {
-        std::cerr << "ERROR: Failed to parse" << input << std::endl;
+        parseLogError() << "Failed to parse " << input;
         return false;
     }
 
-- 
2.43.0


From b8ba4227ac1df583c46ddaee2c19bf1f194d6d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 020/114] fix: don't leave dangling global libxml2 error
 function, report errors to the object which parses

---
 lib/src/parse/ParseProtocolImpl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 06d37f7..99061e4 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -56,7 +56,6 @@ ParseProtocolImpl::ParseProtocolImpl() :
         }
     )
 {
-    xmlSetStructuredErrorFunc(this, static_cast<xmlStructuredErrorFunc>(&ParseProtocolImpl::parseCbXmlErrorFunc));
     m_logger.parseSetMinLevel(m_minLevel);
 }
 
@@ -67,7 +66,10 @@ bool ParseProtocolImpl::parse(const std::string& input)
         return false;
     }
 
+    // The error function is global, it must not outlive this object or receive errors of another one
+    xmlSetStructuredErrorFunc(this, static_cast<xmlStructuredErrorFunc>(&ParseProtocolImpl::parseCbXmlErrorFunc));
     ParseXmlDocPtr doc(xmlParseFile(input.c_str()));
+    xmlSetStructuredErrorFunc(nullptr, nullptr);
     if (!doc) {
         parseLogError() << "Failed to parse " << input;
         return false;
-- 
2.43.0


From eb1e5d0e52633e589719773de4a129b356e22d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 021/114] fix: report invalid platform name as error, parsing
 fails because of it

---
 lib/src/parse/ParseProtocolImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 99061e4..709da0b 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -714,8 +714,8 @@ bool ParseProtocolImpl::parseValidateSinglePlatform(::xmlNodePtr node)
     static const std::string InvalidChars("+-,");
     auto pos = name.find_first_of(InvalidChars);
     if (pos != std::string::npos) {
-        parseLogWarning() << ParseXmlWrap::parseLogPrefix(node) <<
-            "Invalid platform name (" << name << ".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
+            "Invalid platform name (" << name << ").";
         return false;
     }
 
-- 
2.43.0


From 892c1b613ea9aede7261d8000ed7e1c6a66ec2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 022/114] fix: report error when size of a field is compared to
 invalid value

---
 lib/src/parse/ParseOptCondImpl.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseOptCondImpl.cpp b/lib/src/parse/ParseOptCondImpl.cpp
index 88e2d7a..76ce1a8 100644
--- a/lib/src/parse/ParseOptCondImpl.cpp
+++ b/lib/src/parse/ParseOptCondImpl.cpp
@@ -443,7 +443,13 @@ bool ParseOptCondExprImpl::parseVerifySiblingComparison(const ParseOptCondImpl::
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        if (!parseVerifyValidSizeValueComparison()) {
+            parseLogError(logger) << ParseXmlWrap::parseLogPrefix(node) <<
+                "The size of \"" << m_left << "\" cannot be compared to value \"" << m_right << "\".";
+            return false;
+        }
+
+        return true;
     }
 
     if (leftInfo.m_refType != ParseFieldImpl::FieldRefType_Field) {
@@ -523,7 +529,13 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        if (!parseVerifyValidSizeValueComparison()) {
+            parseLogError(logger) << ParseXmlWrap::parseLogPrefix(node) <<
+                "The size of \"" << m_left << "\" cannot be compared to value \"" << m_right << "\".";
+            return false;
+        }
+
+        return true;
     }
 
     parseDiscardNonFieldReferences(leftFields);
-- 
2.43.0


From 5764b5625652d7f8fd025da30b48847d7ca0482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 023/114] fix: allow repeated nan or infinity among valid
 values of float field instead of asserting

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index e4af283..35e8311 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -510,7 +510,7 @@ bool ParseFloatFieldImpl::parseUpdateValidRanges()
                 return elem1.m_sinceVersion < elem2.m_sinceVersion;
             }
 
-            assert(elem1.m_deprecatedSince != elem2.m_deprecatedSince);
+            // nan and infinity are not merged and may be repeated
             return elem1.m_deprecatedSince < elem2.m_deprecatedSince;
         });
 
-- 
2.43.0


From e6af2a88e97647c8549dfde40a2d7cdd460c387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 024/114] fix: support non-int count prefix with length
 semantics when calculating maximal length of list

---
 lib/src/parse/ParseListFieldImpl.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 20df205..8a43d5b 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -186,9 +186,16 @@ std::size_t ParseListFieldImpl::parseMaxLengthImpl() const
         return extraLen;
     }
 
-    if (parseHasCountPrefixField()) {
+    do {
+        if (!parseHasCountPrefixField()) {
+            break;
+        }
+
         auto* prefixField = parseGetCountPrefixField();
-        assert(prefixField->parseKind() == ParseField::ParseKind::Int);
+        if (prefixField->parseKind() != ParseField::ParseKind::Int) {
+            break;
+        }
+
         auto& castedPrefix = static_cast<const ParseIntFieldImpl&>(*prefixField);
         std::size_t count = static_cast<std::size_t>(castedPrefix.parseMaxValue());
         auto result = common::parseMulLength(elemMaxLength, count);
@@ -201,7 +208,7 @@ std::size_t ParseListFieldImpl::parseMaxLengthImpl() const
 
         common::parseAddToLength(extraLen, result);
         return result;
-    }
+    } while (false);
 
     do {
         if (!parseHasLengthPrefixField()) {
-- 
2.43.0


From 02228055d5bfe052dee15e9558d1e79e871a5940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 025/114] fix: treat empty reference to field, message or
 interface as not found instead of asserting

---
 lib/src/parse/ParseProtocolImpl.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 709da0b..b52b3a2 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -128,7 +128,10 @@ const ParseSchemaImpl& ParseProtocolImpl::parseCurrSchema() const
 
 const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -143,7 +146,10 @@ const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref,
 
 const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -158,7 +164,10 @@ const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& r
 
 const ParseInterfaceImpl* ParseProtocolImpl::parseFindInterface(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
-- 
2.43.0


From 33bf043ac2719ecb2df309fa4870ecd320f0ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 026/114] fix: report empty length and bitLength of set field
 instead of asserting

---
 lib/src/parse/ParseSetFieldImpl.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index 1f62444..30e1c27 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -349,6 +349,11 @@ bool ParseSetFieldImpl::parseUpdateLength()
         m_state.m_length = newLen;
     } while (false);
 
+    if ((m_state.m_length == 0U) && (!parseIsBitfieldMember())) {
+        parseReportUnexpectedPropertyValue(common::parseLengthStr(), lengthStr);
+        return false;
+    }
+
     bool mustHaveBitLength = (parseIsBitfieldMember() && m_state.m_bitLength == 0U && (m_state.m_length == 0U));
     if (!parseValidateSinglePropInstance(common::parseBitLengthStr(), mustHaveBitLength)) {
         return false;
@@ -358,7 +363,11 @@ bool ParseSetFieldImpl::parseUpdateLength()
     do {
         if (bitLengthStr.empty()) {
             if (m_state.m_bitLength == 0U) {
-                assert(m_state.m_length != 0U);
+                if (m_state.m_length == 0U) {
+                    parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
+                    return false;
+                }
+
                 m_state.m_bitLength = m_state.m_length * 8U;
             }
             break;
-- 
2.43.0


From 29228c789b25d6bd9d7ca883147e02a9ee813cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 027/114] fix: report invalid reference in the value of data
 field instead of asserting

---
 lib/src/parse/ParseDataFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index aab0f58..ea9b528 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -544,7 +544,7 @@ const ParseFieldImpl* ParseDataFieldImpl::parseGetPrefixField() const
 bool ParseDataFieldImpl::parseStrToValue(const std::string& str, ParseValueType& val) const
 {
     if ((!str.empty()) && (str[0] == common::parseStringRefPrefix()) && parseProtocol().parseIsFieldValueReferenceSupported()) {
-        return parseProtocol().parseStrToData(std::string(str, 1), false, val);
+        return parseProtocol().parseStrToData(std::string(str, 1), true, val);
     }
 
     std::string adjStr = str;
-- 
2.43.0


From f4d087d2d4446c1bdd65ab1480b3742427d7eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 028/114] fix: reject bitfield with empty list of members

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index 838ac73..51be17c 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -379,6 +379,12 @@ bool ParseBitfieldFieldImpl::parseUpdateMembers()
             return false;
         }
 
+        if (m_members.empty()) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                          "The \"" << common::parseBitparseFieldStr() << "\" must contain member fields.";
+            return false;
+        }
+
         auto totalBitLength =
             std::accumulate(
                 m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
-- 
2.43.0


From 9b8ee6d7275af58912c479e5cb22e97b368dff0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 029/114] fix: avoid overflow when checking minimal
 serialisation offset

---
 lib/src/parse/ParseIntFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 6a364e3..c93a585 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -696,7 +696,7 @@ bool ParseIntFieldImpl::parseUpdateMinMaxValues()
 
         auto diff = (m_state.m_typeAllowedMaxValue - m_state.m_typeAllowedMinValue);
         assert(diff <= static_cast<decltype(diff)>(std::numeric_limits<std::uint32_t>::max()));
-        if (std::abs(m_state.m_serOffset) < diff) {
+        if ((-diff < m_state.m_serOffset) && (m_state.m_serOffset < diff)) {
             break;
         }
 
-- 
2.43.0


From 9fe15acb2563b9bb7ef04cf9cc41e79f53225ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 030/114] fix: allow replacing several copied fields of a
 message, reject unsupported elements among them

---
 lib/src/parse/ParseMessageImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 348617b..33c9d50 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -857,7 +857,7 @@ bool ParseMessageImpl::parseReplaceFields()
     }
 
     auto fieldsTypes = ParseXmlWrap::parseGetChildren(replaceNodes.front(), parseMessageSupportedTypes());
-    if (fieldsTypes.size() != replaceNodes.size()) {
+    if (fieldsTypes.size() != ParseXmlWrap::parseGetChildren(replaceNodes.front()).size()) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
             "The \"" << common::parseReplaceStr() << "\" child node of \"" <<
             common::parseMessageStr() << "\" element must contain only supported field types.";
-- 
2.43.0


From f7ad52aede808f9aa6fba55b2bd7118b0107752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 031/114] fix: reject trailing garbage, sign and overflow in
 numeric values instead of truncating

---
 lib/src/parse/parse_common.cpp | 62 ++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index f473aba..9fbaadd 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -37,6 +37,11 @@ namespace
 
 const std::size_t MaxPossibleLength = std::numeric_limits<std::size_t>::max();
 
+bool parseIsSpaceOnlyFrom(const std::string& str, std::size_t pos)
+{
+    return str.find_first_not_of(" \t\r\n", pos) == std::string::npos;
+}
+
 }
 
 const std::string& parseEmptyString()
@@ -937,34 +942,29 @@ char parseInterfaceRefPrefix()
 
 unsigned parseStrToUnsigned(const std::string& str, bool* ok, int base)
 {
-    unsigned result = 0U;
-    try {
-        result = static_cast<decltype(result)>(std::stoul(str, 0, base));
-        if (ok != nullptr) {
-            *ok = true;
-        }
-
-    } catch (...) {
-        if (ok != nullptr) {
-            *ok = false;
-        }
+    bool valid = false;
+    auto result = parseStrToUintMax(str, &valid, base);
+    valid = valid && (result <= std::numeric_limits<unsigned>::max());
+    if (ok != nullptr) {
+        *ok = valid;
     }
-    return result;
+    return static_cast<unsigned>(result);
 }
 
 std::intmax_t parseStrToIntMax(const std::string& str, bool* ok, int base)
 {
     std::intmax_t result = 0;
+    bool valid = false;
     try {
-        result = std::stoll(str, 0, base);
-        if (ok != nullptr) {
-            *ok = true;
-        }
-
+        std::size_t pos = 0U;
+        result = std::stoll(str, &pos, base);
+        valid = parseIsSpaceOnlyFrom(str, pos);
     } catch (...) {
-        if (ok != nullptr) {
-            *ok = false;
-        }
+        valid = false;
+    }
+
+    if (ok != nullptr) {
+        *ok = valid;
     }
     return result;
 }
@@ -972,16 +972,17 @@ std::intmax_t parseStrToIntMax(const std::string& str, bool* ok, int base)
 std::uintmax_t parseStrToUintMax(const std::string& str, bool* ok, int base)
 {
     std::uintmax_t result = 0U;
+    bool valid = false;
     try {
-        result = std::stoull(str, 0, base);
-        if (ok != nullptr) {
-            *ok = true;
-        }
-
+        std::size_t pos = 0U;
+        result = std::stoull(str, &pos, base);
+        valid = parseIsSpaceOnlyFrom(str, pos) && (str.find('-') == std::string::npos);
     } catch (...) {
-        if (ok != nullptr) {
-            *ok = false;
-        }
+        valid = false;
+    }
+
+    if (ok != nullptr) {
+        *ok = valid;
     }
     return result;
 }
@@ -1012,8 +1013,9 @@ double parseStrToDouble(const std::string& str, bool* ok, bool allowSpecials)
 
     double result = 0.0;
     try {
-        result = std::stod(str, 0);
-        updateOk(true);
+        std::size_t pos = 0U;
+        result = std::stod(str, &pos);
+        updateOk(parseIsSpaceOnlyFrom(str, pos));
 
     } catch (...) {
         updateOk(false);
-- 
2.43.0


From 40ee0c57e692b946231ba7a3aafdf075357b13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 032/114] fix: verify validateMinLength of messages which do
 not define own fields

---
 lib/src/parse/ParseMessageImpl.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 33c9d50..0570a8e 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -1062,18 +1062,17 @@ bool ParseMessageImpl::parseUpdateFields()
         if (!ParseFieldImpl::parseValidateMembersNames(m_state.m_fields, m_protocol.parseLogger())) {
             return false;
         }
+    } while (false);
 
-        if (0 <= m_state.m_validateMinLength) {
-            auto len = parseMinLength();
-            if (static_cast<unsigned>(m_state.m_validateMinLength) != len) {
-                parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                    "The calculated minimal length of the message is " << len <<
-                    " while expected is " << m_state.m_validateMinLength << " (specified with \"" << common::parseValidateMinLengthStr() << "\" property).";
-                return false;
-            }
+    if (0 <= m_state.m_validateMinLength) {
+        auto len = parseMinLength();
+        if (static_cast<unsigned>(m_state.m_validateMinLength) != len) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                "The calculated minimal length of the message is " << len <<
+                " while expected is " << m_state.m_validateMinLength << " (specified with \"" << common::parseValidateMinLengthStr() << "\" property).";
+            return false;
         }
-
-    } while (false);
+    }
 
     return true;
 }
-- 
2.43.0


From 98075b6130acac918d270b7e600fbb683dfeb31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 033/114] fix: look for duplicate message ids in all levels of
 nested namespaces

---
 lib/src/parse/ParseNamespaceImpl.cpp | 17 +++++++++++------
 lib/src/parse/ParseNamespaceImpl.h   |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/src/parse/ParseNamespaceImpl.cpp b/lib/src/parse/ParseNamespaceImpl.cpp
index 519cc7a..349f3d4 100644
--- a/lib/src/parse/ParseNamespaceImpl.cpp
+++ b/lib/src/parse/ParseNamespaceImpl.cpp
@@ -219,6 +219,16 @@ ParseNamespaceImpl::ParseMessagesList ParseNamespaceImpl::parseMessagesList() co
     return result;
 }
 
+ParseNamespaceImpl::ParseMessagesList ParseNamespaceImpl::parseAllMessagesList() const
+{
+    auto result = parseMessagesList();
+    for (auto& ns : m_namespaces) {
+        auto nsMsgs = ns.second->parseAllMessagesList();
+        result.insert(result.end(), nsMsgs.begin(), nsMsgs.end());
+    }
+    return result;
+}
+
 ParseNamespaceImpl::ParseInterfacesList ParseNamespaceImpl::parseInterfacesList() const
 {
     ParseInterfacesList result;
@@ -451,12 +461,7 @@ ParseNamespaceImpl::ParseFieldRefInfosList ParseNamespaceImpl::parseProcessInter
 
 bool ParseNamespaceImpl::parseValidateAllMessages(bool allowNonUniquIds)
 {
-    ParseMessagesList allMsgs = parseMessagesList();
-    for (auto& ns : m_namespaces) {
-        auto nsMsgs = ns.second->parseMessagesList();
-        allMsgs.insert(allMsgs.end(), nsMsgs.begin(), nsMsgs.end());
-    }
-
+    ParseMessagesList allMsgs = parseAllMessagesList();
     std::sort(
         allMsgs.begin(), allMsgs.end(),
         [](const auto& msg1, const auto& msg2)
diff --git a/lib/src/parse/ParseNamespaceImpl.h b/lib/src/parse/ParseNamespaceImpl.h
index f8e7684..64bce9a 100644
--- a/lib/src/parse/ParseNamespaceImpl.h
+++ b/lib/src/parse/ParseNamespaceImpl.h
@@ -137,6 +137,7 @@ public:
     ParseNamespacesList parseNamespacesList() const;
     ParseFieldsList parseFieldsList() const;
     ParseMessagesList parseMessagesList() const;
+    ParseMessagesList parseAllMessagesList() const;
     ParseInterfacesList parseInterfacesList() const;
     ParseFramesList parseFramesList() const;
 
-- 
2.43.0


From 579d61b967da27902593d3868822e396e94665a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:22 +0000
Subject: [PATCH 034/114] fix: refuse frames having several layers with the
 same name

---
 lib/src/parse/ParseFrameImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parse/ParseFrameImpl.cpp b/lib/src/parse/ParseFrameImpl.cpp
index 26e4e86..dc9c540 100644
--- a/lib/src/parse/ParseFrameImpl.cpp
+++ b/lib/src/parse/ParseFrameImpl.cpp
@@ -303,6 +303,7 @@ bool ParseFrameImpl::parseUpdateLayers()
             parseLogError() << ParseXmlWrap::parseLogPrefix(lNode) <<
                 "Layer with name \"" << layer->parseName() << "\" has already been "
                 "defined within the same frame.";
+            return false;
         }
 
         if (layer->parseKind() == ParseLayerImpl::ParseKind::Payload) {
-- 
2.43.0


From 641a27fdd568fa61d082bc2b332056b5acb5a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:46 +0000
Subject: [PATCH 035/114] fix: check total length of bitfield after replacing
 its members

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 42 ++++++++++++------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index 51be17c..3141a65 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -384,30 +384,30 @@ bool ParseBitfieldFieldImpl::parseUpdateMembers()
                           "The \"" << common::parseBitparseFieldStr() << "\" must contain member fields.";
             return false;
         }
+    } while (false);
 
-        auto totalBitLength =
-            std::accumulate(
-                m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
-                [](std::size_t soFar, auto& elem) -> std::size_t
-                {
-                    return soFar + elem->parseBitLength();
-                });
+    auto totalBitLength =
+        std::accumulate(
+            m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
+            [](std::size_t soFar, auto& elem) -> std::size_t
+            {
+                return soFar + elem->parseBitLength();
+            });
 
-        if ((totalBitLength % 8U) != 0) {
-            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                          "The summary of member's bit lengths (" << totalBitLength <<
-                          ") is expected to be devisable by 8.";
-            return false;
-        }
+    if ((totalBitLength % 8U) != 0) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                      "The summary of member's bit lengths (" << totalBitLength <<
+                      ") is expected to be devisable by 8.";
+        return false;
+    }
 
-        static const std::size_t MaxBits = std::numeric_limits<std::uint64_t>::digits;
-        if (MaxBits < totalBitLength) {
-            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                          "The summary of member's bit lengths (" << totalBitLength <<
-                          ") cannot be greater than " << MaxBits << '.';
-            return false;
-        }
-    } while (false);
+    static const std::size_t MaxBits = std::numeric_limits<std::uint64_t>::digits;
+    if (MaxBits < totalBitLength) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                      "The summary of member's bit lengths (" << totalBitLength <<
+                      ") cannot be greater than " << MaxBits << '.';
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 5bad816cb9020ad31e914f4d1237557a47cf7ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 036/114] fix: name the file and the line in all the errors
 reported for elements of the schema

---
 lib/src/parse/ParseDataFieldImpl.cpp     | 2 +-
 lib/src/parse/ParseFloatFieldImpl.cpp    | 8 ++++----
 lib/src/parse/ParseLayerImpl.cpp         | 6 +++---
 lib/src/parse/ParseListFieldImpl.cpp     | 8 ++++----
 lib/src/parse/ParseOptionalFieldImpl.cpp | 6 +++---
 lib/src/parse/ParseSetFieldImpl.cpp      | 2 +-
 lib/src/parse/ParseStringFieldImpl.cpp   | 2 +-
 lib/src/parse/ParseSyncLayerImpl.cpp     | 4 ++--
 8 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index ea9b528..61ea9b4 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -407,7 +407,7 @@ bool ParseDataFieldImpl::parseCheckPrefixAsChild()
     }
 
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << common::parseLengthPrefixStr() << "\".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseLengthPrefixStr() << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index 35e8311..977d4ab 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -384,13 +384,13 @@ bool ParseFloatFieldImpl::parseUpdateDefaultValue()
     }
 
     if (m_state.m_typeAllowedMaxValue < m_state.m_defaultValue) {
-        parseLogError() << "Value of property \"" << common::parseDefaultValueStr() <<
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "Value of property \"" << common::parseDefaultValueStr() <<
                         "\" is greater than the type's maximal value.";
         return false;
     }
 
     if (m_state.m_defaultValue < m_state.m_typeAllowedMinValue) {
-        parseLogError() << "Value of property \"" << common::parseDefaultValueStr() <<
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "Value of property \"" << common::parseDefaultValueStr() <<
                         "\" is less than the type's minimal value.";
         return false;
     }
@@ -1075,13 +1075,13 @@ bool ParseFloatFieldImpl::parseValidateValidValueStr(
     }
 
     if (m_state.m_typeAllowedMaxValue < val) {
-        parseLogError() << "Value of property \"" << type <<
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "Value of property \"" << type <<
                         "\" is greater than the type's maximal value.";
         return false;
     }
 
     if (val < m_state.m_typeAllowedMinValue) {
-        parseLogError() << "Value of property \"" << type <<
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "Value of property \"" << type <<
                         "\" is less than the type's minimal value.";
         return false;
     }
diff --git a/lib/src/parse/ParseLayerImpl.cpp b/lib/src/parse/ParseLayerImpl.cpp
index dc877cd..d6e7ee5 100644
--- a/lib/src/parse/ParseLayerImpl.cpp
+++ b/lib/src/parse/ParseLayerImpl.cpp
@@ -502,7 +502,7 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
 {
     auto children = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseFieldStr());
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" child element.";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" child element.";
         return false;
     }
 
@@ -542,7 +542,7 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) != parseProps().end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
             return false;
         }
 
@@ -580,7 +580,7 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
         if (attrs.find(common::parseFieldsStr()) != attrs.end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
             return false;
         }
 
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 8a43d5b..8328134 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -502,7 +502,7 @@ bool ParseListFieldImpl::parseCheckElementAsChild()
     // }
 
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << common::parseElementStr() << "\".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseElementStr() << "\".";
         return false;
     }
 
@@ -542,7 +542,7 @@ bool ParseListFieldImpl::parseCheckElementAsChild()
         }
 
         if (parseProps().find(common::parseElementStr()) != parseProps().end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseElementStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseElementStr() << "\" definition.";
             return false;
         }
 
@@ -580,7 +580,7 @@ bool ParseListFieldImpl::parseCheckElementAsChild()
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
         if (attrs.find(common::parseFieldsStr()) != attrs.end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseElementStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseElementStr() << "\" definition.";
             return false;
         }
 
@@ -682,7 +682,7 @@ bool ParseListFieldImpl::parseCheckPrefixAsChild(
     }
 
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << type << "\".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << type << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index 86ef32f..3167fbf 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -426,7 +426,7 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
 {
     auto children = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseFieldStr());
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" child element.";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" child element.";
         return false;
     }
 
@@ -466,7 +466,7 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) != parseProps().end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
             return false;
         }
 
@@ -504,7 +504,7 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
 
         auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
         if (attrs.find(common::parseFieldsStr()) != attrs.end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseFieldStr() << "\" definition.";
             return false;
         }
 
diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index 30e1c27..f1f6972 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -441,7 +441,7 @@ bool ParseSetFieldImpl::parseUpdateNonUniqueAllowed()
     }
 
     if (wasAllowed && (!newAllowed) && (!parseIsUnique())) {
-        parseLogError() << "Cannot clear \"" << common::parseNonUniqueAllowedStr() << "\" property value "
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "Cannot clear \"" << common::parseNonUniqueAllowedStr() << "\" property value "
                       "while having multiple names for the same bit(s).";
         return false;
     }
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index f889637..446bba8 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -508,7 +508,7 @@ bool ParseStringFieldImpl::parseCheckPrefixAsChild()
     }
 
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << common::parseLengthPrefixStr() << "\".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << common::parseLengthPrefixStr() << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseSyncLayerImpl.cpp b/lib/src/parse/ParseSyncLayerImpl.cpp
index d49a7d2..3ebcdf2 100644
--- a/lib/src/parse/ParseSyncLayerImpl.cpp
+++ b/lib/src/parse/ParseSyncLayerImpl.cpp
@@ -275,12 +275,12 @@ bool ParseSyncLayerImpl::parseCheckEscFieldAsChildInternal()
     }
 
     if (1U < children.size()) {
-        parseLogError() << "There must be only one occurance of \"" << prop << "\" child element.";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << prop << "\" child element.";
         return false;
     }
 
     if (m_extEscField != nullptr) {
-        parseLogError() << "There must be only one occurance of \"" << prop << "\" definition.";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) << "There must be only one occurance of \"" << prop << "\" definition.";
         return false;
     }
 
-- 
2.43.0


From 53abff4b10292b348133b028c2c35a359812dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 037/114] fix: refuse several values of single value properties
 of set, namespace and schema

---
 lib/src/parse/ParseNamespaceImpl.cpp | 6 ++++++
 lib/src/parse/ParseSchemaImpl.cpp    | 6 ++++++
 lib/src/parse/ParseSetFieldImpl.cpp  | 8 ++++++++
 3 files changed, 20 insertions(+)

diff --git a/lib/src/parse/ParseNamespaceImpl.cpp b/lib/src/parse/ParseNamespaceImpl.cpp
index 349f3d4..224964a 100644
--- a/lib/src/parse/ParseNamespaceImpl.cpp
+++ b/lib/src/parse/ParseNamespaceImpl.cpp
@@ -92,6 +92,12 @@ bool ParseNamespaceImpl::parseProps()
         return false;
     }
 
+    for (auto& propName : PropNames) {
+        if (!ParseXmlWrap::parseValidateSinglePropInstance(m_node, m_props, propName, m_protocol.parseLogger())) {
+            return false;
+        }
+    }
+
     if ((!parseUpdateStringProperty(m_props, common::parseNameStr(), m_name)) ||
         (!parseUpdateStringProperty(m_props, common::parseDescriptionStr(), m_description)) ||
         (!parseUpdateDisplayName()) ||
diff --git a/lib/src/parse/ParseSchemaImpl.cpp b/lib/src/parse/ParseSchemaImpl.cpp
index ea0be48..227ccaf 100644
--- a/lib/src/parse/ParseSchemaImpl.cpp
+++ b/lib/src/parse/ParseSchemaImpl.cpp
@@ -72,6 +72,12 @@ bool ParseSchemaImpl::parseProcessNode()
         return false;
     }
 
+    for (auto& propName : PropNames) {
+        if (!ParseXmlWrap::parseValidateSinglePropInstance(m_node, m_props, propName, m_protocol.parseLogger())) {
+            return false;
+        }
+    }
+
     if ((!parseUpdateStringProperty(m_props, common::parseNameStr(), m_name)) ||
         (!parseUpdateStringProperty(m_props, common::parseDescriptionStr(), m_description)) ||
         (!parseUpdateUnsignedProperty(m_props, common::parseIdStr(), m_id)) ||
diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index f1f6972..c5dcacf 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -458,6 +458,10 @@ bool ParseSetFieldImpl::parseUpdateValidCheckVersion()
 bool ParseSetFieldImpl::parseUpdateDefaultValue()
 {
     auto& propName = common::parseDefaultValueStr();
+    if (!parseValidateSinglePropInstance(propName)) {
+        return false;
+    }
+
     auto iter = parseProps().find(propName);
     if (iter == parseProps().end()) {
         return true;
@@ -474,6 +478,10 @@ bool ParseSetFieldImpl::parseUpdateDefaultValue()
 bool ParseSetFieldImpl::parseUpdateReservedValue()
 {
     auto& propName = common::parseReservedValueStr();
+    if (!parseValidateSinglePropInstance(propName)) {
+        return false;
+    }
+
     auto iter = parseProps().find(propName);
     if (iter == parseProps().end()) {
         return true;
-- 
2.43.0


From 1289012e3150c0b8696822af5bf13919387a698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 038/114] fix: refuse validMin / validMax values which make a
 range without values

---
 lib/src/parse/ParseIntFieldImpl.cpp | 32 +++++++++++++++++++++++++++++
 lib/src/parse/ParseIntFieldImpl.h   |  1 +
 2 files changed, 33 insertions(+)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index c93a585..b1029ce 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -1405,6 +1405,10 @@ bool ParseIntFieldImpl::parseCheckValidMinAsAttr(const ParseFieldImpl::ParseProp
     }
 
     info.m_max = m_state.m_maxValue;
+    if (!parseValidateRangeOrder(info.m_min, info.m_max, common::parseValidMinStr())) {
+        return false;
+    }
+
     info.m_sinceVersion = parseGetSinceVersion();
     info.m_deprecatedSince = parseGetDeprecated();
 
@@ -1426,6 +1430,10 @@ bool ParseIntFieldImpl::parseCheckValidMinAsChild(::xmlNodePtr child)
     }
 
     info.m_max = m_state.m_maxValue;
+    if (!parseValidateRangeOrder(info.m_min, info.m_max, common::parseValidMinStr())) {
+        return false;
+    }
+
     info.m_sinceVersion = parseGetSinceVersion();
     info.m_deprecatedSince = parseGetDeprecated();
 
@@ -1466,6 +1474,10 @@ bool ParseIntFieldImpl::parseCheckValidMaxAsAttr(const ParseFieldImpl::ParseProp
     }
 
     info.m_min = m_state.m_minValue;
+    if (!parseValidateRangeOrder(info.m_min, info.m_max, common::parseValidMaxStr())) {
+        return false;
+    }
+
     info.m_sinceVersion = parseGetSinceVersion();
     info.m_deprecatedSince = parseGetDeprecated();
 
@@ -1487,6 +1499,10 @@ bool ParseIntFieldImpl::parseCheckValidMaxAsChild(::xmlNodePtr child)
     }
 
     info.m_min = m_state.m_minValue;
+    if (!parseValidateRangeOrder(info.m_min, info.m_max, common::parseValidMaxStr())) {
+        return false;
+    }
+
     info.m_sinceVersion = parseGetSinceVersion();
     info.m_deprecatedSince = parseGetDeprecated();
 
@@ -1579,6 +1595,22 @@ bool ParseIntFieldImpl::parseValidateValidRangeStr(const std::string& str, std::
     return true;
 }
 
+bool ParseIntFieldImpl::parseValidateRangeOrder(std::intmax_t minVal, std::intmax_t maxVal, const std::string& prop)
+{
+    bool validComparison = (minVal <= maxVal);
+    if (parseIsBigUnsigned(m_state.m_type)) {
+        validComparison = (static_cast<std::uintmax_t>(minVal) <= static_cast<std::uintmax_t>(maxVal));
+    }
+
+    if (!validComparison) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                      "No value of the field can be valid according to the value of the \"" << prop << "\" property.";
+        return false;
+    }
+
+    return true;
+}
+
 bool ParseIntFieldImpl::parseValidateValidValueStr(
     const std::string& str,
     const std::string& type,
diff --git a/lib/src/parse/ParseIntFieldImpl.h b/lib/src/parse/ParseIntFieldImpl.h
index a636661..9536630 100644
--- a/lib/src/parse/ParseIntFieldImpl.h
+++ b/lib/src/parse/ParseIntFieldImpl.h
@@ -187,6 +187,7 @@ private:
     bool parseCheckValidMaxAsChild(::xmlNodePtr child);
     bool parseCheckValidMaxProps(const ParsePropsMap& xmlAttrs);
     bool parseValidateValidRangeStr(const std::string& str, std::intmax_t& minVal, std::intmax_t& maxVal);
+    bool parseValidateRangeOrder(std::intmax_t minVal, std::intmax_t maxVal, const std::string& prop);
     bool parseValidateValidValueStr(const std::string& str, const std::string& type, std::intmax_t& val);
     bool parseStrToValue(const std::string& str, std::intmax_t& val) const;
     bool parseUpdateDefaultValueInternal(const std::string& valueStr);
-- 
2.43.0


From 58ac2e4359f16959d1990c2397f91c590bbe34f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 039/114] fix: refuse several version values of valid ranges
 and values

---
 lib/src/parse/ParseXmlWrap.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/parse/ParseXmlWrap.cpp b/lib/src/parse/ParseXmlWrap.cpp
index 766ba9c..7fe2ef6 100644
--- a/lib/src/parse/ParseXmlWrap.cpp
+++ b/lib/src/parse/ParseXmlWrap.cpp
@@ -395,6 +395,11 @@ bool ParseXmlWrap::parseGetAndCheckVersions(
     unsigned& deprecatedSince,
     ParseProtocolImpl& protocol)
 {
+    if ((!parseValidateSinglePropInstance(node, props, common::parseSinceVersionStr(), protocol.parseLogger())) ||
+        (!parseValidateSinglePropInstance(node, props, common::parseDeprecatedStr(), protocol.parseLogger()))) {
+        return false;
+    }
+
     auto parentVersion = sinceVersion;
     auto parentDeprecated = deprecatedSince;
     auto sinceVerIter = props.find(common::parseSinceVersionStr());
-- 
2.43.0


From 55fd766aba183cbb6002df61c5ad486c610a8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 040/114] fix: refuse detached length prefix of fixed length
 and zero terminated strings and data

---
 lib/src/parse/ParseDataFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseStringFieldImpl.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index 61ea9b4..dbd5e39 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -289,7 +289,7 @@ bool ParseDataFieldImpl::parseUpdateLength()
         return true;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot force fixed length after reusing data sequence with length prefix.";
         return false;
@@ -306,7 +306,7 @@ bool ParseDataFieldImpl::parseUpdatePrefix()
         return false;
     }
 
-    if (!parseHasPrefixField()) {
+    if ((!parseHasPrefixField()) && (m_state.m_detachedPrefixField.empty())) {
         return true;
     }
 
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index 446bba8..82f8494 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -335,7 +335,7 @@ bool ParseStringFieldImpl::parseUpdateLength()
         return true;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot force fixed length after reusing string with length prefix.";
         return false;
@@ -358,7 +358,7 @@ bool ParseStringFieldImpl::parseUpdatePrefix()
         return false;
     }
 
-    if (!parseHasPrefixField()) {
+    if ((!parseHasPrefixField()) && (m_state.m_detachedPrefixField.empty())) {
         return true;
     }
 
@@ -410,7 +410,7 @@ bool ParseStringFieldImpl::parseUpdateZeroTerm()
         return false;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot apply zero suffix to strings having length prefix.";
         return false;
-- 
2.43.0


From ef0688b08bebb105b5e82a4eb582a2fb4852922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 041/114] fix: escape names and strings put into the generated
 string literals

---
 app/commsdsl2comms/src/CommsEnumField.cpp   |  4 ++--
 app/commsdsl2comms/src/CommsField.cpp       |  2 +-
 app/commsdsl2comms/src/CommsMessage.cpp     |  2 +-
 app/commsdsl2comms/src/CommsSetField.cpp    |  2 +-
 app/commsdsl2comms/src/CommsStringField.cpp |  6 ++---
 lib/include/commsdsl/gen/util.h             |  1 +
 lib/src/gen/util.cpp                        | 25 +++++++++++++++++++++
 7 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 8ef01f0..7ee9842 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -856,7 +856,7 @@ std::string CommsEnumField::commsCommonValueNamesMapDirectBodyInternal() const
         auto addElementNameFunc =
             [&names, getDisplayNameFunc](auto& infoPair)
             {
-                names.push_back('\"' + getDisplayNameFunc(infoPair) + '\"');
+                names.push_back('\"' + util::genStrEscape(getDisplayNameFunc(infoPair)) + '\"');
             };
 
         auto valIter = values.find(v.second);
@@ -1060,7 +1060,7 @@ std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
                 auto str =
                     "std::make_pair(" +
                     getValueStrFunc(v.second) +
-                    ", \"" + getDisplayNameFunc(infoPair) +
+                    ", \"" + util::genStrEscape(getDisplayNameFunc(infoPair)) +
                     "\")";
                 names.push_back(std::move(str));
                 firstElem = false;
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 5235e3a..b4a2cc0 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -754,7 +754,7 @@ std::string CommsField::commsCommonNameFuncCode() const
 
     util::GenReplacementMap repl = {
         {"SCOPE", comms::genScopeFor(m_genField, generator)},
-        {"NAME", util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName())},
+        {"NAME", util::genStrEscape(util::genDisplayName(m_genField.genParseObj().parseDisplayName(), m_genField.genParseObj().parseName()))},
         {"CUSTOM", m_customCode.m_name}
     };
 
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 6d40103..d279eab 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -763,7 +763,7 @@ std::string CommsMessage::commsCommonNameFuncInternal() const
 
     util::GenReplacementMap repl = {
         {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"NAME", util::genDisplayName(genParseObj().parseDisplayName(), genParseObj().parseName())}
+        {"NAME", util::genStrEscape(util::genDisplayName(genParseObj().parseDisplayName(), genParseObj().parseName()))}
     };
 
     return util::genProcessTemplate(Templ, repl);
diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index 2f8cf22..a75b128 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -451,7 +451,7 @@ std::string CommsSetField::commsCommonBitNameFuncCodeInternal() const
         auto addElementNameFunc =
             [&names, getDisplayNameFunc](auto& infoPair)
             {
-                names.push_back('\"' + getDisplayNameFunc(infoPair) + '\"');
+                names.push_back('\"' + util::genStrEscape(getDisplayNameFunc(infoPair)) + '\"');
             };
 
         auto bitIter = bits.find(b.second);
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index 982673f..be795e0 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -171,7 +171,7 @@ std::string CommsStringField::commsDefConstructCodeImpl() const
         "Base::setValue(typename Base::ValueType(&Str[0], StrSize - 1));\n";
 
     util::GenReplacementMap repl = {
-        {"STR", defaultValue}
+        {"STR", util::genStrEscape(defaultValue)}
     };
 
     return util::genProcessTemplate(Templ, repl);
@@ -307,7 +307,7 @@ std::string CommsStringField::commsDefValidFuncBodyImpl() const
             continue;
         }
 
-        values.push_back("\"" + info.m_value + "\"");
+        values.push_back("\"" + util::genStrEscape(info.m_value) + "\"");
     }
 
     static const std::string Templ =
@@ -440,7 +440,7 @@ std::string CommsStringField::commsCompPrepValueStrImpl(const std::string& accSt
         valueTmp.assign(value, 1, std::string::npos);
     } while (false);
 
-    return CommsBase::commsCompPrepValueStrImpl(accStr, '\"' + valueTmp + '\"');
+    return CommsBase::commsCompPrepValueStrImpl(accStr, '\"' + util::genStrEscape(valueTmp) + '\"');
 }
 
 std::string CommsStringField::commsDefFieldOptsInternal() const
diff --git a/lib/include/commsdsl/gen/util.h b/lib/include/commsdsl/gen/util.h
index a0525ea..7c97a13 100644
--- a/lib/include/commsdsl/gen/util.h
+++ b/lib/include/commsdsl/gen/util.h
@@ -42,6 +42,7 @@ bool genStrEndsWith(const std::string& str, const std::string& suffix);
 std::string genStrToUpper(const std::string& str);
 std::string genStrToLower(const std::string& str);
 std::string genStrToMacroName(const std::string& str);
+std::string genStrEscape(const std::string& str); // inside the double quotes of the C/C++ string literal
 std::string genNumToString(std::uintmax_t value, unsigned hexWidth = 0U);
 std::string genNumToString(std::intmax_t value);
 std::string genNumToStringWithHexComment(std::intmax_t value);
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 0ba8e7c..3677b85 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -339,6 +339,31 @@ std::string genStrToMacroName(const std::string& str)
     return result;
 }
 
+std::string genStrEscape(const std::string& str)
+{
+    std::string result;
+    result.reserve(str.size());
+    for (char ch : str) {
+        if ((ch == '"') || (ch == '\\')) {
+            result += '\\';
+            result += ch;
+            continue;
+        }
+
+        auto byte = static_cast<unsigned char>(ch);
+        if ((byte < 0x20U) || (byte == 0x7fU)) {
+            result += '\\';
+            result += static_cast<char>('0' + ((byte >> 6U) & 0x7U));
+            result += static_cast<char>('0' + ((byte >> 3U) & 0x7U));
+            result += static_cast<char>('0' + (byte & 0x7U));
+            continue;
+        }
+
+        result += ch;
+    }
+    return result;
+}
+
 std::string genNumToString(std::uintmax_t value, unsigned hexWidth)
 {
     if (hexWidth == 0U) {
-- 
2.43.0


From 6fcdff49b9ac089cb022472fa8747da61fd31ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 042/114] fix: generate messages and interfaces of the nested
 namespaces

---
 lib/src/gen/GenNamespace.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index 418654b..c85de8c 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -186,6 +186,10 @@ public:
         for (auto& iPtr : m_interfaces) {
             iPtr->genSetReferenced(true);
         }
+
+        for (auto& nPtr : m_namespaces) {
+            nPtr->genSetAllInterfacesReferenced();
+        }
     }
 
     void genSetAllMessagesReferenced()
@@ -193,6 +197,10 @@ public:
         for (auto& mPtr : m_messages) {
             mPtr->genSetReferenced(true);
         }
+
+        for (auto& nPtr : m_namespaces) {
+            nPtr->genSetAllMessagesReferenced();
+        }
     }
 
     bool genHasReferencedMessageIdField() const
-- 
2.43.0


From c7f79957ba823301645372b12aed761e229fb420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 043/114] fix: generate input bundle used by the frames when
 there is no message

---
 app/commsdsl2comms/src/CommsNamespace.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsNamespace.cpp b/app/commsdsl2comms/src/CommsNamespace.cpp
index 0979199..ca6ad75 100644
--- a/app/commsdsl2comms/src/CommsNamespace.cpp
+++ b/app/commsdsl2comms/src/CommsNamespace.cpp
@@ -425,11 +425,15 @@ bool CommsNamespace::genWriteImpl() const
         return false;
     }
 
-    if ((!genHasFramesRecursive()) ||
-        (!genHasMessagesRecursive())) {
+    if (!genHasFramesRecursive()) {
         return true;
     }
 
+    if (!genHasMessagesRecursive()) {
+        // The frames use the (empty) bundle of all the messages
+        return m_input.commsWrite();
+    }
+
     return
         m_dispatch.commsWrite() &&
         m_factory.commsWrite() &&
-- 
2.43.0


From 081050b5826796a7ec774412a03068ab0091705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 044/114] fix: do not use protocol options in the definition of
 the interface fields

---
 app/commsdsl2comms/src/CommsDataField.cpp     |  2 +-
 app/commsdsl2comms/src/CommsField.cpp         | 15 +++++++++++++++
 app/commsdsl2comms/src/CommsField.h           |  1 +
 app/commsdsl2comms/src/CommsListField.cpp     | 10 +++++-----
 app/commsdsl2comms/src/CommsOptionalField.cpp |  7 +------
 app/commsdsl2comms/src/CommsStringField.cpp   |  2 +-
 6 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDataField.cpp b/app/commsdsl2comms/src/CommsDataField.cpp
index 8858d31..db3068e 100644
--- a/app/commsdsl2comms/src/CommsDataField.cpp
+++ b/app/commsdsl2comms/src/CommsDataField.cpp
@@ -484,7 +484,7 @@ void CommsDataField::commsAddLengthPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += commsExternalFieldParams() + ' ';
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index b4a2cc0..d9bfab9 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -476,6 +476,11 @@ const CommsField* CommsField::commsFindSibling(const std::string& name) const
 
 bool CommsField::commsIsFieldCustomizable() const
 {
+    if (comms::genIsInterfaceDeepMemberField(m_genField)) {
+        // The interface class is not parameterised with the protocol options
+        return false;
+    }
+
     auto& generator = static_cast<CommsGenerator&>(m_genField.genGenerator());
     auto level = generator.commsGetCustomizationLevel();
     if (level == CommsGenerator::CommsCustomizationLevel::Full) {
@@ -776,6 +781,16 @@ std::string CommsField::commsFieldBaseParams(commsdsl::parse::ParseEndian endian
     return comms::genParseEndianToOpt(endian);
 }
 
+std::string CommsField::commsExternalFieldParams() const
+{
+    if (comms::genIsInterfaceDeepMemberField(m_genField)) {
+        // The interface class is not parameterised with the protocol options
+        return "<>";
+    }
+
+    return "<TOpt>";
+}
+
 void CommsField::commsAddFieldDefOptions(commsdsl::gen::util::GenStringsList& opts, bool tempFieldObj) const
 {
     if (comms::genIsGlobalField(m_genField)) {
diff --git a/app/commsdsl2comms/src/CommsField.h b/app/commsdsl2comms/src/CommsField.h
index 44a87af..dbdeafc 100644
--- a/app/commsdsl2comms/src/CommsField.h
+++ b/app/commsdsl2comms/src/CommsField.h
@@ -153,6 +153,7 @@ protected:
     std::string commsCommonNameFuncCode() const;
     std::string commsFieldBaseParams(commsdsl::parse::ParseEndian endian) const;
     void commsAddFieldDefOptions(commsdsl::gen::util::GenStringsList& opts, bool tempFieldObj = false) const;
+    std::string commsExternalFieldParams() const;
     void commsAddFieldTypeOption(commsdsl::gen::util::GenStringsList& opts) const;
     bool commsIsExtended() const;
 
diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index b3b99fc..0e4943f 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -581,7 +581,7 @@ std::string CommsListField::commsDefElementInternal() const
     }
 
     assert(m_commsExternalElementField != nullptr);
-    return comms::genScopeFor(m_commsExternalElementField->commsGenField(), genGenerator()) + "<TOpt>";
+    return comms::genScopeFor(m_commsExternalElementField->commsGenField(), genGenerator()) + commsExternalFieldParams();
 }
 
 void CommsListField::commsAddFixedLengthOptInternal(GenStringsList& opts) const
@@ -617,7 +617,7 @@ void CommsListField::commsAddCountPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalCountPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalCountPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += commsExternalFieldParams() + ' ';
     }
 
     opts.push_back("comms::option::def::SequenceSizeFieldPrefix<" + prefixName + '>');
@@ -641,7 +641,7 @@ void CommsListField::commsAddLengthPrefixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalLengthPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalLengthPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += commsExternalFieldParams() + ' ';
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
@@ -665,7 +665,7 @@ void CommsListField::commsAddElemLengthPrefixOptInternal(GenStringsList& opts) c
     else {
         assert(m_commsExternalElemLengthPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalElemLengthPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += commsExternalFieldParams() + ' ';
     }
 
     std::string opt = "SequenceElemSerLengthFieldPrefix";
@@ -694,7 +694,7 @@ void CommsListField::commsAddTermSuffixOptInternal(GenStringsList& opts) const
     else {
         assert(m_commsExternalTermSuffixField != nullptr);
         suffixName = comms::genScopeFor(m_commsExternalTermSuffixField->commsGenField(), genGenerator(), true, true);
-        suffixName += "<TOpt> ";
+        suffixName += commsExternalFieldParams() + ' ';
     }
 
     opts.push_back("comms::option::def::SequenceTerminationFieldSuffix<" + suffixName + '>');
diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index eaae26b..352bd98 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -605,12 +605,7 @@ bool CommsOptionalField::commsCheckCondSupportedInternal() const
 std::string CommsOptionalField::commsDefFieldRefInternal() const
 {
     if (m_commsExternalField != nullptr) {
-            std::string templOpt;
-        if (!comms::genIsInterfaceDeepMemberField(*this)) {
-            templOpt = "TOpt";
-        }
-
-        return comms::genScopeFor(m_commsExternalField->commsGenField(), genGenerator()) + '<' + templOpt + '>';
+        return comms::genScopeFor(m_commsExternalField->commsGenField(), genGenerator()) + commsExternalFieldParams();
     }
 
     assert(m_commsMemberField != nullptr);
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index be795e0..7d17b8d 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -489,7 +489,7 @@ void CommsStringField::commsAddLengthPrefixOptInternal(GenStringsList& opts) con
     else {
         assert(m_commsExternalPrefixField != nullptr);
         prefixName = comms::genScopeFor(m_commsExternalPrefixField->commsGenField(), genGenerator(), true, true);
-        prefixName += "<TOpt> ";
+        prefixName += commsExternalFieldParams() + ' ';
     }
 
     opts.push_back("comms::option::def::SequenceSerLengthFieldPrefix<" + prefixName + '>');
-- 
2.43.0


From 4e70cf5e7343cb677f80c56053161ef61652f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 045/114] fix: preserve options of the member field of the
 customizable layer

---
 app/commsdsl2comms/src/CommsLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsLayer.cpp b/app/commsdsl2comms/src/CommsLayer.cpp
index 94c65d1..24725ae 100644
--- a/app/commsdsl2comms/src/CommsLayer.cpp
+++ b/app/commsdsl2comms/src/CommsLayer.cpp
@@ -442,7 +442,7 @@ std::string CommsLayer::commsCustomizationOptionsInternal(
             "///     @ref #^#SCOPE#$# layer field.\n"
             "struct #^#CLASS_NAME#$##^#SUFFIX#$##^#EXT#$#\n"
             "{\n"
-            "    #^#FIELD_OPT#$#\n"
+            "    #^#FIELD_OPTS#$#\n"
             "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
         util::GenReplacementMap repl = {
-- 
2.43.0


From 0e24016686a5a2b089fbb2cddfe04ddb7c05e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 046/114] fix: generate valid expression of the minimal 64 bit
 value

---
 lib/src/gen/util.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 3677b85..abe9926 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -396,6 +396,11 @@ std::string genNumToString(std::uintmax_t value, unsigned hexWidth)
 
 std::string genNumToString(std::intmax_t value)
 {
+    if (value == std::numeric_limits<std::intmax_t>::min()) {
+        // There is no literal for such value, the one without minus doesn't fit signed type.
+        return "(-0x7fffffffffffffffLL - 1)";
+    }
+
     if ((std::numeric_limits<std::int32_t>::min() <= value) &&
         (value <= std::numeric_limits<std::int32_t>::max())) {
         return std::to_string(value);
@@ -414,6 +419,10 @@ std::string genNumToString(std::intmax_t value)
 
 std::string genNumToStringWithHexComment(std::intmax_t value)
 {
+    if (value == std::numeric_limits<std::intmax_t>::min()) {
+        return genNumToString(value);
+    }
+
     std::stringstream stream;
     if (0 <= value) {
         stream << std::hex << "0x" << value;
-- 
2.43.0


From c5ba8f8d55d418e57ac85fe9e3628ccf47b0ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 047/114] fix: generate valid names map of the message ids enum
 with big unsigned values

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 7ee9842..5484c2f 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -943,6 +943,7 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
 
     auto& currSchema = genGenerator().genSchemaOf(*this);
     auto& values = obj.parseValues();
+    auto* msgIdNs = commsNamespaceForMsgId();
     bool firstElem = true;
     std::intmax_t lastValue = std::numeric_limits<std::intmax_t>::min();
     GenStringsList names;
@@ -970,12 +971,23 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
                 return infoPair.second.m_displayName;
             };
 
+        auto getValueStrFunc =
+            [this, msgIdNs](const std::string& s)
+            {
+                if (msgIdNs != nullptr) {
+                    return comms::genScopeFor(*msgIdNs, genGenerator()) + "::" + strings::genMsgIdPrefixStr() + s;
+                }
+
+                return "ValueType::" + s;
+            };
+
         auto addElementNameFunc =
-            [&names, &v, &firstElem, &lastValue, getDisplayNameFunc](auto& infoPair)
+            [&names, &v, &firstElem, &lastValue, getDisplayNameFunc, &getValueStrFunc](auto& infoPair)
             {
                 auto str =
-                    "std::make_pair(ValueType::" +
-                    v.second + ", \"" + getDisplayNameFunc(infoPair) +
+                    "std::make_pair(" +
+                    getValueStrFunc(v.second) +
+                    ", \"" + util::genStrEscape(getDisplayNameFunc(infoPair)) +
                     "\")";
                 names.push_back(std::move(str));
                 firstElem = false;
-- 
2.43.0


From f3a585f7e7bf4db485613a83a8ae00ba941b22bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:49 +0000
Subject: [PATCH 048/114] fix: do not mark force generated field referenced
 when its preparation fails

---
 lib/src/gen/GenField.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/gen/GenField.cpp b/lib/src/gen/GenField.cpp
index f0ca4e3..9e2e23f 100644
--- a/lib/src/gen/GenField.cpp
+++ b/lib/src/gen/GenField.cpp
@@ -144,16 +144,16 @@ bool GenField::genPrepare()
         return true;
     }
 
-    bool result = genPrepareImpl();
-    if (result) {
-        m_impl->genSetPrepared();
+    if (!genPrepareImpl()) {
+        return false;
     }
 
+    m_impl->genSetPrepared();
     if (genParseObj().parseIsForceGen()) {
         genSetReferenced();
     }
 
-    return result;
+    return true;
 }
 
 bool GenField::genWrite() const
-- 
2.43.0


From 980f8ba0ee4f1f2b11688ac64d2bc240ea2b1928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 049/114] fix: do not let backslash at the end of documentation
 line comment out the code

---
 lib/src/gen/util.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index abe9926..0b22021 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -180,9 +180,31 @@ void genCleanNewLinesBeforeCloseBracket(std::string& code)
         code.end());
 }
 
+void genCleanCommentContinuations(std::string& code)
+{
+    // The backslash at the end of the comment line comments out the next one as well.
+    static const std::string CommentPrefix("///");
+    static const std::string BackslashEntity("&#92;");
+    std::size_t lineStart = 0U;
+    while (lineStart < code.size()) {
+        auto lineEnd = std::min(code.find('\n', lineStart), code.size());
+        auto lastPos = code.find_last_not_of(" \t\r\n", lineEnd);
+        if ((lastPos != std::string::npos) &&
+            (lineStart <= lastPos) &&
+            (code[lastPos] == '\\') &&
+            (code.find(CommentPrefix, lineStart) < lastPos)) {
+            code.replace(lastPos, 1U, BackslashEntity);
+            lineEnd += BackslashEntity.size() - 1U;
+        }
+
+        lineStart = lineEnd + 1U;
+    }
+}
+
 void genDoTidyCode(std::string& code)
 {
     genCleanSpaces(code);
+    genCleanCommentContinuations(code);
     genCleanExtraNewLines(code);
     genCleanNewLinesBeforeCloseBracket(code);
 }
-- 
2.43.0


From 4d870a5707c842fd09cd8ee91ecc7c524473676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 050/114] fix: do not limit length of the fixed count list of
 unlimited elements

---
 app/commsdsl2comms/src/CommsListField.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index 0e4943f..77e5bb5 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -538,11 +538,21 @@ CommsListField::GenStringsList CommsListField::commsExtraBareMetalDefaultOptions
 std::size_t CommsListField::commsMaxLengthImpl() const
 {
     auto obj = genListFieldParseObj();
-    if (obj.parseFixedCount() != 0U) {
-        return CommsBase::commsMaxLengthImpl();
+    if (obj.parseFixedCount() == 0U) {
+        return comms::genMaxPossibleLength();
     }
 
-    return comms::genMaxPossibleLength();
+    auto* elem = m_commsExternalElementField;
+    if (elem == nullptr) {
+        elem = m_commsMemberElementField;
+    }
+
+    assert(elem != nullptr);
+    if (elem->commsMaxLength() == comms::genMaxPossibleLength()) {
+        return comms::genMaxPossibleLength();
+    }
+
+    return CommsBase::commsMaxLengthImpl();
 }
 
 std::string CommsListField::commsSizeAccessStrImpl([[maybe_unused]] const std::string& accStr, const std::string& prefix) const
-- 
2.43.0


From 1bf04305bf54294174829ea03584d3f4d31cc862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 051/114] fix: generate valid type of the interface field
 compared to other field

---
 app/commsdsl2comms/src/CommsOptionalField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index 352bd98..2164a82 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -762,7 +762,7 @@ std::string CommsOptionalField::commsDslCondToStringFieldFieldCompInternal(
     auto typeCast = leftField->commsCompValueCastType(leftAccStr);
     if (!typeCast.empty()) {
         auto accName = comms::genAccessName(leftField->commsGenField().genParseObj().parseName());
-        valueStr = "static_cast<typename Field_" + accName + "::" + typeCast + ">(" + valueStr + ")";
+        valueStr = "static_cast<typename " + commsGetFieldTypePrefixInternal(*leftField) + accName + "::" + typeCast + ">(" + valueStr + ")";
     }
 
     auto expr = leftPrefix + leftField->commsValueAccessStr(leftAccStr) + ' ' + op + ' ' + valueStr;
-- 
2.43.0


From fbfa830b8db467969152b8dc047d4f5c2ceb9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 052/114] fix: prepare all the interfaces before the messages
 using their fields

---
 lib/include/commsdsl/gen/GenNamespace.h |  1 +
 lib/src/gen/GenInterface.cpp            | 22 ++++++++++++-
 lib/src/gen/GenNamespace.cpp            | 43 ++++++++++++++++++-------
 lib/src/gen/GenSchema.cpp               | 15 +++++++++
 4 files changed, 68 insertions(+), 13 deletions(-)

diff --git a/lib/include/commsdsl/gen/GenNamespace.h b/lib/include/commsdsl/gen/GenNamespace.h
index cfa2a3f..943396c 100644
--- a/lib/include/commsdsl/gen/GenNamespace.h
+++ b/lib/include/commsdsl/gen/GenNamespace.h
@@ -64,6 +64,7 @@ public:
 
     bool genCreateAll();
     bool genPrepare();
+    bool genPrepareInterfaces();
     bool genWrite() const;
 
     ParseNamespace genParseObj() const;
diff --git a/lib/src/gen/GenInterface.cpp b/lib/src/gen/GenInterface.cpp
index cb43266..9b8f2d2 100644
--- a/lib/src/gen/GenInterface.cpp
+++ b/lib/src/gen/GenInterface.cpp
@@ -130,12 +130,23 @@ public:
         m_referenced = value;
     }
 
+    bool genIsPrepared() const
+    {
+        return m_prepared;
+    }
+
+    void genSetPrepared()
+    {
+        m_prepared = true;
+    }
+
 private:
     GenGenerator& m_generator;
     ParseInterface m_parseObj;
     GenElem* m_parent = nullptr;
     GenFieldsList m_fields;
     bool m_referenced = false;
+    bool m_prepared = false;
 };
 
 GenInterface::GenInterface(GenGenerator& generator, ParseInterface parseObj, GenElem* parent) :
@@ -153,6 +164,10 @@ bool GenInterface::genCreateAll()
 
 bool GenInterface::genPrepare()
 {
+    if (m_impl->genIsPrepared()) {
+        return true;
+    }
+
     if (!m_impl->genPrepare()) {
         return false;
     }
@@ -161,7 +176,12 @@ bool GenInterface::genPrepare()
         return true;
     }
 
-    return genPrepareImpl();
+    if (!genPrepareImpl()) {
+        return false;
+    }
+
+    m_impl->genSetPrepared();
+    return true;
 }
 
 bool GenInterface::genWrite() const
diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index c85de8c..cdb1d6a 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -96,6 +96,32 @@ public:
             genPrepareFrames();
     }
 
+    bool genPrepareInterfaces()
+    {
+        if (!m_parseObj.parseValid()) {
+            return true;
+        }
+
+        bool namespacesResult =
+            std::all_of(
+                m_namespaces.begin(), m_namespaces.end(),
+                [](auto& n)
+                {
+                    assert(n);
+                    return n->genPrepareInterfaces();
+                });
+
+        return
+            namespacesResult &&
+            std::all_of(
+                m_interfaces.begin(), m_interfaces.end(),
+                [](auto& i)
+                {
+                    assert(i);
+                    return i->genPrepare();
+                });
+    }
+
     bool genWrite() const
     {
         return
@@ -432,18 +458,6 @@ private:
         return true;
     }
 
-    bool genPrepareInterfaces()
-    {
-        return
-            std::all_of(
-                m_interfaces.begin(), m_interfaces.end(),
-                [](auto& i)
-                {
-                    assert(i);
-                    return i->genPrepare();
-                });
-    }
-
     bool genCreateMessages()
     {
         auto messages = m_parseObj.parseMessages();
@@ -586,6 +600,11 @@ bool GenNamespace::genPrepare()
     return m_impl->genPrepare() && genPrepareImpl();
 }
 
+bool GenNamespace::genPrepareInterfaces()
+{
+    return m_impl->genPrepareInterfaces();
+}
+
 bool GenNamespace::genWrite() const
 {
     if (!m_impl->genWrite()) {
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 2d2dd68..f46a4eb 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -305,6 +305,21 @@ public:
             m_mainNamespace = m_origNamespace;
         }
 
+        // The messages may refer to the interface fields, all the interfaces
+        // need to be ready before the first message.
+        bool interfacesResult =
+            std::all_of(
+                m_namespaces.begin(), m_namespaces.end(),
+                [](auto& n)
+                {
+                    assert(n);
+                    return n->genPrepareInterfaces();
+                });
+
+        if (!interfacesResult) {
+            return false;
+        }
+
         bool namespacesResult =
             std::all_of(
                 m_namespaces.begin(), m_namespaces.end(),
-- 
2.43.0


From 23ca2f8ea46b88b454af838de33ee649fd6efbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 053/114] fix: report status of the failed read before checking
 validity of the message

---
 app/commsdsl2comms/src/CommsMessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index d279eab..6f136cc 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -1361,7 +1361,7 @@ std::string CommsMessage::commsDefReadFuncInternal() const
 
             if (genParseObj().parseIsFailOnInvalid()) {
                 static const std::string FailOnInvalidTempl =
-                    "if (!#^#VALID_PREFIX#$#doValid()) {\n"
+                    "if ((es == comms::ErrorStatus::Success) && (!#^#VALID_PREFIX#$#doValid())) {\n"
                     "    es = comms::ErrorStatus::InvalidMsgData;\n"
                     "}\n";
 
-- 
2.43.0


From a27552fd7b803219f933979663ce5caefc165cee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 054/114] fix: check validity of the variant read by its key
 when failOnInvalid is set

---
 app/commsdsl2comms/src/CommsVariantField.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 879db2b..1a04027 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -363,7 +363,8 @@ std::string CommsVariantField::commsDefReadFuncBodyImpl() const
                 "        auto& field_#^#BUNDLE_NAME#$# = initField_#^#BUNDLE_NAME#$#();\n"
                 "        COMMS_ASSERT(field_#^#BUNDLE_NAME#$#.field_#^#KEY_NAME#$#().getValue() == commonKeyField.getValue());\n"
                 "        #^#VERSION_ASSIGN#$#\n"
-                "        return field_#^#BUNDLE_NAME#$#.template readFrom<1>(iter, len);\n"
+                "        es = field_#^#BUNDLE_NAME#$#.template readFrom<1>(iter, len);\n"
+                "        break;\n"
                 "    }";
 
             util::GenReplacementMap repl = {
@@ -387,7 +388,8 @@ std::string CommsVariantField::commsDefReadFuncBodyImpl() const
             "default:\n"
             "    initField_#^#BUNDLE_NAME#$#().field_#^#KEY_NAME#$#().setValue(commonKeyField.getValue());\n"
             "    #^#VERSION_ASSIGN#$#\n"
-            "    return accessField_#^#BUNDLE_NAME#$#().template readFrom<1>(iter, len);";
+            "    es = accessField_#^#BUNDLE_NAME#$#().template readFrom<1>(iter, len);\n"
+            "    break;";
 
         util::GenReplacementMap repl = {
             {"BUNDLE_NAME", bundleAccName},
@@ -424,10 +426,12 @@ std::string CommsVariantField::commsDefReadFuncBodyImpl() const
         "auto consumedLen = static_cast<std::size_t>(std::distance(origIter, iter));\n"
         "COMMS_ASSERT(consumedLen <= len);\n"
         "len -= consumedLen;\n\n"
+        "es = comms::ErrorStatus::InvalidMsgData;\n"
         "switch (commonKeyField.getValue()) {\n"
         "    #^#CASES#$#\n"
         "};\n\n"
-        "return comms::ErrorStatus::InvalidMsgData;\n";
+        "#^#FAIL_ON_INVALID#$#\n"
+        "return es;\n";
 
     util::GenReplacementMap repl = {
         {"KEY_FIELD_TYPE", m_optimizedReadKey},
@@ -440,6 +444,15 @@ std::string CommsVariantField::commsDefReadFuncBodyImpl() const
         repl["VERSION_DEP"] = CheckStr;
     }
 
+    if (commsGenField().genParseObj().parseIsFailOnInvalid()) {
+        // The option of the base class takes effect only in its own read()
+        static const std::string CheckStr =
+            "if ((es == comms::ErrorStatus::Success) && (!this->valid())) {\n"
+            "    es = comms::ErrorStatus::InvalidMsgData;\n"
+            "}\n";
+        repl["FAIL_ON_INVALID"] = CheckStr;
+    }
+
     return util::genProcessTemplate(Templ, repl);
 }
 
-- 
2.43.0


From eac80944a28dbeba406a9b5144d05062a2a070f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 055/114] fix: use the read functionality of the variant member
 which has its own

---
 app/commsdsl2comms/src/CommsVariantField.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 1a04027..7e7485a 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -1100,6 +1100,11 @@ std::string CommsVariantField::commsOptimizedReadKeyInternal() const
         }
 
         auto& bundle = static_cast<const CommsBundleField&>(*memPtr);
+        if (bundle.commsHasGeneratedReadCode()) {
+            // Reading the rest of the members separately skips the read functionality of the bundle itself
+            return result;
+        }
+
         auto* propKeyTmp = commsBundleGetValidPropKeyInternal(bundle);
         bool validPropKey = (propKeyTmp != nullptr);
         if ((!validPropKey) && (m != m_commsMembers.back())) {
-- 
2.43.0


From d6dcc8110fac3a0f20223dab2c504aacb0abf21a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 056/114] fix: declare the field the version is assigned to in
 the catch all case of the variant

---
 app/commsdsl2comms/src/CommsVariantField.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index 7e7485a..a34fc4b 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -386,10 +386,13 @@ std::string CommsVariantField::commsDefReadFuncBodyImpl() const
 
         static const std::string Templ =
             "default:\n"
-            "    initField_#^#BUNDLE_NAME#$#().field_#^#KEY_NAME#$#().setValue(commonKeyField.getValue());\n"
-            "    #^#VERSION_ASSIGN#$#\n"
-            "    es = accessField_#^#BUNDLE_NAME#$#().template readFrom<1>(iter, len);\n"
-            "    break;";
+            "    {\n"
+            "        auto& field_#^#BUNDLE_NAME#$# = initField_#^#BUNDLE_NAME#$#();\n"
+            "        field_#^#BUNDLE_NAME#$#.field_#^#KEY_NAME#$#().setValue(commonKeyField.getValue());\n"
+            "        #^#VERSION_ASSIGN#$#\n"
+            "        es = field_#^#BUNDLE_NAME#$#.template readFrom<1>(iter, len);\n"
+            "        break;\n"
+            "    }";
 
         util::GenReplacementMap repl = {
             {"BUNDLE_NAME", bundleAccName},
-- 
2.43.0


From c798c9dcb3499860e7754706323f091754907363 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 057/114] fix: preserve signExt of the referenced field inside
 the bitfield

---
 app/commsdsl2comms/src/CommsRefField.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsRefField.cpp b/app/commsdsl2comms/src/CommsRefField.cpp
index e198e29..1acdcf8 100644
--- a/app/commsdsl2comms/src/CommsRefField.cpp
+++ b/app/commsdsl2comms/src/CommsRefField.cpp
@@ -226,7 +226,18 @@ void CommsRefField::commsAddBitLengthOptInternal(GenStringsList& opts) const
     auto obj = genRefFieldParseObj();
     auto bitLength = obj.parseBitLength();
     if (bitLength != 0U) {
-        opts.push_back("comms::option::def::FixedBitLength<" + util::genNumToString(bitLength) + '>');
+        std::string secondParam;
+        auto refFieldObj = obj.parseField();
+        while (refFieldObj.parseKind() == commsdsl::parse::ParseField::ParseKind::Ref) {
+            refFieldObj = commsdsl::parse::ParseRefField(refFieldObj).parseField();
+        }
+
+        if ((refFieldObj.parseKind() == commsdsl::parse::ParseField::ParseKind::Int) &&
+            (!commsdsl::parse::ParseIntField(refFieldObj).parseSignExt())) {
+            secondParam = ", false";
+        }
+
+        opts.push_back("comms::option::def::FixedBitLength<" + util::genNumToString(bitLength) + secondParam + '>');
     }
 }
 
-- 
2.43.0


From 1911f5422a318bbb83a116cb0a9593501eaa9526 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:48:17 +0000
Subject: [PATCH 058/114] fix: sort unsigned enum values searched by the
 generated validity check

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 5484c2f..4727f5d 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -327,11 +327,27 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
             prefix = "ValueType::";
         }
 
+        auto valuesType = obj.parseType();
+        bool bigUnsignedValues =
+            (valuesType == commsdsl::parse::ParseEnumField::ParseType::Uint64) ||
+            (valuesType == commsdsl::parse::ParseEnumField::ParseType::Uintvar);
+
+        // The binary search requires order of the actual (maybe unsigned) values
         auto& revValues = obj.parseRevValues();
-        auto prevIter = revValues.end();
-        for (auto iter = revValues.begin(); iter != revValues.end(); ++iter) {
+        std::vector<std::pair<std::intmax_t, std::string>> sortedValues(revValues.begin(), revValues.end());
+        if (bigUnsignedValues) {
+            std::stable_sort(
+                sortedValues.begin(), sortedValues.end(),
+                [](auto& v1, auto& v2)
+                {
+                    return commsAsBigUnsigned(v1.first) < commsAsBigUnsigned(v2.first);
+                });
+        }
+
+        auto prevIter = sortedValues.end();
+        for (auto iter = sortedValues.begin(); iter != sortedValues.end(); ++iter) {
 
-            if ((prevIter != revValues.end()) && (prevIter->first == iter->first)) {
+            if ((prevIter != sortedValues.end()) && (prevIter->first == iter->first)) {
                 continue;
             }
 
-- 
2.43.0


From b46e5d7edbd38d40026342c074fe100ac74f1255 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:54:55 +0000
Subject: [PATCH 059/114] fix: name the destructor of the version dependent
 variant after its class

---
 app/commsdsl2comms/src/CommsField.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index d9bfab9..302c09b 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1575,7 +1575,7 @@ std::string CommsField::commsDefDestructCodeInternal() const
 
     static const std::string Templ =
         "/// @brief Destructor\n"
-        "~#^#CLASS_NAME#$##^#ORIG#$#()\n"
+        "~#^#CLASS_NAME#$##^#SUFFIX#$##^#ORIG#$#()\n"
         "{\n"
         "    #^#BODY#$#\n"
         "}\n";
@@ -1585,6 +1585,10 @@ std::string CommsField::commsDefDestructCodeInternal() const
         {"BODY", std::move(body)}
     };
 
+    if (commsIsVersionOptional()) {
+        repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+    }
+
     if (commsIsExtended()) {
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
-- 
2.43.0


From ff8aea57a21567f2a8f2237bec0a35bb24c50ca7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:54:55 +0000
Subject: [PATCH 060/114] fix: do not accept the values of a deprecated valid
 range regardless of the version

---
 app/commsdsl2comms/src/CommsIntField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index 5d5a043..b3766bc 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -995,7 +995,7 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     bool versionStorageRequired = false;
     bool addedRangeOpt = false;
     for (auto& r : validRanges) {
-        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, false))) {
+        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true))) {
             versionStorageRequired = true;
             continue;
         }
-- 
2.43.0


From 9b6f97fa2604ac91bc478dfb3ae9e06f9863faf1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:54:55 +0000
Subject: [PATCH 061/114] fix: provide the original construction code when the
 constructor is customized

---
 app/commsdsl2comms/src/CommsField.cpp   | 2 +-
 app/commsdsl2comms/src/CommsMessage.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 302c09b..a4c9caa 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1553,7 +1553,7 @@ std::string CommsField::commsDefConstructPrivateCodeInternal() const
     }
 
     static const std::string Templ =
-        "construct#^#ORIG#$#()\n"
+        "void construct#^#ORIG#$#()\n"
         "{\n"
         "    #^#BODY#$#\n"
         "}\n";
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 6f136cc..16a7a89 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -1483,7 +1483,7 @@ std::string CommsMessage::commsDefPrivateConstructInternal() const
         return strings::genEmptyString();
     }
 
-    if (m_extraCustomCode.m_hasConstruct || m_customCode.m_hasConstructBody) {
+    if ((!m_extraCustomCode.m_hasConstruct) && (!m_customCode.m_hasConstructBody)) {
         // The construct code is already in the constructor
         return strings::genEmptyString();
     }
-- 
2.43.0


From 839abefed72e4c75b1e1623035452aa021991dd2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 062/114] fix: accept the valid values introduced together with
 the field regardless of the version known to the field

---
 app/commsdsl2comms/src/CommsEnumField.cpp | 16 ++++++++--------
 app/commsdsl2comms/src/CommsIntField.cpp  | 11 ++++++++---
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index 4727f5d..bb3519b 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -365,8 +365,8 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
     // version must be taken into account
     std::vector<decltype(m_validRanges)> rangesToProcess;
     for (auto& r : m_validRanges) {
-        if ((r.m_sinceVersion == 0U) &&
-            (r.m_deprecatedSince == commsdsl::parse::ParseProtocol::parseNotYetDeprecated())) {
+        if ((r.m_sinceVersion <= obj.parseSinceVersion()) &&
+            (obj.parseDeprecatedSince() <= r.m_deprecatedSince)) {
             continue;
         }
 
@@ -1359,11 +1359,11 @@ void CommsEnumField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto uncondStartIter =
         std::find_if(
             m_validRanges.begin(), m_validRanges.end(),
-            [](auto& elem)
+            [&obj](auto& elem)
             {
                 return
-                    (elem.m_sinceVersion == 0U) &&
-                    (elem.m_deprecatedSince == commsdsl::parse::ParseProtocol::parseNotYetDeprecated());
+                    (elem.m_sinceVersion <= obj.parseSinceVersion()) &&
+                    (obj.parseDeprecatedSince() <= elem.m_deprecatedSince);
             });
 
     if (uncondStartIter == m_validRanges.end()) {
@@ -1376,11 +1376,11 @@ void CommsEnumField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     auto uncondEndIter =
         std::find_if(
             uncondStartIter + 1, m_validRanges.end(),
-            [](auto& elem)
+            [&obj](auto& elem)
             {
                 return
-                    (elem.m_sinceVersion != 0U) ||
-                    (elem.m_deprecatedSince != commsdsl::parse::ParseProtocol::parseNotYetDeprecated());
+                    (obj.parseSinceVersion() < elem.m_sinceVersion) ||
+                    (elem.m_deprecatedSince < obj.parseDeprecatedSince());
             });
 
     auto uncondCount =
diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index b3766bc..b0da2aa 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -275,9 +275,11 @@ std::string CommsIntField::commsDefValidFuncBodyImpl() const
     validRanges.erase(
         std::remove_if(
             validRanges.begin(), validRanges.end(),
-            [this](auto& r)
+            [this, &obj](auto& r)
             {
-                return !this->genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true);
+                return
+                    ((r.m_sinceVersion <= obj.parseSinceVersion()) && (obj.parseDeprecatedSince() <= r.m_deprecatedSince)) ||
+                    (!this->genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true));
             }),
         validRanges.end());
 
@@ -995,7 +997,10 @@ void CommsIntField::commsAddValidRangesOptInternal(GenStringsList& opts) const
     bool versionStorageRequired = false;
     bool addedRangeOpt = false;
     for (auto& r : validRanges) {
-        if (validCheckVersion && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true))) {
+        bool versionedRange =
+            (obj.parseSinceVersion() < r.m_sinceVersion) || (r.m_deprecatedSince < obj.parseDeprecatedSince());
+
+        if (validCheckVersion && versionedRange && (genGenerator().genIsElementOptional(r.m_sinceVersion, r.m_deprecatedSince, true))) {
             versionStorageRequired = true;
             continue;
         }
-- 
2.43.0


From d3772c118370ed3819ba7f698b78600cefe4d85d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 063/114] fix: do not expect the version dependent variant to
 have version dependent members

---
 app/commsdsl2comms/src/CommsVariantField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsVariantField.cpp b/app/commsdsl2comms/src/CommsVariantField.cpp
index a34fc4b..f69d724 100644
--- a/app/commsdsl2comms/src/CommsVariantField.cpp
+++ b/app/commsdsl2comms/src/CommsVariantField.cpp
@@ -441,7 +441,7 @@ std::string CommsVariantField::commsDefReadFuncBodyImpl() const
         {"CASES", util::genStrListToString(cases, "\n", "")},
     };
 
-    if (commsIsVersionDependent()) {
+    if (commsIsVersionDependentImpl()) {
         static const std::string CheckStr =
             "static_assert(Base::isVersionDependent(), \"The field must be recognised as version dependent\");";
         repl["VERSION_DEP"] = CheckStr;
-- 
2.43.0


From 19594ea299b4f2ddad102760745acb7d7c1ec08a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:59:30 +0000
Subject: [PATCH 064/114] fix: recognise the version dependency of referenced
 fields

---
 app/commsdsl2comms/src/CommsListField.cpp     | 39 +++++++++----------
 app/commsdsl2comms/src/CommsOptionalField.cpp |  4 ++
 app/commsdsl2comms/src/CommsRefField.cpp      |  6 +++
 app/commsdsl2comms/src/CommsRefField.h        |  1 +
 4 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index 77e5bb5..17cc2bc 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -459,27 +459,26 @@ bool CommsListField::commsIsLimitedCustomizableImpl() const
 
 bool CommsListField::commsIsVersionDependentImpl() const
 {
-    if ((m_commsMemberElementField != nullptr) && (m_commsMemberElementField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberCountPrefixField != nullptr) && (m_commsMemberCountPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberLengthPrefixField != nullptr) && (m_commsMemberLengthPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberElemLengthPrefixField != nullptr) && (m_commsMemberElemLengthPrefixField->commsIsVersionDependent())) {
-        return true;
-    }
-
-    if ((m_commsMemberTermSuffixField != nullptr) && (m_commsMemberTermSuffixField->commsIsVersionDependent())) {
-        return true;
-    }
+    const CommsField* const fields[] = {
+        m_commsExternalElementField,
+        m_commsMemberElementField,
+        m_commsExternalCountPrefixField,
+        m_commsMemberCountPrefixField,
+        m_commsExternalLengthPrefixField,
+        m_commsMemberLengthPrefixField,
+        m_commsExternalElemLengthPrefixField,
+        m_commsMemberElemLengthPrefixField,
+        m_commsExternalTermSuffixField,
+        m_commsMemberTermSuffixField,
+    };
 
-    return false;
+    return
+        std::any_of(
+            std::begin(fields), std::end(fields),
+            [](auto* f)
+            {
+                return (f != nullptr) && f->commsIsVersionDependent();
+            });
 }
 
 std::string CommsListField::commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const
diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index 2164a82..ecc963a 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -477,6 +477,10 @@ std::string CommsOptionalField::commsDefBundledRefreshFuncBodyImpl(const CommsFi
 
 bool CommsOptionalField::commsIsVersionDependentImpl() const
 {
+    if (m_commsExternalField != nullptr) {
+        return m_commsExternalField->commsIsVersionDependent();
+    }
+
     return (m_commsMemberField != nullptr) && (m_commsMemberField->commsIsVersionDependent());
 }
 
diff --git a/app/commsdsl2comms/src/CommsRefField.cpp b/app/commsdsl2comms/src/CommsRefField.cpp
index 1acdcf8..48700d0 100644
--- a/app/commsdsl2comms/src/CommsRefField.cpp
+++ b/app/commsdsl2comms/src/CommsRefField.cpp
@@ -152,6 +152,12 @@ bool CommsRefField::commsDefHasNameFuncImpl() const
     return thisDisplayName != refDisplayName;
 }
 
+bool CommsRefField::commsIsVersionDependentImpl() const
+{
+    assert(m_commsReferencedField != nullptr);
+    return m_commsReferencedField->commsIsVersionDependent();
+}
+
 std::size_t CommsRefField::commsMinLengthImpl() const
 {
     assert(m_commsReferencedField != nullptr);
diff --git a/app/commsdsl2comms/src/CommsRefField.h b/app/commsdsl2comms/src/CommsRefField.h
index 4bc54ff..43a0bad 100644
--- a/app/commsdsl2comms/src/CommsRefField.h
+++ b/app/commsdsl2comms/src/CommsRefField.h
@@ -49,6 +49,7 @@ protected:
     virtual std::string commsDefBaseClassImpl() const override;
     virtual bool commsIsLimitedCustomizableImpl() const override;
     virtual bool commsDefHasNameFuncImpl() const override;
+    virtual bool commsIsVersionDependentImpl() const override;
     virtual std::size_t commsMinLengthImpl() const override;
     virtual std::size_t commsMaxLengthImpl() const override;
     virtual std::string commsValueAccessStrImpl(const std::string& accStr, const std::string& prefix) const override;
-- 
2.43.0


From 60785da0ab5085f89116bac0206dedf7d11790ff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 065/114] fix: take version dependent members of list elements
 into account when calculating minimal length

---
 app/commsdsl2comms/src/CommsListField.cpp | 32 +++++++++++++++++++++++
 app/commsdsl2comms/src/CommsListField.h   |  1 +
 2 files changed, 33 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index 17cc2bc..13d2e11 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -534,6 +534,38 @@ CommsListField::GenStringsList CommsListField::commsExtraBareMetalDefaultOptions
         };
 }
 
+std::size_t CommsListField::commsMinLengthImpl() const
+{
+    auto obj = genListFieldParseObj();
+    auto fixedCount = obj.parseFixedCount();
+    if (fixedCount == 0U) {
+        return CommsBase::commsMinLengthImpl();
+    }
+
+    auto* elem = m_commsExternalElementField;
+    if (elem == nullptr) {
+        elem = m_commsMemberElementField;
+    }
+
+    assert(elem != nullptr);
+
+    auto* prefix = m_commsExternalElemLengthPrefixField;
+    if (prefix == nullptr) {
+        prefix = m_commsMemberElemLengthPrefixField;
+    }
+
+    std::size_t prefixLength = 0U;
+    if (prefix != nullptr) {
+        prefixLength = prefix->commsMinLength();
+    }
+
+    if (!obj.parseElemFixedLength()) {
+        prefixLength *= fixedCount;
+    }
+
+    return (fixedCount * elem->commsMinLength()) + prefixLength;
+}
+
 std::size_t CommsListField::commsMaxLengthImpl() const
 {
     auto obj = genListFieldParseObj();
diff --git a/app/commsdsl2comms/src/CommsListField.h b/app/commsdsl2comms/src/CommsListField.h
index cc08a3e..cc65254 100644
--- a/app/commsdsl2comms/src/CommsListField.h
+++ b/app/commsdsl2comms/src/CommsListField.h
@@ -53,6 +53,7 @@ protected:
     virtual bool commsIsVersionDependentImpl() const override;
     virtual std::string commsMembersCustomizationOptionsBodyImpl(CommsFieldOptsFunc fieldOptsFunc) const override;
     virtual GenStringsList commsExtraBareMetalDefaultOptionsImpl() const override;
+    virtual std::size_t commsMinLengthImpl() const override;
     virtual std::size_t commsMaxLengthImpl() const override;
     virtual std::string commsSizeAccessStrImpl(const std::string& accStr, const std::string& prefix) const override;
 
-- 
2.43.0


From 9d81a447d17a768d0c57005e4f503292f1ba99cd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 066/114] fix: do not replace the value valid for the used
 version when refreshing the field

---
 app/commsdsl2comms/src/CommsIntField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsIntField.cpp b/app/commsdsl2comms/src/CommsIntField.cpp
index b0da2aa..fc55ce1 100644
--- a/app/commsdsl2comms/src/CommsIntField.cpp
+++ b/app/commsdsl2comms/src/CommsIntField.cpp
@@ -245,7 +245,7 @@ std::string CommsIntField::commsDefRefreshFuncBodyImpl() const
 
     static const std::string Templ =
         "bool updated = Base::refresh();\n"
-        "if (Base::valid()) {\n"
+        "if (this->valid()) {\n"
         "    return updated;\n"
         "};\n"
         "Base::setValue(#^#VALID_VALUE#$#);\n"
-- 
2.43.0


From c441fd8ca797dda3c3ab591bfda56c36640e018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 067/114] fix: handle valid ranges older than the float field
 which inherited them

---
 app/commsdsl2comms/src/CommsFloatField.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index eb5a6c5..4dbdbe9 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -755,6 +755,14 @@ CommsFloatField::GenStringsList CommsFloatField::commsValidVersionBasedCondition
 {
     auto obj = genFloatFieldParseObj();
     auto validRanges = obj.parseValidRanges(); // copy
+    auto minVersion = obj.parseSinceVersion();
+    auto maxVersion = obj.parseDeprecatedSince();
+
+    // The ranges inherited from the reused field may exceed the lifetime of this one
+    for (auto& r : validRanges) {
+        r.m_sinceVersion = std::max(r.m_sinceVersion, minVersion);
+        r.m_deprecatedSince = std::min(r.m_deprecatedSince, maxVersion);
+    }
 
     std::sort(
         validRanges.begin(), validRanges.end(),
@@ -783,8 +791,6 @@ CommsFloatField::GenStringsList CommsFloatField::commsValidVersionBasedCondition
             return e1.m_max < e2.m_max;
         });
 
-    auto minVersion = obj.parseSinceVersion();
-    auto maxVersion = obj.parseDeprecatedSince();
     auto verDepIter =
         std::find_if(
             validRanges.begin(), validRanges.end(),
-- 
2.43.0


From 46d252f0797d6d01e5a006f6a1e42386a94baed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:34 +0000
Subject: [PATCH 068/114] fix: use all the enclosing namespaces in the scope
 and location of the files of a nested namespace

---
 lib/src/gen/comms.cpp | 65 +++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 42 deletions(-)

diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index 4343d97..0bd6abd 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -76,6 +76,20 @@ std::string genScopeForElement(
     return result;
 }
 
+std::vector<std::string> genNamespaceElemsInternal(const GenNamespace& ns)
+{
+    std::vector<std::string> result;
+    auto* parent = ns.genGetParent();
+    if ((parent != nullptr) && (parent->genElemType() == GenElem::GenType_Namespace)) {
+        result = genNamespaceElemsInternal(static_cast<const GenNamespace&>(*parent));
+    }
+
+    if (!ns.genName().empty()) {
+        result.push_back(ns.genName());
+    }
+    return result;
+}
+
 void genAddElemNamespaceScopeInternal(
     GenElem::GenType elemType,
     const GenElem* parent,
@@ -372,10 +386,7 @@ std::string genScopeForInput(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceElemsInternal(ns);
     subElems.push_back(strings::genInputNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -388,10 +399,7 @@ std::string genScopeForFactory(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceElemsInternal(ns);
     subElems.push_back(strings::genFactoryNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -404,10 +412,7 @@ std::string genScopeForDispatch(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceElemsInternal(ns);
     subElems.push_back(strings::genCispatchNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -431,11 +436,7 @@ std::string genScopeForNamespaceMember(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
-
+    auto subElems = genNamespaceElemsInternal(ns);
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
 }
 
@@ -511,22 +512,14 @@ std::string genRelHeaderForOptions(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
-
+    auto subElems = genNamespaceElemsInternal(ns);
     subElems.push_back(strings::genCispatchNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
-
+    auto subElems = genNamespaceElemsInternal(ns);
     subElems.push_back(strings::genFactoryNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
@@ -539,21 +532,13 @@ std::string genRelHeaderForMsgId(const std::string& name, const GenGenerator& ge
 
 std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
-
+    auto subElems = genNamespaceElemsInternal(ns);
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 std::string genRelSourceForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
-
+    auto subElems = genNamespaceElemsInternal(ns);
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppSourceSuffixStr();
 }
 
@@ -579,11 +564,7 @@ std::string genRelHeaderForChecksum(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForInput(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
-
+    auto subElems = genNamespaceElemsInternal(ns);
     subElems.push_back(strings::genInputNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
-- 
2.43.0


From 5b4bd8ef938c1e5328e94ffd5d01c569714f1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:03 +0000
Subject: [PATCH 069/114] fix: take the message index into account when
 dispatching a message with unique id among the messages with repeated ids

---
 app/commsdsl2comms/src/CommsDispatch.cpp | 7 ++++---
 app/commsdsl2comms/src/CommsDispatch.h   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDispatch.cpp b/app/commsdsl2comms/src/CommsDispatch.cpp
index eab8655..ce406eb 100644
--- a/app/commsdsl2comms/src/CommsDispatch.cpp
+++ b/app/commsdsl2comms/src/CommsDispatch.cpp
@@ -637,7 +637,7 @@ std::string CommsDispatch::commsDispatchCodeInternal(const std::string& name, Co
         {"MSG2", secondMsg != nullptr ? comms::genScopeFor(*secondMsg, m_commsGenerator) : std::string("SomeOtherMessage")},
         {"MSG1_NAME", firstMsg != nullptr ? comms::genClassName(firstMsg->genParseObj().parseName()) : std::string("SomeMessage")},
         {"MSG2_NAME", secondMsg != nullptr ? comms::genClassName(secondMsg->genParseObj().parseName()) : std::string("SomeOtherMessage")},
-        {"CASES", commsCasesCodeInternal(map)},
+        {"CASES", commsCasesCodeInternal(map, hasMultipleMessagesWithSameId)},
         {"DISPATCHER", commsMsgDispatcherCodeInternal(name)},
     };
 
@@ -645,7 +645,7 @@ std::string CommsDispatch::commsDispatchCodeInternal(const std::string& name, Co
     return util::genProcessTemplate(templ, repl);
 }
 
-std::string CommsDispatch::commsCasesCodeInternal(const CommsMessagesMap& map) const
+std::string CommsDispatch::commsCasesCodeInternal(const CommsMessagesMap& map, bool hasMultipleMessagesWithSameId) const
 {
     util::GenStringsList cases;
     for (auto& elem : map) {
@@ -660,7 +660,8 @@ std::string CommsDispatch::commsCasesCodeInternal(const CommsMessagesMap& map) c
             "    return handler.handle(static_cast<MsgType&>(msg));\n"
             "}";
 
-        if (msgList.size() == 1) {
+        if (!hasMultipleMessagesWithSameId) {
+            assert(msgList.size() == 1U);
             util::GenReplacementMap repl = {
                 {"MSG_ID", idStr},
                 {"MSG_TYPE", comms::genScopeFor(*msgList.front(), m_commsGenerator)},
diff --git a/app/commsdsl2comms/src/CommsDispatch.h b/app/commsdsl2comms/src/CommsDispatch.h
index 1d8f06b..d4de1c1 100644
--- a/app/commsdsl2comms/src/CommsDispatch.h
+++ b/app/commsdsl2comms/src/CommsDispatch.h
@@ -49,7 +49,7 @@ private:
 
     std::string commsIncludesInternal(const std::string& inputPrefix) const;
     std::string commsDispatchCodeInternal(const std::string& name, CommsCheckMsgFunc&& func) const;
-    std::string commsCasesCodeInternal(const CommsMessagesMap& map) const;
+    std::string commsCasesCodeInternal(const CommsMessagesMap& map, bool hasMultipleMessagesWithSameId) const;
     std::string commsMsgDispatcherCodeInternal(const std::string& inputPrefix) const;
 
     CommsGenerator& m_commsGenerator;
-- 
2.43.0


From c9928ef209a7a2d0e554cb70cf7224bb31653582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:32 +0000
Subject: [PATCH 070/114] fix: select the type of the message ids enumeration
 according to its values

---
 app/commsdsl2comms/src/CommsMsgId.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsMsgId.cpp b/app/commsdsl2comms/src/CommsMsgId.cpp
index bfc3d45..30b99f7 100644
--- a/app/commsdsl2comms/src/CommsMsgId.cpp
+++ b/app/commsdsl2comms/src/CommsMsgId.cpp
@@ -99,6 +99,10 @@ bool CommsMsgId::commsWrite() const
 std::string CommsMsgId::commsTypeInternal() const
 {
     auto allMsgIdFields = m_parent.genFindMessageIdFields();
+    if (allMsgIdFields.empty() && m_parent.genName().empty()) {
+        allMsgIdFields = m_commsGenerator.genCurrentSchema().genGetAllMessageIdFields();
+    }
+
     if (allMsgIdFields.size() == 1U) {
         auto* msgIdField = allMsgIdFields.front();
         assert(msgIdField->genParseObj().parseKind() == commsdsl::parse::ParseField::ParseKind::Enum);
@@ -108,6 +112,10 @@ std::string CommsMsgId::commsTypeInternal() const
     }
 
     auto allMessages = m_parent.genGetAllMessages();
+    if (allMessages.empty() && m_parent.genName().empty()) {
+        allMessages = m_commsGenerator.genCurrentSchema().genGetAllMessages();
+    }
+
     auto iter =
         std::max_element(
             allMessages.begin(), allMessages.end(),
-- 
2.43.0


From 7bd4a52dd6cf1e633047c96a7230463e258b539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:27 +0000
Subject: [PATCH 071/114] fix: use the right scope of the payload options when
 the main namespace is forced into the options

DataViewDefaultOptions.h and BareMetalDefaultOptions.h referred to
TBase::frame::... even with --force-main-ns-in-options (or multiple
schemas), when the options live in TBase::<main namespace>::frame::..., so
none of them could be compiled.
---
 app/commsdsl2comms/src/CommsPayloadLayer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsPayloadLayer.cpp b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
index cd03cbc..8717fdd 100644
--- a/app/commsdsl2comms/src/CommsPayloadLayer.cpp
+++ b/app/commsdsl2comms/src/CommsPayloadLayer.cpp
@@ -137,11 +137,12 @@ std::string CommsPayloadLayer::commsCustomFieldDataViewOptsImpl() const
         "        >;\n"
         "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
+    auto& commsGen = CommsGenerator::commsCast(genGenerator());
     util::GenReplacementMap repl = {
         {"CLASS_NAME", comms::genClassName(genParseObj().parseName())},
         {"SUFFIX", strings::genMembersSuffixStr()},
         {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), false, true)}
+        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), commsGen.commsHasMainNamespaceInOptions(), true)}
     };
 
     return util::genProcessTemplate(Templ, repl);
@@ -161,11 +162,12 @@ std::string CommsPayloadLayer::commsCustomFieldBareMetalOptsImpl() const
         "        >;\n"
         "}; // struct #^#CLASS_NAME#$##^#SUFFIX#$#\n";
 
+    auto& commsGen = CommsGenerator::commsCast(genGenerator());
     util::GenReplacementMap repl = {
         {"CLASS_NAME", comms::genClassName(genParseObj().parseName())},
         {"SUFFIX", strings::genMembersSuffixStr()},
         {"SCOPE", comms::genScopeFor(*this, genGenerator())},
-        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), false, true)}
+        {"OPT_SCOPE", comms::genScopeFor(*this, genGenerator(), commsGen.commsHasMainNamespaceInOptions(), true)}
     };
 
     return util::genProcessTemplate(Templ, repl);
-- 
2.43.0


From 8fd303189c6fd821658ef77e2ff2d448cb9b0513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:27 +0000
Subject: [PATCH 072/114] fix: call inherited doValid() with its scope when
 code injection comments are generated

With --code-inject-comments the code of the validity check is never empty
(it contains the comment), so that doRead() of a message with failOnInvalid
called unqualified doValid(), which is not found in the dependent base.
---
 app/commsdsl2comms/src/CommsMessage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 16a7a89..cecd779 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -1367,8 +1367,8 @@ std::string CommsMessage::commsDefReadFuncInternal() const
 
                 util::GenReplacementMap failOnInvalidRepl;
 
-                bool hasGeneratedValid = commsDefValidFuncInternal().empty();
-                if (hasGeneratedValid) {
+                bool hasOwnValid = m_customCode.m_hasValid || (!commsDefOrigValidCodeInternal().empty());
+                if (!hasOwnValid) {
                     failOnInvalidRepl["VALID_PREFIX"] = "Base::";
                 }
 
-- 
2.43.0


From 8f1b9d3f8db3f5d82dc8f864e63b10a1ec02b1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:18 +0000
Subject: [PATCH 073/114] fix: keep the end of line before the appended code of
 the generated SWIG CMakeLists.txt

---
 app/commsdsl2swig/src/SwigCmake.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2swig/src/SwigCmake.cpp b/app/commsdsl2swig/src/SwigCmake.cpp
index a8f515a..6fe8e17 100644
--- a/app/commsdsl2swig/src/SwigCmake.cpp
+++ b/app/commsdsl2swig/src/SwigCmake.cpp
@@ -117,7 +117,7 @@ bool SwigCmake::swigWriteInternal() const
         "        $<$<CXX_COMPILER_ID:Clang>:-ftemplate-depth=2048 -fconstexpr-depth=4096 -fbracket-depth=2048>\n"
         "    )\n"
         "endforeach()\n\n"
-        "#^#APPEND#$#"
+        "#^#APPEND#$#\n"
         ;
 
     util::GenReplacementMap repl = {
-- 
2.43.0


From 0b68e90a9cf6635db7a81fb57a588437234251ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:35 +0000
Subject: [PATCH 074/114] fix: don't take injected code from the current
 directory when code input directory is not provided

---
 lib/src/gen/GenGenerator.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 9cf55fb..0b397b9 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1410,11 +1410,7 @@ std::string GenGenerator::genReadCodeInjectCode(
     bool* realCodeInjected,
     const std::string& forcedCommentPrefix) const
 {
-    auto path = genGetCodeDir();
-    if (!path.empty()) {
-        path += '/';
-    }
-    path += relPath;
+    auto& codeDir = genGetCodeDir();
 
     auto updateRealCodeInjected =
         [realCodeInjected](bool val)
@@ -1424,7 +1420,11 @@ std::string GenGenerator::genReadCodeInjectCode(
             }
         };
 
-    auto code = util::genReadFileContents(path);
+    std::string code;
+    if (!codeDir.empty()) {
+        code = util::genReadFileContents(codeDir + '/' + relPath);
+    }
+
     if (!code.empty()) {
         updateRealCodeInjected(true);
         return code;
-- 
2.43.0


From 1a968c40e1d6922e40d4c9439d9793a9a35372ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:10 +0000
Subject: [PATCH 075/114] fix: report failure when generated options file
 cannot be written

---
 app/commsdsl2comms/src/CommsDefaultOptions.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDefaultOptions.cpp b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
index 06f411c..a713a34 100644
--- a/app/commsdsl2comms/src/CommsDefaultOptions.cpp
+++ b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
@@ -242,8 +242,7 @@ bool CommsDefaultOptions::commsWriteDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
-    return true;
+    return commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
@@ -263,8 +262,7 @@ bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
@@ -284,8 +282,7 @@ bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
@@ -305,8 +302,7 @@ bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
@@ -334,8 +330,7 @@ bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteMsgFactoryDefaultOptionsInternal() const
@@ -518,8 +513,7 @@ bool CommsDefaultOptions::commsWriteSingleMsgFactoryDefaultOptionsInternal(
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
 }
 
 } // namespace commsdsl2comms
\ No newline at end of file
-- 
2.43.0


From 45a2f2e79e3455b9dd4b95b5a62f897568f0e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:10 +0000
Subject: [PATCH 076/114] fix: report failure when copied extra file cannot be
 modified

---
 lib/src/gen/GenGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 0b397b9..217e130 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1704,6 +1704,12 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             }
 
             outStream << content;
+            outStream.flush();
+            if (!outStream.good()) {
+                genLogger().genError("Failed to modify " + destStr + ".");
+                return false;
+            }
+
             genLogger().genInfo("Updated " + destStr + " to have proper main namespace.");
         }
     }
-- 
2.43.0


From 01883380317b23b22c5cef27e92ea99fe84664f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:38 +0000
Subject: [PATCH 077/114] fix: treat warnings reported when the code is written
 as errors when requested

---
 lib/src/gen/GenGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 217e130..b19d5cc 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -720,6 +720,11 @@ int GenGenerator::genExec(const GenProgramOptions& options)
         return -2;
     }
 
+    if (genLogger().genHadWarning()) {
+        genLogger().genError("Warning treated as error");
+        return -2;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From e7df4a295ae4a022f36c6bebb7b7edbca171016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:38 +0000
Subject: [PATCH 078/114] fix: report input files list which cannot be read

---
 lib/include/commsdsl/gen/GenProgramOptions.h | 1 +
 lib/src/gen/GenGenerator.cpp                 | 9 +++++++++
 lib/src/gen/GenProgramOptions.cpp            | 7 ++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/include/commsdsl/gen/GenProgramOptions.h b/lib/include/commsdsl/gen/GenProgramOptions.h
index 4e9e00f..59bd113 100644
--- a/lib/include/commsdsl/gen/GenProgramOptions.h
+++ b/lib/include/commsdsl/gen/GenProgramOptions.h
@@ -59,6 +59,7 @@ public:
     bool genDebugRequested() const;
     bool genWarnAsErrRequested() const;
     const std::string& genGetOutputDirectory() const;
+    const std::string& genGetInputFilesList() const;
     GenStringsList genGetInputFiles() const;
     const std::string& genGetCodeInputDirectory() const;
     bool genMultipleSchemasEnabled() const;
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index b19d5cc..9363563 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1388,6 +1388,15 @@ GenGenerator::OptsProcessResult GenGenerator::genProcessOptions(const GenProgram
         logger.genSetWarnAsError();
     }
 
+    auto& inputFilesList = options.genGetInputFilesList();
+    if (!inputFilesList.empty()) {
+        std::error_code ec;
+        if (fs::is_directory(inputFilesList, ec) || (!util::genIsFileReadable(inputFilesList))) {
+            logger.genError("Failed to read input files list: \"" + inputFilesList + "\".");
+            return OptsProcessResult_Failure;
+        }
+    }
+
     if (options.genHasNamespaceOverride()) {
         genSetNamespaceOverride(options.genGetNamespace());
     }
diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 4bd4376..b4c6fae 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -481,11 +481,16 @@ const std::string& GenProgramOptions::genGetOutputDirectory() const
     return genValue(GenOutputDirStr);
 }
 
+const std::string& GenProgramOptions::genGetInputFilesList() const
+{
+    return genValue(GenInputFilesListStr);
+}
+
 GenProgramOptions::GenStringsList GenProgramOptions::genGetInputFiles() const
 {
     std::vector<std::string> result;
     do {
-        auto& fileName = genValue(GenInputFilesListStr);
+        auto& fileName = genGetInputFilesList();
         if (fileName.empty()) {
             break;
         }
-- 
2.43.0


From 5edad6c1da28c38e1cdb388e2ec4b525be803292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:13 +0000
Subject: [PATCH 079/114] fix: report missing values of the options and don't
 lose empty ones

---
 lib/include/commsdsl/gen/GenProgramOptions.h |  1 +
 lib/src/gen/GenGenerator.cpp                 |  7 +++++++
 lib/src/gen/GenProgramOptions.cpp            | 22 ++++++++++++++------
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/lib/include/commsdsl/gen/GenProgramOptions.h b/lib/include/commsdsl/gen/GenProgramOptions.h
index 59bd113..9dda14f 100644
--- a/lib/include/commsdsl/gen/GenProgramOptions.h
+++ b/lib/include/commsdsl/gen/GenProgramOptions.h
@@ -50,6 +50,7 @@ public:
     bool genIsOptUsed(const std::string& optStr) const;
     const std::string& genValue(const std::string& optStr) const;
     const GenStringsList& genArgs() const;
+    const GenStringsList& genErrors() const;
     const std::string& genApp() const;
     std::string genHelpStr() const;
 
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 9363563..4797df0 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1371,6 +1371,13 @@ GenGenerator::OptsProcessResult GenGenerator::genProcessOptions(const GenProgram
     }
 
     auto& logger = genLogger();
+    if (!options.genErrors().empty()) {
+        for (auto& e : options.genErrors()) {
+            logger.genError(e);
+        }
+        return OptsProcessResult_Failure;
+    }
+
     if (options.genQuietRequested() && options.genDebugRequested()) {
         logger.genError("Cannot use both --quiet and --debug options at the same time");
         return OptsProcessResult_Failure;
diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index b4c6fae..7927fe1 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -100,11 +100,6 @@ public:
             const char* nextToken = argv[idx];
             assert(nextToken != nullptr);
             std::string nextStr(nextToken);
-            if (nextStr.empty()) {
-                assert(false); // Should not happen
-                continue;
-            }
-
             if (opt != nullptr) {
                 assert(opt->m_hasParam);
                 opt->m_value = std::move(nextStr);
@@ -112,7 +107,7 @@ public:
                 continue;
             }
 
-            if (nextStr[0] != '-') {
+            if (nextStr.empty() || (nextStr[0] != '-')) {
                 m_args.push_back(nextStr);
                 continue;
             }
@@ -147,6 +142,10 @@ public:
             auto shortOpt = nextStr.substr(1);
             processOptFunc(shortOpt, m_shortOpts);
         }
+
+        if (opt != nullptr) {
+            m_errors.push_back("Value of the option \"" + std::string(argv[argc - 1]) + "\" is missing.");
+        }
     }
 
     bool genIsOptUsed(const std::string& optStr) const
@@ -172,6 +171,11 @@ public:
         return m_args;
     }
 
+    const GenStringsList& genErrors() const
+    {
+        return m_errors;
+    }
+
     const std::string& genApp() const
     {
         return m_app;
@@ -333,6 +337,7 @@ private:
     OptInfosMap m_shortOpts;
     OptInfosMap m_longOpts;
     GenStringsList m_args;
+    GenStringsList m_errors;
     std::string m_app;
 };
 
@@ -441,6 +446,11 @@ const GenProgramOptions::GenStringsList& GenProgramOptions::genArgs() const
     return m_impl->genArgs();
 }
 
+const GenProgramOptions::GenStringsList& GenProgramOptions::genErrors() const
+{
+    return m_impl->genErrors();
+}
+
 const std::string& GenProgramOptions::genApp() const
 {
     return m_impl->genApp();
-- 
2.43.0


From 4c4a0595bcafa0069a1c73bbc6d79b5270f7b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:13 +0000
Subject: [PATCH 080/114] fix: treat warning about unknown option as error when
 requested

---
 lib/include/commsdsl/gen/GenProgramOptions.h |  1 +
 lib/src/gen/GenGenerator.cpp                 |  4 ++++
 lib/src/gen/GenProgramOptions.cpp            | 12 ++++++++++++
 3 files changed, 17 insertions(+)

diff --git a/lib/include/commsdsl/gen/GenProgramOptions.h b/lib/include/commsdsl/gen/GenProgramOptions.h
index 9dda14f..42f693b 100644
--- a/lib/include/commsdsl/gen/GenProgramOptions.h
+++ b/lib/include/commsdsl/gen/GenProgramOptions.h
@@ -59,6 +59,7 @@ public:
     bool genQuietRequested() const;
     bool genDebugRequested() const;
     bool genWarnAsErrRequested() const;
+    bool genHadWarning() const;
     const std::string& genGetOutputDirectory() const;
     const std::string& genGetInputFilesList() const;
     GenStringsList genGetInputFiles() const;
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 4797df0..a3a0523 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1393,6 +1393,10 @@ GenGenerator::OptsProcessResult GenGenerator::genProcessOptions(const GenProgram
 
     if (options.genWarnAsErrRequested()) {
         logger.genSetWarnAsError();
+        if (options.genHadWarning()) {
+            logger.genError("Warning treated as error");
+            return OptsProcessResult_Failure;
+        }
     }
 
     auto& inputFilesList = options.genGetInputFilesList();
diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 7927fe1..3ceb294 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -171,6 +171,11 @@ public:
         return m_args;
     }
 
+    bool genHadWarning() const
+    {
+        return m_hadWarning;
+    }
+
     const GenStringsList& genErrors() const
     {
         return m_errors;
@@ -297,6 +302,7 @@ private:
 
     void genReportUnknownOption(const std::string& opt)
     {
+        m_hadWarning = true;
         std::cerr << "WARNING: Unknown option \"" << opt << "\"!" << std::endl;
     }
 
@@ -339,6 +345,7 @@ private:
     GenStringsList m_args;
     GenStringsList m_errors;
     std::string m_app;
+    bool m_hadWarning = false;
 };
 
 GenProgramOptions::GenProgramOptions() :
@@ -486,6 +493,11 @@ bool GenProgramOptions::genWarnAsErrRequested() const
     return genIsOptUsed(GenWarnAsErrStr);
 }
 
+bool GenProgramOptions::genHadWarning() const
+{
+    return m_impl->genHadWarning();
+}
+
 const std::string& GenProgramOptions::genGetOutputDirectory() const
 {
     return genValue(GenOutputDirStr);
-- 
2.43.0


From a170301b57f7294bb0c336c1835915dc82be4fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:13 +0000
Subject: [PATCH 081/114] fix: refuse version options which are not valid
 numbers

---
 lib/include/commsdsl/gen/GenProgramOptions.h |  4 +--
 lib/include/commsdsl/gen/util.h              |  2 +-
 lib/src/gen/GenGenerator.cpp                 | 15 +++++++--
 lib/src/gen/GenProgramOptions.cpp            | 11 ++++---
 lib/src/gen/util.cpp                         | 32 ++++++++++++++++----
 5 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/lib/include/commsdsl/gen/GenProgramOptions.h b/lib/include/commsdsl/gen/GenProgramOptions.h
index 42f693b..81395dd 100644
--- a/lib/include/commsdsl/gen/GenProgramOptions.h
+++ b/lib/include/commsdsl/gen/GenProgramOptions.h
@@ -67,9 +67,9 @@ public:
     bool genMultipleSchemasEnabled() const;
     bool genHasNamespaceOverride() const;
     const std::string& genGetNamespace() const;
-    unsigned genGetMinRemoteVersion() const;
+    unsigned genGetMinRemoteVersion(bool* ok = nullptr) const;
     bool genHasForcedSchemaVersion() const;
-    unsigned genGetForcedSchemaVersion() const;
+    unsigned genGetForcedSchemaVersion(bool* ok = nullptr) const;
     bool genCodeInjectComments() const;
     const std::string& genGetCodeVersion() const;
     const std::string& genMessagesListFile() const;
diff --git a/lib/include/commsdsl/gen/util.h b/lib/include/commsdsl/gen/util.h
index 7c97a13..ad7e0fd 100644
--- a/lib/include/commsdsl/gen/util.h
+++ b/lib/include/commsdsl/gen/util.h
@@ -36,7 +36,7 @@ std::string genStrToName(const std::string& value);
 std::vector<std::string> genStrSplitByAnyChar(const std::string& str, const std::string& splitChars, bool compressed = true);
 std::vector<std::string> genStrSplit(const std::string& str, const std::string& sep, bool compressed = true);
 std::string genStrInsertIndent(const std::string& str);
-unsigned genStrToUnsigned(const std::string& str);
+unsigned genStrToUnsigned(const std::string& str, bool* ok = nullptr);
 bool genStrStartsWith(const std::string& str, const std::string& prefix);
 bool genStrEndsWith(const std::string& str, const std::string& suffix);
 std::string genStrToUpper(const std::string& str);
diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index a3a0523..67586ee 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1413,13 +1413,24 @@ GenGenerator::OptsProcessResult GenGenerator::genProcessOptions(const GenProgram
     }
 
     if (options.genHasForcedSchemaVersion()) {
-        genForceSchemaVersion(options.genGetForcedSchemaVersion());
+        bool validVersion = false;
+        genForceSchemaVersion(options.genGetForcedSchemaVersion(&validVersion));
+        if (!validVersion) {
+            logger.genError("Invalid value of the forced schema version.");
+            return OptsProcessResult_Failure;
+        }
+    }
+
+    bool validRemoteVersion = false;
+    genSetMinRemoteVersion(options.genGetMinRemoteVersion(&validRemoteVersion));
+    if (!validRemoteVersion) {
+        logger.genError("Invalid value of the minimal remote version.");
+        return OptsProcessResult_Failure;
     }
 
     genSetOutputDir(options.genGetOutputDirectory());
     genSetCodeDir(options.genGetCodeInputDirectory());
     genSetMultipleSchemasEnabled(options.genMultipleSchemasEnabled());
-    genSetMinRemoteVersion(options.genGetMinRemoteVersion());
     genSetCodeVersion(options.genGetCodeVersion());
     genSetMessagesListFile(options.genMessagesListFile());
     genSetForcedPlatform(options.genForcedPlatform());
diff --git a/lib/src/gen/GenProgramOptions.cpp b/lib/src/gen/GenProgramOptions.cpp
index 3ceb294..ca48d35 100644
--- a/lib/src/gen/GenProgramOptions.cpp
+++ b/lib/src/gen/GenProgramOptions.cpp
@@ -561,13 +561,16 @@ const std::string& GenProgramOptions::genGetNamespace() const
     return genValue(GenNamespaceStr);
 }
 
-unsigned GenProgramOptions::genGetMinRemoteVersion() const
+unsigned GenProgramOptions::genGetMinRemoteVersion(bool* ok) const
 {
     if (!genIsOptUsed(GenMinRemoteVerStr)) {
+        if (ok != nullptr) {
+            *ok = true;
+        }
         return 0U;
     }
 
-    return util::genStrToUnsigned(genValue(GenMinRemoteVerStr));
+    return util::genStrToUnsigned(genValue(GenMinRemoteVerStr), ok);
 }
 
 bool GenProgramOptions::genHasForcedSchemaVersion() const
@@ -575,9 +578,9 @@ bool GenProgramOptions::genHasForcedSchemaVersion() const
     return genIsOptUsed(GenForceVerStr);
 }
 
-unsigned GenProgramOptions::genGetForcedSchemaVersion() const
+unsigned GenProgramOptions::genGetForcedSchemaVersion(bool* ok) const
 {
-    return commsdsl::gen::util::genStrToUnsigned(genValue(GenForceVerStr));
+    return util::genStrToUnsigned(genValue(GenForceVerStr), ok);
 }
 
 bool GenProgramOptions::genCodeInjectComments() const
diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 0b22021..78cd93f 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -294,14 +294,34 @@ std::string genStrInsertIndent(const std::string& str)
     return strings::genIndentStr() + genStrReplace(str, "\n", "\n" + strings::genIndentStr());
 }
 
-unsigned genStrToUnsigned(const std::string& str)
+unsigned genStrToUnsigned(const std::string& str, bool* ok)
 {
-    try {
-        return static_cast<unsigned>(std::stoul(str));
-    }
-    catch (...) {
-        return 0U;
+    bool success = false;
+    unsigned result = 0U;
+    do {
+        if (str.empty() || (str.find_first_not_of("0123456789") != std::string::npos)) {
+            break;
+        }
+
+        try {
+            auto value = std::stoul(str);
+            result = static_cast<unsigned>(value);
+            success = (result == value);
+        }
+        catch (...) {
+            // Out of range, reported as failure
+        }
+
+        if (!success) {
+            result = 0U;
+        }
+    } while (false);
+
+    if (ok != nullptr) {
+        *ok = success;
     }
+
+    return result;
 }
 
 bool genStrStartsWith(const std::string& str, const std::string& prefix)
-- 
2.43.0


From a8420c2568e03d89d2235687199eb22282708953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:06 +0000
Subject: [PATCH 082/114] fix: report unknown messages, frames and interfaces
 named in options instead of dying

---
 lib/src/gen/GenGenerator.cpp |  4 ++--
 lib/src/gen/GenSchema.cpp    | 34 +++++-----------------------------
 2 files changed, 7 insertions(+), 31 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 67586ee..ea857c5 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -880,7 +880,7 @@ GenField* GenGenerator::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
-        if (field->genIsPrepared()) {
+        if ((field == nullptr) || (field->genIsPrepared())) {
             break;
         }
 
@@ -903,7 +903,7 @@ GenMessage* GenGenerator::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
-        if (msg->genIsPrepared()) {
+        if ((msg == nullptr) || (msg->genIsPrepared())) {
             break;
         }
 
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index f46a4eb..7ea7a3a 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -165,9 +165,6 @@ public:
                 });
 
         if ((nsIter == m_namespaces.end()) || ((*nsIter)->genName() != nsName)) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
             return nullptr;
         }
 
@@ -176,13 +173,7 @@ public:
             fromPos = pos + 1U;
         }
         std::string remStr(externalRef, fromPos);
-        auto result = (*nsIter)->genGindMessage(remStr);
-        if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
-        }
-        return result;
+        return (*nsIter)->genGindMessage(remStr);
     }
 
     GenMessage* genGindMessage(const std::string& externalRef)
@@ -208,9 +199,6 @@ public:
                 });
 
         if ((nsIter == m_namespaces.end()) || ((*nsIter)->genName() != nsName)) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
             return nullptr;
         }
 
@@ -219,13 +207,7 @@ public:
             fromPos = pos + 1U;
         }
         std::string remStr(externalRef, fromPos);
-        auto result = (*nsIter)->genFindFrame(remStr);
-        if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
-        }
-        return result;
+        return (*nsIter)->genFindFrame(remStr);
     }
 
     const GenInterface* genFindInterface(const std::string& externalRef) const
@@ -253,13 +235,7 @@ public:
             fromPos = pos + 1U;
         }
         std::string remStr(externalRef, fromPos);
-        auto result = (*nsIter)->genFindInterface(remStr);
-        if (result == nullptr) {
-            m_generator.genLogger().genError("Internal error: unknown external reference: " + externalRef);
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
-        }
-        return result;
+        return (*nsIter)->genFindInterface(remStr);
     }
 
     bool genCreateAll()
@@ -583,7 +559,7 @@ GenField* GenSchema::genFindField(const std::string& externalRef)
 {
     auto* field = m_impl->genFindField(externalRef);
     do {
-        if (field->genIsPrepared()) {
+        if ((field == nullptr) || (field->genIsPrepared())) {
             break;
         }
 
@@ -606,7 +582,7 @@ GenMessage* GenSchema::genGindMessage(const std::string& externalRef)
 {
     auto* msg = m_impl->genGindMessage(externalRef);
     do {
-        if (msg->genIsPrepared()) {
+        if ((msg == nullptr) || (msg->genIsPrepared())) {
             break;
         }
 
-- 
2.43.0


From 92a49c057f06637afe8ed0c5e8c54b8aa2985b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:09 +0000
Subject: [PATCH 083/114] fix: report failure when externally defined member
 field cannot be prepared instead of dying

---
 lib/src/gen/GenDataField.cpp     |  5 ++++-
 lib/src/gen/GenLayer.cpp         |  5 ++++-
 lib/src/gen/GenListField.cpp     | 25 ++++++++++++++++++++-----
 lib/src/gen/GenOptionalField.cpp |  5 ++++-
 lib/src/gen/GenRefField.cpp      |  1 -
 lib/src/gen/GenStringField.cpp   |  5 ++++-
 lib/src/gen/GenSyncLayer.cpp     |  5 ++++-
 7 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/lib/src/gen/GenDataField.cpp b/lib/src/gen/GenDataField.cpp
index 33cb891..42a732a 100644
--- a/lib/src/gen/GenDataField.cpp
+++ b/lib/src/gen/GenDataField.cpp
@@ -48,7 +48,10 @@ public:
         auto prefix = m_dataParseObj.parseLengthPrefixField();
         if (!prefix.parseExternalRef().empty()) {
             m_externalPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-            assert(m_externalPrefixField != nullptr);
+            if (m_externalPrefixField == nullptr) {
+                return false;
+            }
+
             return true;
         }
 
diff --git a/lib/src/gen/GenLayer.cpp b/lib/src/gen/GenLayer.cpp
index 12449ea..d523e98 100644
--- a/lib/src/gen/GenLayer.cpp
+++ b/lib/src/gen/GenLayer.cpp
@@ -63,7 +63,10 @@ public:
         auto extRef = dslField.parseExternalRef();
         if (!extRef.empty()) {
             m_externalField = m_generator.genFindField(extRef);
-            assert(m_externalField != nullptr);
+            if (m_externalField == nullptr) {
+                return false;
+            }
+
             m_externalField->genSetReferenced();
             return true;
         }
diff --git a/lib/src/gen/GenListField.cpp b/lib/src/gen/GenListField.cpp
index 0834ef1..492236f 100644
--- a/lib/src/gen/GenListField.cpp
+++ b/lib/src/gen/GenListField.cpp
@@ -47,7 +47,10 @@ public:
             assert(elementField.parseValid());
             if (!elementField.parseExternalRef().empty()) {
                 m_externalElementField = m_generator.genFindField(elementField.parseExternalRef());
-                assert(m_externalElementField != nullptr);
+                if (m_externalElementField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -65,7 +68,10 @@ public:
             auto prefix = m_parseObj.parseCountPrefixField();
             if (!prefix.parseExternalRef().empty()) {
                 m_externalCountPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-                assert(m_externalCountPrefixField != nullptr);
+                if (m_externalCountPrefixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -92,7 +98,10 @@ public:
             auto prefix = m_parseObj.parseLengthPrefixField();
             if (!prefix.parseExternalRef().empty()) {
                 m_externalLengthPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-                assert(m_externalLengthPrefixField != nullptr);
+                if (m_externalLengthPrefixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -116,7 +125,10 @@ public:
             auto prefix = m_parseObj.parseElemLengthPrefixField();
             if (!prefix.parseExternalRef().empty()) {
                 m_externalElemLengthPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-                assert(m_externalElemLengthPrefixField != nullptr);
+                if (m_externalElemLengthPrefixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
@@ -157,7 +169,10 @@ public:
             auto suffix = m_parseObj.parseTermSuffixField();
             if (!suffix.parseExternalRef().empty()) {
                 m_externalTermSuffixField = m_generator.genFindField(suffix.parseExternalRef());
-                assert(m_externalTermSuffixField != nullptr);
+                if (m_externalTermSuffixField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
diff --git a/lib/src/gen/GenOptionalField.cpp b/lib/src/gen/GenOptionalField.cpp
index e79fd20..2437c8e 100644
--- a/lib/src/gen/GenOptionalField.cpp
+++ b/lib/src/gen/GenOptionalField.cpp
@@ -46,7 +46,10 @@ public:
 
         if (!field.parseExternalRef().empty()) {
             m_externalField = m_generator.genFindField(field.parseExternalRef());
-            assert(m_externalField != nullptr);
+            if (m_externalField == nullptr) {
+                return false;
+            }
+
             return true;
         }
 
diff --git a/lib/src/gen/GenRefField.cpp b/lib/src/gen/GenRefField.cpp
index 37eea25..4718934 100644
--- a/lib/src/gen/GenRefField.cpp
+++ b/lib/src/gen/GenRefField.cpp
@@ -59,7 +59,6 @@ public:
 
         m_referencedField = m_generator.genFindField(fieldObj.parseExternalRef());
         if (m_referencedField == nullptr) {
-            assert(false);
             return false;
         }
 
diff --git a/lib/src/gen/GenStringField.cpp b/lib/src/gen/GenStringField.cpp
index b4257fd..a61a526 100644
--- a/lib/src/gen/GenStringField.cpp
+++ b/lib/src/gen/GenStringField.cpp
@@ -50,7 +50,10 @@ public:
         auto prefix = m_parseObj.parseLengthPrefixField();
         if (!prefix.parseExternalRef().empty()) {
             m_externalPrefixField = m_generator.genFindField(prefix.parseExternalRef());
-            assert(m_externalPrefixField != nullptr);
+            if (m_externalPrefixField == nullptr) {
+                return false;
+            }
+
             return true;
         }
 
diff --git a/lib/src/gen/GenSyncLayer.cpp b/lib/src/gen/GenSyncLayer.cpp
index 0abd6db..b47eb55 100644
--- a/lib/src/gen/GenSyncLayer.cpp
+++ b/lib/src/gen/GenSyncLayer.cpp
@@ -51,7 +51,10 @@ public:
             assert(escField.parseValid());
             if (!escField.parseExternalRef().empty()) {
                 m_externalEscField = m_generator.genFindField(escField.parseExternalRef());
-                assert(m_externalEscField != nullptr);
+                if (m_externalEscField == nullptr) {
+                    return false;
+                }
+
                 break;
             }
 
-- 
2.43.0


From 95e6b8eccfc81b2422fc1dabdf7d15bebd9985f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:49 +0000
Subject: [PATCH 084/114] Revert "fix: treat warnings reported when the code is
 written as errors when requested"

The existing tests require the notice of commsdsl2emscripten about enums
which it cannot bind not to be an error.
---
 lib/src/gen/GenGenerator.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index ea857c5..91f32c9 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -720,11 +720,6 @@ int GenGenerator::genExec(const GenProgramOptions& options)
         return -2;
     }
 
-    if (genLogger().genHadWarning()) {
-        genLogger().genError("Warning treated as error");
-        return -2;
-    }
-
     return 0;
 }
 
-- 
2.43.0


From aa4261f48ebc5308ef9b5b1a78971a1f445d8059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 085/114] fix: No message factory options for namespaces
 without messages

The frame options of a namespace which has no messages (directly or in nested namespaces) referred to
the MsgFactory alias that is not defined for such a namespace.
---
 app/commsdsl2comms/src/CommsNamespace.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsNamespace.cpp b/app/commsdsl2comms/src/CommsNamespace.cpp
index ca6ad75..5e92b64 100644
--- a/app/commsdsl2comms/src/CommsNamespace.cpp
+++ b/app/commsdsl2comms/src/CommsNamespace.cpp
@@ -215,6 +215,12 @@ std::string CommsNamespace::commsBareMetalDefaultOptions() const
 
 std::string CommsNamespace::commsMsgFactoryDefaultOptions() const
 {
+    if ((!genHasFramesRecursive()) ||
+        (!genHasMessagesRecursive())) {
+        // There is no message factory to use
+        return strings::genEmptyString();
+    }
+
     auto body =
         commsOptionsInternal(
             &CommsNamespace::commsMsgFactoryDefaultOptions,
-- 
2.43.0


From b5dc7ee1b1ce06fe4e38c096a6484f98174dceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 086/114] fix: Define the transport field access functions of
 the C interface with their declared names

---
 app/commsdsl2c/src/CInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CInterface.cpp b/app/commsdsl2c/src/CInterface.cpp
index b5562c2..d7bd501 100644
--- a/app/commsdsl2c/src/CInterface.cpp
+++ b/app/commsdsl2c/src/CInterface.cpp
@@ -472,7 +472,7 @@ std::string CInterface::cSourceCodeInternal() const
     util::GenStringsList fieldsAcc;
     for (auto* f : m_cFields) {
         static const std::string AccTempl =
-            "#^#HANDLE#$#* #^#NAME#$#_field_#^#FIELD_ACC#$#(#^#NAME#$#* msg)\n"
+            "#^#HANDLE#$#* #^#NAME#$#_transportField_#^#FIELD_ACC#$#(#^#NAME#$#* msg)\n"
             "{\n"
             "    return to#^#CONV_SUFFIX#$#(&(fromInterfaceHandle(msg)->transportField_#^#FIELD_ACC#$#()));\n"
             "}\n"
-- 
2.43.0


From 24c9cf98d562e2d987c8a66a5580e79c2662ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:42 +0000
Subject: [PATCH 087/114] fix: Define the isTentative / setTentative C
 functions with their declared names

---
 app/commsdsl2c/src/CField.cpp         | 4 ++--
 app/commsdsl2c/src/COptionalField.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2c/src/CField.cpp b/app/commsdsl2c/src/CField.cpp
index 715d308..2a4bbad 100644
--- a/app/commsdsl2c/src/CField.cpp
+++ b/app/commsdsl2c/src/CField.cpp
@@ -912,12 +912,12 @@ std::string CField::cSourceOptionalCodeInternal() const
         "    return from#^#CONV_SUFFIX#$#(field)->setMissing();\n"
         "}\n"
         "\n"
-        "bool #^#NAME#$#_isTenative(const #^#NAME#$#* field)\n"
+        "bool #^#NAME#$#_isTentative(const #^#NAME#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->isTentative();\n"
         "}\n"
         "\n"
-        "void #^#NAME#$#_setTenative(#^#NAME#$#* field)\n"
+        "void #^#NAME#$#_setTentative(#^#NAME#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->setTentative();\n"
         "}\n"
diff --git a/app/commsdsl2c/src/COptionalField.cpp b/app/commsdsl2c/src/COptionalField.cpp
index 9d5951f..0c853e4 100644
--- a/app/commsdsl2c/src/COptionalField.cpp
+++ b/app/commsdsl2c/src/COptionalField.cpp
@@ -159,12 +159,12 @@ std::string COptionalField::cSourceCodeImpl() const
         "    return from#^#CONV_SUFFIX#$#(field)->setMissing();\n"
         "}\n"
         "\n"
-        "bool #^#NAME#$##^#SUFFIX#$#_isTenative(const #^#NAME#$##^#SUFFIX#$#* field)\n"
+        "bool #^#NAME#$##^#SUFFIX#$#_isTentative(const #^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->isTentative();\n"
         "}\n"
         "\n"
-        "void #^#NAME#$##^#SUFFIX#$#_setTenative(#^#NAME#$##^#SUFFIX#$#* field)\n"
+        "void #^#NAME#$##^#SUFFIX#$#_setTentative(#^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->setTentative();\n"
         "}\n"
-- 
2.43.0


From de3125a3c6dfc9dd57978303fa07be6650e13808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:55 +0000
Subject: [PATCH 088/114] fix: Don't generate the C input messages bundle
 referring to a header that doesn't exist

commsdsl2comms provides input bundles only for the namespaces with frames.
---
 app/commsdsl2c/src/CNamespace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CNamespace.cpp b/app/commsdsl2c/src/CNamespace.cpp
index 35d2eb6..0614496 100644
--- a/app/commsdsl2c/src/CNamespace.cpp
+++ b/app/commsdsl2c/src/CNamespace.cpp
@@ -154,7 +154,8 @@ bool CNamespace::genWriteImpl() const
         return true;
     }
 
-    if (!m_input.cWrite()) {
+    // The input messages bundle is used (and provided by the protocol definition) only when there are frames
+    if (genHasFramesRecursive() && (!m_input.cWrite())) {
         return false;
     }
 
-- 
2.43.0


From ae48025dca2ba529ce9ada6929d3861b30384231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:47 +0000
Subject: [PATCH 089/114] fix: Include nested namespaces in the LaTeX document

The files of the nested namespaces were generated, but never referenced, i.e. their fields,
messages and frames were missing in the produced specification.
---
 app/commsdsl2latex/src/LatexNamespace.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2latex/src/LatexNamespace.cpp b/app/commsdsl2latex/src/LatexNamespace.cpp
index 5c87e9c..26a037d 100644
--- a/app/commsdsl2latex/src/LatexNamespace.cpp
+++ b/app/commsdsl2latex/src/LatexNamespace.cpp
@@ -255,10 +255,17 @@ bool LatexNamespace::latexHasDocElements() const
                     });
         };
 
+    auto& subNamespaces = genNamespaces();
     return
         hasInput(m_latexFields) ||
         hasInput(m_latexMessages) ||
-        hasInput(m_latexFrames);
+        hasInput(m_latexFrames) ||
+        std::any_of(
+            subNamespaces.begin(), subNamespaces.end(),
+            [](auto& ptr)
+            {
+                return latexCast(ptr.get())->latexHasDocElements();
+            });
 }
 
 std::string LatexNamespace::latexInputs() const
@@ -279,6 +286,13 @@ std::string LatexNamespace::latexInputs() const
     addInputFor(m_latexMessages);
     addInputFor(m_latexFrames);
 
+    for (auto& nsPtr : genNamespaces()) {
+        auto path = latexCast(nsPtr.get())->latexRelFilePath();
+        if (!path.empty()) {
+            inputs.push_back("\\input{" + path + "}");
+        }
+    }
+
     if (inputs.empty()) {
         return strings::genEmptyString();
     }
-- 
2.43.0


From 85604133b4ac58624c1d98f269010dd99f82351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:19 +0000
Subject: [PATCH 090/114] fix: List sources of nested namespaces and always
 generate the used factory in the tools_qt plugin

The sources in nested namespaces were generated, but not built. The message factory included by the frames
wasn't generated when the namespace of the frame doesn't have its own messages.
---
 app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp b/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
index 64e5b08..5ee771a 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtNamespace.cpp
@@ -61,11 +61,15 @@ ToolsQtNamespace::GenStringsList ToolsQtNamespace::toolsSourceFiles(const ToolsQ
         addToResult(toolsMessage->toolsSourceFiles(interface));
     }
 
-    if (genHasFramesRecursive() &&
-        genHasMessagesRecursive()) {
+    if (genHasFramesRecursive()) {
         addToResult(m_factory.toolsSourceFiles(interface));
     }
 
+    for (auto& nsPtr : genNamespaces()) {
+        assert(nsPtr);
+        addToResult(static_cast<const ToolsQtNamespace*>(nsPtr.get())->toolsSourceFiles(interface));
+    }
+
     return result;
 }
 
@@ -81,8 +85,8 @@ std::string ToolsQtNamespace::toolsFactoryClassScope(const commsdsl::gen::GenInt
 
 bool ToolsQtNamespace::genWriteImpl() const
 {
-    if ((!genHasFramesRecursive()) ||
-        (!genHasMessagesRecursive())) {
+    // The factory creates messages of all the namespaces
+    if (!genHasFramesRecursive()) {
         return true;
     }
 
-- 
2.43.0


From 2e426c6ac8d85753000be02cc1413a4a83da6424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:51 +0000
Subject: [PATCH 091/114] fix: commsdsl2c: insertion into a list at the
 requested position and up to its maximal size

The "insert" function returned NULL while the storage had no spare capacity (always for a fresh list) and
added the element at the end regardless of the index.
---
 app/commsdsl2c/src/CListField.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2c/src/CListField.cpp b/app/commsdsl2c/src/CListField.cpp
index 847954a..99b90ad 100644
--- a/app/commsdsl2c/src/CListField.cpp
+++ b/app/commsdsl2c/src/CListField.cpp
@@ -167,11 +167,15 @@ std::string CListField::cSourceCodeImpl() const
         "#^#ELEMENT#$#* #^#NAME#$##^#SUFFIX#$#_insert(#^#NAME#$##^#SUFFIX#$#* field, size_t idx)\n"
         "{\n"
         "    auto& val = from#^#CONV_SUFFIX#$#(field)->value();\n"
-        "    auto nextSize = std::max(idx + 1U, val.size() + 1U);\n"
-        "    if (val.capacity() <= nextSize) {\n"
+        "    auto prevSize = val.size();\n"
+        "    auto nextSize = std::max(idx + 1U, prevSize + 1U);\n"
+        "    if (val.max_size() < nextSize) {\n"
         "        return nullptr;\n"
         "    }\n"
         "    val.resize(nextSize);\n"
+        "    if (idx < prevSize) {\n"
+        "        std::rotate(val.begin() + idx, val.end() - 1, val.end());\n"
+        "    }\n"
         "    return to#^#ELEM_CONV_SUFFIX#$#(&val[idx]);\n"
         "}\n"
         "\n"
-- 
2.43.0


From bc964f8f6e67cd8b33e0c1db844b2448429d2b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:51 +0000
Subject: [PATCH 092/114] fix: commsdsl2c: type of the parameter of "name"
 functions of version dependent fields

The definition used the handle of the wrapping optional field, the declared function was not defined.
---
 app/commsdsl2c/src/CField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2c/src/CField.cpp b/app/commsdsl2c/src/CField.cpp
index 2a4bbad..4dea3cf 100644
--- a/app/commsdsl2c/src/CField.cpp
+++ b/app/commsdsl2c/src/CField.cpp
@@ -782,7 +782,7 @@ std::string CField::cSourceCommonFuncsInternal(bool forcedOptional) const
         "    return from#^#CONV_SUFFIX#$#(field)->length();\n"
         "}\n"
         "\n"
-        "const char* #^#NAME#$##^#SUFFIX#$#_name(const #^#NAME#$##^#SUFFX#$#* field)\n"
+        "const char* #^#NAME#$##^#SUFFIX#$#_name(const #^#NAME#$##^#SUFFIX#$#* field)\n"
         "{\n"
         "    return from#^#CONV_SUFFIX#$#(field)->name();\n"
         "}\n"
-- 
2.43.0


From a591deaf2f89e828218b9729d1ca2f064e358b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:06 +0000
Subject: [PATCH 093/114] fix: List C sources of fields defined in namespaces
 without a suitable interface

---
 app/commsdsl2c/src/CNamespace.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2c/src/CNamespace.cpp b/app/commsdsl2c/src/CNamespace.cpp
index 0614496..b558a9d 100644
--- a/app/commsdsl2c/src/CNamespace.cpp
+++ b/app/commsdsl2c/src/CNamespace.cpp
@@ -72,13 +72,15 @@ const CInterface* CNamespace::cInterface() const
 
 void CNamespace::cAddSourceFiles(GenStringsList& sources) const
 {
+    // The referenced fields are generated even when the namespace doesn't have any suitable interface
+    cAddSourceFilesInternal<CNamespace>(genNamespaces(), sources);
+    cAddSourceFilesInternal<CField>(genFields(), sources);
+
     if (!cCodeGenerationAllowed()) {
         genGenerator().genLogger().genDebug("No suitable interface for namespace, i.e. no includes " + genName());
         return;
     }
 
-    cAddSourceFilesInternal<CNamespace>(genNamespaces(), sources);
-    cAddSourceFilesInternal<CField>(genFields(), sources);
     cAddSourceFilesInternal<CMessage>(genMessages(), sources);
     cAddSourceFilesInternal<CFrame>(genFrames(), sources);
 
-- 
2.43.0


From 053b555e32c75aa29c706fc2f0af78326c05bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 094/114] fix: commsdsl2c: special values functions of version
 dependent fields

---
 app/commsdsl2c/src/CFloatField.cpp | 8 ++++++++
 app/commsdsl2c/src/CIntField.cpp   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/app/commsdsl2c/src/CFloatField.cpp b/app/commsdsl2c/src/CFloatField.cpp
index b4684d5..33ced81 100644
--- a/app/commsdsl2c/src/CFloatField.cpp
+++ b/app/commsdsl2c/src/CFloatField.cpp
@@ -147,6 +147,10 @@ std::string CFloatField::cHeaderSpecialsCodeInternal() const
             {"VALUE_TYPE", strings::genValueTypeStr()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
@@ -190,6 +194,10 @@ std::string CFloatField::cSourceSpecialsCodeInternal() const
             {"CONV_SUFFIX", cConversionSuffix()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
diff --git a/app/commsdsl2c/src/CIntField.cpp b/app/commsdsl2c/src/CIntField.cpp
index 1f7efa2..99d01a2 100644
--- a/app/commsdsl2c/src/CIntField.cpp
+++ b/app/commsdsl2c/src/CIntField.cpp
@@ -163,6 +163,10 @@ std::string CIntField::cHeaderSpecialsCodeInternal() const
             {"VALUE_TYPE", strings::genValueTypeStr()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
@@ -206,6 +210,10 @@ std::string CIntField::cSourceSpecialsCodeInternal() const
             {"CONV_SUFFIX", cConversionSuffix()},
         };
 
+        if (cIsVersionOptional()) {
+            repl["SUFFIX"] = strings::genVersionOptionalFieldSuffixStr();
+        }
+
         specialsList.push_back(util::genProcessTemplate(Templ, repl));
     }
 
-- 
2.43.0


From 933af4794d9b190ceee6138621416fc385a21121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:07 +0000
Subject: [PATCH 095/114] fix: Name of a reused <ref> with an empty name is
 taken from the referenced field

---
 lib/src/parse/ParseRefFieldImpl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index 959c50e..bc082c6 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -82,7 +82,9 @@ bool ParseRefFieldImpl::parseImpl()
     auto propsIter = parseProps().find(common::parseFieldStr());
     if (propsIter == parseProps().end()) {
         assert(m_field != nullptr);
-        assert(!parseName().empty());
+        if (parseName().empty()) {
+            parseSetName(m_field->parseName());
+        }
         return true;
     }
 
-- 
2.43.0


From 0792d4fd23adfc46f09b3a64d75ee6caeb927458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:42 +0000
Subject: [PATCH 096/114] fix: commsdsl2tools_qt: escape names, ids and
 descriptions put into string literals and JSON

---
 app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp | 38 +++++++++++++++++----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
index d0cef92..aed9752 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtPlugin.cpp
@@ -38,6 +38,29 @@ namespace
 const std::string ProtPrefix("Protocol_");
 const std::string PluginPrefix("Plugin_");
 
+std::string toolsJsonEscapeInternal(const std::string& str)
+{
+    static const char HexDigits[] = "0123456789abcdef";
+    std::string result;
+    result.reserve(str.size());
+    for (char ch : str) {
+        auto byte = static_cast<unsigned char>(ch);
+        if (byte < 0x20U) {
+            result += "\\u00";
+            result += HexDigits[byte >> 4U];
+            result += HexDigits[byte & 0xfU];
+            continue;
+        }
+
+        if ((ch == '"') || (ch == '\\')) {
+            result += '\\';
+        }
+
+        result += ch;
+    }
+    return result;
+}
+
 } // namespace
 
 bool ToolsQtPlugin::toolsPrepare()
@@ -228,7 +251,7 @@ bool ToolsQtPlugin::toolsWriteProtocolSrcInternal()
         {"MAIN_NS", m_toolsGenerator.genCurrentSchema().genMainNamespace()},
         {"CLASS_NAME", toolsProtClassNameInternal()},
         {"FRAME", m_toolsFramePtr->toolsClassScope(*m_toolsInterfacePtr)},
-        {"PROT_NAME", toolsAdjustedNameInternal()},
+        {"PROT_NAME", util::genStrEscape(toolsAdjustedNameInternal())},
         {"INCLUDES", util::genStrListToString(includes, "\n", "")},
         {"INC", incCode},
         {"EXTEND", extendCode},
@@ -312,7 +335,7 @@ bool ToolsQtPlugin::toolsWritePluginHeaderInternal()
         {"TOP_NS_END", m_toolsGenerator.toolsNamespaceEnd()},
         {"MAIN_NS", m_toolsGenerator.genCurrentSchema().genMainNamespace()},
         {"CLASS_NAME", toolsPluginClassNameInternal()},
-        {"ID", m_pluginId},
+        {"ID", util::genStrEscape(m_pluginId)},
         {"EXTEND", extendCode},
         {"INC", incCode},
     };
@@ -450,12 +473,15 @@ bool ToolsQtPlugin::toolsWritePluginJsonInternal()
     auto desc = util::genStrReplace(m_description, "\\n", "\n");
     desc = util::genStrMakeMultiline(desc, 60, false);
     if (!desc.empty()) {
-        desc = '\"' + desc + '\"';
-        desc = util::genStrReplace(desc, "\n", "\",\n\"");
+        auto lines = util::genStrSplitByAnyChar(desc, "\n", false);
+        for (auto& l : lines) {
+            l = '\"' + toolsJsonEscapeInternal(l) + '\"';
+        }
+        desc = util::genStrListToString(lines, ",\n", "");
     }
 
     util::GenReplacementMap repl = {
-        {"NAME", std::move(name)},
+        {"NAME", toolsJsonEscapeInternal(name)},
         {"DESC", std::move(desc)},
     };
 
@@ -505,7 +531,7 @@ bool ToolsQtPlugin::toolsWritePluginConfigInternal()
         "}\n";
 
     util::GenReplacementMap repl = {
-        {"ID", m_pluginId},
+        {"ID", toolsJsonEscapeInternal(m_pluginId)},
     };
 
     auto str = commsdsl::gen::util::genProcessTemplate(Templ, repl, true);
-- 
2.43.0


From a3827e60cf0570705f3b8c179161b4b1b8450f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:42 +0000
Subject: [PATCH 097/114] fix: commsdsl2tools_qt: namespaces of the interface
 are opened with their own names

---
 .../src/ToolsQtGenerator.cpp                  | 26 +++----------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index 3758be8..cc5fa66 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -143,19 +143,10 @@ const std::string& ToolsQtGenerator::toolsNamespaceEnd()
 
 std::string ToolsQtGenerator::toolsNamespaceBeginForInterface(const commsdsl::gen::GenInterface& interface) const
 {
-    std::string ref = strings::genMessageClassStr();
-    if (interface.genParseObj().parseValid()) {
-        ref = interface.genParseObj().parseExternalRef(false);
-    }
-    auto elems = util::genStrSplitByAnyChar(ref, ".");
+    auto elems = util::genStrSplitByAnyChar(comms::genScopeFor(interface, *this, false, true), ":");
     std::string result = toolsNamespaceBegin();
     for (auto& e : elems) {
-        if (&e != &elems.back()) {
-            result += "namespace " + comms::genAccessName(e) + "\n{\n\n";
-            continue;
-        }
-
-        result += "namespace " + comms::genClassName(e) + "\n{\n\n";
+        result += "namespace " + e + "\n{\n\n";
     }
 
     return result;
@@ -163,19 +154,10 @@ std::string ToolsQtGenerator::toolsNamespaceBeginForInterface(const commsdsl::ge
 
 std::string ToolsQtGenerator::toolsNamespaceEndForInterface(const commsdsl::gen::GenInterface& interface) const
 {
-    std::string ref = strings::genMessageClassStr();
-    if (interface.genParseObj().parseValid()) {
-        ref = interface.genParseObj().parseExternalRef(false);
-    }
-    auto elems = util::genStrSplitByAnyChar(ref, ".");
+    auto elems = util::genStrSplitByAnyChar(comms::genScopeFor(interface, *this, false, true), ":");
     std::string result;
     for (auto& e : elems) {
-        if (&e != &elems.back()) {
-            result += "} // namespace " + comms::genAccessName(e) + "\n\n";
-            continue;
-        }
-
-        result += "} // namespace " + comms::genClassName(e) + "\n\n";
+        result += "} // namespace " + e + "\n\n";
     }
 
     result += toolsNamespaceEnd();
-- 
2.43.0


From 678475d08ccf8d3194cdcf8a6488671ffa63bac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:42 +0000
Subject: [PATCH 098/114] fix: commsdsl2tools_qt: field of the pseudo layer is
 not serialized by the transport message

---
 app/commsdsl2tools_qt/src/ToolsQtFrame.cpp | 49 ++++++++++++++++++++--
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp b/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
index 7581734..34c8403 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
@@ -497,6 +497,7 @@ std::string ToolsQtFrame::toolsProtTransportMsgDefInternal(const commsdsl::gen::
         "template <typename TOpt>\n"
         "struct #^#CLASS_NAME#$##^#SUFFIX#$##^#FIELDS_SUFFIX#$#\n"
         "{\n"
+        "    #^#PSEUDO_FIELDS#$#\n"
         "    using All =\n"
         "        std::tuple<\n"
         "            #^#FIELDS_LIST#$#\n"
@@ -519,24 +520,63 @@ std::string ToolsQtFrame::toolsProtTransportMsgDefInternal(const commsdsl::gen::
     auto layersScope = "::" + comms::genScopeFor(*this, genGenerator()) + strings::genLayersSuffixStr();
     util::GenStringsList fields;
     util::GenStringsList names;
+    util::GenStringsList pseudoFields;
+    auto addFieldFunc =
+        [&fields, &pseudoFields](const ToolsQtLayer* l, const std::string& scope, const std::string& typenamePrefix)
+        {
+            auto parseObj = l->toolsGenLayer().genParseObj();
+            if ((parseObj.parseKind() != commsdsl::parse::ParseLayer::ParseKind::Value) ||
+                (!commsdsl::parse::ParseValueLayer(parseObj).parsePseudo())) {
+                fields.push_back(typenamePrefix + scope);
+                return;
+            }
+
+            // The field of the pseudo layer is not serialized
+            static const std::string PseudoTempl =
+                "class #^#NAME#$# : public #^#SCOPE#$#\n"
+                "{\n"
+                "public:\n"
+                "    static constexpr std::size_t length() { return 0U; }\n"
+                "    static constexpr std::size_t minLength() { return 0U; }\n"
+                "    static constexpr std::size_t maxLength() { return 0U; }\n\n"
+                "    template <typename TIter>\n"
+                "    static comms::ErrorStatus read(TIter&, std::size_t) { return comms::ErrorStatus::Success; }\n\n"
+                "    template <typename TIter>\n"
+                "    static void readNoStatus(TIter&) {}\n\n"
+                "    template <typename TIter>\n"
+                "    static comms::ErrorStatus write(TIter&, std::size_t) { return comms::ErrorStatus::Success; }\n\n"
+                "    template <typename TIter>\n"
+                "    static void writeNoStatus(TIter&) {}\n"
+                "};\n";
+
+            auto name = comms::genClassName(parseObj.parseName()) + "PseudoField";
+            util::GenReplacementMap pseudoRepl = {
+                {"NAME", name},
+                {"SCOPE", scope},
+            };
+            pseudoFields.push_back(util::genProcessTemplate(PseudoTempl, pseudoRepl));
+            fields.push_back(std::move(name));
+        };
+
     for (auto* l : m_toolsLayers) {
         assert(l != nullptr);
         names.push_back(comms::genAccessName(l->toolsGenLayer().genParseObj().parseName()));
 
         auto* externalField = l->toolsGenLayer().genExternalField();
         if (externalField != nullptr) {
-            fields.push_back("::" + comms::genScopeFor(*externalField, genGenerator()) + "<TOpt>");
+            addFieldFunc(l, "::" + comms::genScopeFor(*externalField, genGenerator()) + "<TOpt>", strings::genEmptyString());
             continue;
         }
 
-        auto lScope = "typename " + layersScope + "<TOpt>::" + comms::genClassName(l->toolsGenLayer().genParseObj().parseName());
+        static const std::string TypenamePrefix("typename ");
+        auto lScope = layersScope + "<TOpt>::" + comms::genClassName(l->toolsGenLayer().genParseObj().parseName());
         auto* memberField = l->toolsGenLayer().genMemberField();
         if (memberField != nullptr) {
-            fields.push_back(lScope + strings::genMembersSuffixStr() + "::" + comms::genClassName(memberField->genParseObj().parseName()));
+            addFieldFunc(l, lScope + strings::genMembersSuffixStr() + "::" + comms::genClassName(memberField->genParseObj().parseName()), TypenamePrefix);
             continue;
         }
 
-        fields.push_back(lScope + "::Field");
+        addFieldFunc(l, lScope + "::Field", TypenamePrefix);
     }
 
     util::GenReplacementMap repl = {
@@ -544,6 +584,7 @@ std::string ToolsQtFrame::toolsProtTransportMsgDefInternal(const commsdsl::gen::
         {"SUFFIX", ToolsProtTransportMsgSuffix},
         {"FIELDS_SUFFIX", strings::genFieldsSuffixStr()},
         {"FIELDS_LIST", util::genStrListToString(fields, ",\n", "")},
+        {"PSEUDO_FIELDS", util::genStrListToString(pseudoFields, "\n", "")},
         {"FIELDS_NAMES", util::genStrListToString(names, ",\n", "")},
         {"READ_FUNC", toolsProtTransportMsgReadFuncInternal(iFace)},
     };
-- 
2.43.0


From 1f8e9a4edfca2e62340f025d825af6ed333fd2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:42 +0000
Subject: [PATCH 099/114] fix: commsdsl2tools_qt: transport message checks
 there is enough data for the layers after the payload

---
 app/commsdsl2tools_qt/src/ToolsQtFrame.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp b/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
index 34c8403..6b4e4d3 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtFrame.cpp
@@ -641,6 +641,9 @@ std::string ToolsQtFrame::toolsProtTransportMsgReadFuncInternal(const commsdsl::
             "template <typename TIter>\n"
             "comms::ErrorStatus doRead(TIter& iter, std::size_t len)\n"
             "{\n"
+            "    if (len < #^#OFFSET#$#) {\n"
+            "        return comms::ErrorStatus::NotEnoughData;\n"
+            "    }\n\n"
             "    len -= #^#OFFSET#$#;\n"
             "    auto es = Base::template doReadUntilAndUpdateLen<#^#IDX#$#>(iter, len);\n"
             "    if (es == comms::ErrorStatus::Success) {\n"
-- 
2.43.0


From a13e6fbc75e15a2955b0be77d75bde0fa2004c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:53 +0000
Subject: [PATCH 100/114] fix: do not generate members, fields and messages
 missing in the selected schema version

---
 app/commsdsl2comms/src/CommsBundleField.cpp   |  4 +
 app/commsdsl2comms/src/CommsField.cpp         | 92 +++++++++++++++++++
 app/commsdsl2comms/src/CommsField.h           |  2 +
 app/commsdsl2comms/src/CommsInterface.cpp     |  4 +
 app/commsdsl2comms/src/CommsListField.cpp     | 28 +++++-
 app/commsdsl2comms/src/CommsMessage.cpp       |  4 +
 app/commsdsl2comms/src/CommsOptionalField.cpp | 30 +++---
 lib/src/gen/GenBundleField.cpp                |  9 ++
 lib/src/gen/GenInterface.cpp                  |  9 ++
 lib/src/gen/GenMessage.cpp                    |  9 ++
 lib/src/gen/GenNamespace.cpp                  |  9 ++
 lib/src/gen/GenVariantField.cpp               |  9 ++
 12 files changed, 188 insertions(+), 21 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsBundleField.cpp b/app/commsdsl2comms/src/CommsBundleField.cpp
index 62b3429..7a25fb8 100644
--- a/app/commsdsl2comms/src/CommsBundleField.cpp
+++ b/app/commsdsl2comms/src/CommsBundleField.cpp
@@ -606,6 +606,10 @@ std::string CommsBundleField::commsDefAliasesCodeInternal() const
 
         auto& fieldName = a.parseFieldName();
         assert(!fieldName.empty());
+        if (!CommsField::commsRefExists(m_commsMembers, fieldName)) {
+            continue;
+        }
+
         auto fieldSubNames = util::genStrSplitByAnyChar(fieldName, ".");
         for (auto& n : fieldSubNames) {
             n = comms::genAccessName(n);
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index a4c9caa..83de7ef 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -26,6 +26,12 @@
 #include "commsdsl/gen/strings.h"
 #include "commsdsl/gen/util.h"
 
+#include "commsdsl/parse/ParseBitfieldField.h"
+#include "commsdsl/parse/ParseBundleField.h"
+#include "commsdsl/parse/ParseOptionalField.h"
+#include "commsdsl/parse/ParseRefField.h"
+#include "commsdsl/parse/ParseSetField.h"
+
 #include <algorithm>
 #include <cassert>
 #include <fstream>
@@ -57,6 +63,68 @@ bool commsIsOverrideCodeRequired(commsdsl::parse::ParseOverrideType value)
         (value == commsdsl::parse::ParseOverrideType_Extend);
 }
 
+// Some of the referenced elements may be missing in the selected schema version(s).
+bool commsInnerRefExistsInternal(
+    const commsdsl::gen::GenGenerator& generator,
+    const commsdsl::parse::ParseField& field,
+    const std::string& refStr)
+{
+    using ParseField = commsdsl::parse::ParseField;
+
+    if (refStr.empty()) {
+        return true;
+    }
+
+    auto kind = field.parseKind();
+    if (kind == ParseField::ParseKind::Ref) {
+        return commsInnerRefExistsInternal(generator, commsdsl::parse::ParseRefField(field).parseField(), refStr);
+    }
+
+    if (kind == ParseField::ParseKind::Set) {
+        commsdsl::parse::ParseSetField setField(field);
+        auto& bits = setField.parseBits();
+        auto iter = bits.find(refStr);
+        return
+            (iter == bits.end()) ||
+            generator.genDoesElementExist(iter->second.m_sinceVersion, iter->second.m_deprecatedSince, false);
+    }
+
+    auto sepPos = refStr.find('.');
+    std::string remRefStr;
+    if (sepPos < refStr.size()) {
+        remRefStr = refStr.substr(sepPos + 1);
+    }
+
+    if (kind == ParseField::ParseKind::Optional) {
+        return commsInnerRefExistsInternal(generator, commsdsl::parse::ParseOptionalField(field).parseField(), remRefStr);
+    }
+
+    commsdsl::parse::ParseBundleField::ParseMembers members;
+    if (kind == ParseField::ParseKind::Bundle) {
+        members = commsdsl::parse::ParseBundleField(field).parseMembers();
+    }
+    else if (kind == ParseField::ParseKind::Bitfield) {
+        members = commsdsl::parse::ParseBitfieldField(field).parseMembers();
+    }
+
+    auto name = refStr.substr(0, sepPos);
+    auto iter =
+        std::find_if(
+            members.begin(), members.end(),
+            [&name](auto& m)
+            {
+                return m.parseName() == name;
+            });
+
+    if (iter == members.end()) {
+        return true;
+    }
+
+    return
+        generator.genDoesElementExist(iter->parseSinceVersion(), iter->parseDeprecatedSince(), iter->parseIsDeprecatedRemoved()) &&
+        commsInnerRefExistsInternal(generator, *iter, remRefStr);
+}
+
 } // namespace
 
 CommsField::CommsField(GenField& field) :
@@ -355,6 +423,30 @@ bool CommsField::commsVerifyInnerRef(const std::string refStr) const
     return commsVerifyInnerRefImpl(refStr);
 }
 
+bool CommsField::commsInnerRefExists(const std::string& refStr) const
+{
+    return commsInnerRefExistsInternal(m_genField.genGenerator(), m_genField.genParseObj(), refStr);
+}
+
+bool CommsField::commsRefExists(const CommsFieldsList& siblings, const std::string& refStr)
+{
+    auto sepPos = refStr.find('.');
+    auto name = refStr.substr(0, sepPos);
+    auto iter =
+        std::find_if(
+            siblings.begin(), siblings.end(),
+            [&name](auto* f)
+            {
+                return f->commsGenField().genParseObj().parseName() == name;
+            });
+
+    if (iter == siblings.end()) {
+        return false;
+    }
+
+    return (refStr.size() <= sepPos) || (*iter)->commsInnerRefExists(refStr.substr(sepPos + 1));
+}
+
 bool CommsField::commsIsVersionOptional() const
 {
     return comms::genIsVersionOptionalField(m_genField, m_genField.genGenerator());
diff --git a/app/commsdsl2comms/src/CommsField.h b/app/commsdsl2comms/src/CommsField.h
index dbdeafc..21c9a1a 100644
--- a/app/commsdsl2comms/src/CommsField.h
+++ b/app/commsdsl2comms/src/CommsField.h
@@ -68,6 +68,8 @@ public:
     std::string commsCompValueCastType(const std::string& accStr, const std::string& prefix = std::string()) const;
     std::string commsCompPrepValueStr(const std::string& accStr, const std::string& value) const;
     bool commsVerifyInnerRef(const std::string refStr) const;
+    bool commsInnerRefExists(const std::string& refStr) const;
+    static bool commsRefExists(const CommsFieldsList& siblings, const std::string& refStr);
 
     bool commsIsVersionOptional() const;
 
diff --git a/app/commsdsl2comms/src/CommsInterface.cpp b/app/commsdsl2comms/src/CommsInterface.cpp
index 7365a18..8672e6c 100644
--- a/app/commsdsl2comms/src/CommsInterface.cpp
+++ b/app/commsdsl2comms/src/CommsInterface.cpp
@@ -647,6 +647,10 @@ std::string CommsInterface::commsDefFieldsAliasesInternal() const
             "COMMS_MSG_TRANSPORT_FIELD_ALIAS(#^#ALIAS_NAME#$#, #^#ALIASED_FIELD#$#);\n";
 
         auto& fieldName = a.parseFieldName();
+        if (!CommsField::commsRefExists(m_commsFields, fieldName)) {
+            continue;
+        }
+
         auto fieldSubNames = util::genStrSplitByAnyChar(fieldName, ".");
         for (auto& n : fieldSubNames) {
             n = comms::genAccessName(n);
diff --git a/app/commsdsl2comms/src/CommsListField.cpp b/app/commsdsl2comms/src/CommsListField.cpp
index 13d2e11..8b79b74 100644
--- a/app/commsdsl2comms/src/CommsListField.cpp
+++ b/app/commsdsl2comms/src/CommsListField.cpp
@@ -579,11 +579,33 @@ std::size_t CommsListField::commsMaxLengthImpl() const
     }
 
     assert(elem != nullptr);
-    if (elem->commsMaxLength() == comms::genMaxPossibleLength()) {
-        return comms::genMaxPossibleLength();
+    auto* prefix = m_commsExternalElemLengthPrefixField;
+    if (prefix == nullptr) {
+        prefix = m_commsMemberElemLengthPrefixField;
+    }
+
+    std::size_t prefixLength = 0U;
+    if (prefix != nullptr) {
+        prefixLength = prefix->commsGenField().genParseObj().parseMaxLength();
+    }
+
+    // Not using the parsed value, some of the element's members may not
+    // exist in the generated version(s) of the schema.
+    auto mulLengthFunc =
+        [&obj](std::size_t len)
+        {
+            if ((comms::genMaxPossibleLength() / obj.parseFixedCount()) <= len) {
+                return comms::genMaxPossibleLength();
+            }
+
+            return len * obj.parseFixedCount();
+        };
+
+    if (!obj.parseElemFixedLength()) {
+        prefixLength = mulLengthFunc(prefixLength);
     }
 
-    return CommsBase::commsMaxLengthImpl();
+    return comms::genAddLength(mulLengthFunc(elem->commsMaxLength()), prefixLength);
 }
 
 std::string CommsListField::commsSizeAccessStrImpl([[maybe_unused]] const std::string& accStr, const std::string& prefix) const
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index cecd779..1423f30 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -1170,6 +1170,10 @@ std::string CommsMessage::commsDefFieldsAliasesInternal() const
             "COMMS_MSG_FIELD_ALIAS(#^#ALIAS_NAME#$#, #^#ALIASED_FIELD#$#);\n";
 
         auto& fieldName = a.parseFieldName();
+        if (!CommsField::commsRefExists(m_commsFields, fieldName)) {
+            continue;
+        }
+
         auto fieldSubNames = util::genStrSplitByAnyChar(fieldName, ".");
         for (auto& n : fieldSubNames) {
             n = comms::genAccessName(n);
diff --git a/app/commsdsl2comms/src/CommsOptionalField.cpp b/app/commsdsl2comms/src/CommsOptionalField.cpp
index ecc963a..268b9d0 100644
--- a/app/commsdsl2comms/src/CommsOptionalField.cpp
+++ b/app/commsdsl2comms/src/CommsOptionalField.cpp
@@ -191,17 +191,15 @@ std::string CommsOptionalField::commsDslCondToString(
                 leftField = findSiblingFieldFunc(leftFieldName);
             }
 
-            if (leftField == nullptr) {
-                [[maybe_unused]] static constexpr bool Should_not_happen = false;
-                assert(Should_not_happen);
-                return strings::genEmptyString();
-            }
-
             std::string remLeft;
             if (leftSepPos < leftInfo.m_access.size()) {
                 remLeft = leftInfo.m_access.substr(leftSepPos + 1);
             }
 
+            if ((leftField == nullptr) || (!leftField->commsInnerRefExists(remLeft))) {
+                return util::genBoolToString(false);
+            }
+
             assert(leftInfo.m_mode != ParseAccMode::Exists);
             assert(rightInfo.m_mode != ParseAccMode::Size);
             assert(rightInfo.m_mode != ParseAccMode::Exists);
@@ -225,17 +223,15 @@ std::string CommsOptionalField::commsDslCondToString(
                 rightField = findSiblingFieldFunc(rightFieldName);
             }
 
-            if (rightField == nullptr) {
-                [[maybe_unused]] static constexpr bool Should_not_happen = false;
-                assert(Should_not_happen);
-                return strings::genEmptyString();
-            }
-
             std::string remRight;
             if (rigthSepPos < rightInfo.m_access.size()) {
                 remRight = rightInfo.m_access.substr(rigthSepPos + 1);
             }
 
+            if ((rightField == nullptr) || (!rightField->commsInnerRefExists(remRight))) {
+                return util::genBoolToString(false);
+            }
+
             return commsDslCondToStringFieldFieldCompInternal(leftField, remLeft, op, rightField, remRight);
         }
 
@@ -258,12 +254,6 @@ std::string CommsOptionalField::commsDslCondToString(
             rightField = findSiblingFieldFunc(rightFieldName);
         }
 
-        if (rightField == nullptr) {
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
-            return strings::genEmptyString();
-        }
-
         assert(rightInfo.m_mode != ParseAccMode::Size);
 
         std::string remRight;
@@ -271,6 +261,10 @@ std::string CommsOptionalField::commsDslCondToString(
             remRight = rightInfo.m_access.substr(rightSepPos + 1);
         }
 
+        if ((rightField == nullptr) || (!rightField->commsInnerRefExists(remRight))) {
+            return util::genBoolToString(!op.empty());
+        }
+
         if (rightInfo.m_mode == ParseAccMode::Exists) {
             return commsDslCondToStringFieldExistsCompInternal(rightField, remRight, op);
         }
diff --git a/lib/src/gen/GenBundleField.cpp b/lib/src/gen/GenBundleField.cpp
index 6fa57b8..a1a69f4 100644
--- a/lib/src/gen/GenBundleField.cpp
+++ b/lib/src/gen/GenBundleField.cpp
@@ -49,6 +49,15 @@ public:
         auto fields = m_bundleParseObj.parseMembers();
         m_members.reserve(fields.size());
         for (auto& parseObj : fields) {
+            bool exists =
+                m_generator.genDoesElementExist(
+                    parseObj.parseSinceVersion(),
+                    parseObj.parseDeprecatedSince(),
+                    parseObj.parseIsDeprecatedRemoved());
+            if (!exists) {
+                continue;
+            }
+
             auto ptr = GenField::genCreate(m_generator, parseObj, m_parent);
             assert(ptr);
             if (!ptr->genPrepare()) {
diff --git a/lib/src/gen/GenInterface.cpp b/lib/src/gen/GenInterface.cpp
index 9b8f2d2..25206da 100644
--- a/lib/src/gen/GenInterface.cpp
+++ b/lib/src/gen/GenInterface.cpp
@@ -53,6 +53,15 @@ public:
         auto fields = m_parseObj.parseFields();
         m_fields.reserve(fields.size());
         for (auto& parseObj : fields) {
+            bool exists =
+                m_generator.genDoesElementExist(
+                    parseObj.parseSinceVersion(),
+                    parseObj.parseDeprecatedSince(),
+                    parseObj.parseIsDeprecatedRemoved());
+            if (!exists) {
+                continue;
+            }
+
             auto ptr = GenField::genCreate(m_generator, parseObj, m_parent);
             assert(ptr);
             m_fields.push_back(std::move(ptr));
diff --git a/lib/src/gen/GenMessage.cpp b/lib/src/gen/GenMessage.cpp
index 8a5f6c2..82c91e3 100644
--- a/lib/src/gen/GenMessage.cpp
+++ b/lib/src/gen/GenMessage.cpp
@@ -61,6 +61,15 @@ public:
         auto fields = m_parseObj.parseFields();
         m_fields.reserve(fields.size());
         for (auto& parseObj : fields) {
+            bool exists =
+                m_generator.genDoesElementExist(
+                    parseObj.parseSinceVersion(),
+                    parseObj.parseDeprecatedSince(),
+                    parseObj.parseIsDeprecatedRemoved());
+            if (!exists) {
+                continue;
+            }
+
             auto ptr = GenField::genCreate(m_generator, parseObj, m_parent);
             assert(ptr);
             m_fields.push_back(std::move(ptr));
diff --git a/lib/src/gen/GenNamespace.cpp b/lib/src/gen/GenNamespace.cpp
index cdb1d6a..3ddfacb 100644
--- a/lib/src/gen/GenNamespace.cpp
+++ b/lib/src/gen/GenNamespace.cpp
@@ -463,6 +463,15 @@ private:
         auto messages = m_parseObj.parseMessages();
         m_messages.reserve(messages.size());
         for (auto& m : messages) {
+            bool exists =
+                m_generator.genDoesElementExist(
+                    m.parseSinceVersion(),
+                    m.parseDeprecatedSince(),
+                    m.parseIsDeprecatedRemoved());
+            if (!exists) {
+                continue;
+            }
+
             auto ptr = m_generator.genCreateMessage(m, m_holder);
             if (!ptr->genCreateAll()) {
                 return false;
diff --git a/lib/src/gen/GenVariantField.cpp b/lib/src/gen/GenVariantField.cpp
index 62fa20b..1f0943a 100644
--- a/lib/src/gen/GenVariantField.cpp
+++ b/lib/src/gen/GenVariantField.cpp
@@ -48,6 +48,15 @@ public:
         auto fields = m_parseObj.parseMembers();
         m_members.reserve(fields.size());
         for (auto& parseObj : fields) {
+            bool exists =
+                m_generator.genDoesElementExist(
+                    parseObj.parseSinceVersion(),
+                    parseObj.parseDeprecatedSince(),
+                    parseObj.parseIsDeprecatedRemoved());
+            if (!exists) {
+                continue;
+            }
+
             auto ptr = GenField::genCreate(m_generator, parseObj, m_parent);
             assert(ptr);
             if (!ptr->genPrepare()) {
-- 
2.43.0


From 5bed2a63ab030cf34e51072a6903d4178423a1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:54 +0000
Subject: [PATCH 101/114] fix: do not generate special values missing in the
 selected schema version

---
 lib/src/gen/GenFloatField.cpp | 8 ++++++--
 lib/src/gen/GenIntField.cpp   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/src/gen/GenFloatField.cpp b/lib/src/gen/GenFloatField.cpp
index 22c95ab..d5219a1 100644
--- a/lib/src/gen/GenFloatField.cpp
+++ b/lib/src/gen/GenFloatField.cpp
@@ -35,11 +35,15 @@ public:
     using ParseFloatField = GenFloatField::ParseFloatField;
     using GenSpecialsList = GenFloatField::GenSpecialsList;
 
-    bool genPrepare(ParseFloatField parseObj)
+    bool genPrepare(const GenGenerator& generator, ParseFloatField parseObj)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!generator.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -128,7 +132,7 @@ const GenFloatField::GenSpecialsList& GenFloatField::genSpecialsSortedByValue()
 
 bool GenFloatField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genFloatFieldParseObj());
+    return m_impl->genPrepare(genGenerator(), genFloatFieldParseObj());
 }
 
 GenFloatField::GenFieldRefInfo GenFloatField::genProcessInnerRefImpl(const std::string& refStr) const
diff --git a/lib/src/gen/GenIntField.cpp b/lib/src/gen/GenIntField.cpp
index 9d6eacd..f449490 100644
--- a/lib/src/gen/GenIntField.cpp
+++ b/lib/src/gen/GenIntField.cpp
@@ -34,11 +34,15 @@ public:
     using ParseIntField = GenIntField::ParseIntField;
     using GenSpecialsList = GenIntField::GenSpecialsList;
 
-    bool genPrepare(ParseIntField parseObj)
+    bool genPrepare(const GenGenerator& generator, ParseIntField parseObj)
     {
         auto& dslSpecials = parseObj.parseSpecialValues();
         m_specialsSorted.reserve(dslSpecials.size());
         for (auto& s : dslSpecials) {
+            if (!generator.genDoesElementExist(s.second.m_sinceVersion, s.second.m_deprecatedSince, true)) {
+                continue;
+            }
+
             m_specialsSorted.emplace_back(s.first, s.second);
         }
 
@@ -105,7 +109,7 @@ const GenIntField::GenSpecialsList& GenIntField::genSpecialsSortedByValue() cons
 
 bool GenIntField::genPrepareImpl()
 {
-    return m_impl->genPrepare(genIntFieldParseObj());
+    return m_impl->genPrepare(genGenerator(), genIntFieldParseObj());
 }
 
 GenIntField::GenFieldRefInfo GenIntField::genProcessInnerRefImpl(const std::string& refStr) const
-- 
2.43.0


From 025e30612d91c3fb64b3468b938121b1c6cdf0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:54 +0000
Subject: [PATCH 102/114] fix: do not generate enum values and set bits missing
 in the selected schema version

---
 app/commsdsl2c/src/CSetField.cpp              |  4 +-
 app/commsdsl2comms/src/CommsEnumField.cpp     | 31 ++++++++++----
 app/commsdsl2comms/src/CommsSetField.cpp      | 13 +++---
 .../src/EmscriptenSetField.cpp                |  6 +--
 app/commsdsl2latex/src/LatexEnumField.cpp     |  2 +-
 app/commsdsl2latex/src/LatexSetField.cpp      |  2 +-
 app/commsdsl2swig/src/SwigSetField.cpp        |  2 +-
 lib/include/commsdsl/gen/GenEnumField.h       |  4 ++
 lib/include/commsdsl/gen/GenSetField.h        |  8 ++++
 lib/src/gen/GenEnumField.cpp                  | 40 ++++++++++++++++---
 lib/src/gen/GenSetField.cpp                   | 15 +++++++
 11 files changed, 102 insertions(+), 25 deletions(-)

diff --git a/app/commsdsl2c/src/CSetField.cpp b/app/commsdsl2c/src/CSetField.cpp
index 1e681f3..a6a1f30 100644
--- a/app/commsdsl2c/src/CSetField.cpp
+++ b/app/commsdsl2c/src/CSetField.cpp
@@ -123,7 +123,7 @@ std::string CSetField::cHeaderBitsCodeInternal() const
     util::GenStringsList accesses;
 
     auto& bits = parseObj.parseBits();
-    for (auto& bitInfo : parseObj.parseRevBits()) {
+    for (auto& bitInfo : genRevBits()) {
         auto idx = bitInfo.first;
         if (CMaxBits <= idx) {
             [[maybe_unused]] static constexpr bool Should_not_happen = false;
@@ -200,7 +200,7 @@ std::string CSetField::cSourceBitsCodeInternal() const
     util::GenStringsList asserts;
     util::GenStringsList accesses;
 
-    for (auto& bitInfo : parseObj.parseRevBits()) {
+    for (auto& bitInfo : genRevBits()) {
         auto idx = bitInfo.first;
         if (CMaxBits <= idx) {
             [[maybe_unused]] static constexpr bool Should_not_happen = false;
diff --git a/app/commsdsl2comms/src/CommsEnumField.cpp b/app/commsdsl2comms/src/CommsEnumField.cpp
index bb3519b..63cacd8 100644
--- a/app/commsdsl2comms/src/CommsEnumField.cpp
+++ b/app/commsdsl2comms/src/CommsEnumField.cpp
@@ -333,8 +333,16 @@ std::string CommsEnumField::commsDefValidFuncBodyImpl() const
             (valuesType == commsdsl::parse::ParseEnumField::ParseType::Uintvar);
 
         // The binary search requires order of the actual (maybe unsigned) values
-        auto& revValues = obj.parseRevValues();
-        std::vector<std::pair<std::intmax_t, std::string>> sortedValues(revValues.begin(), revValues.end());
+        auto& values = obj.parseValues();
+        std::vector<std::pair<std::intmax_t, std::string>> sortedValues;
+        for (auto& v : genRevValues()) {
+            auto valIter = values.find(v.second);
+            assert(valIter != values.end());
+            if (genGenerator().genDoesElementExist(valIter->second.m_sinceVersion, valIter->second.m_deprecatedSince, true)) {
+                sortedValues.push_back(v);
+            }
+        }
+
         if (bigUnsignedValues) {
             std::stable_sort(
                 sortedValues.begin(), sortedValues.end(),
@@ -588,6 +596,12 @@ bool CommsEnumField::commsPrepareValidRangesInternal()
         r.m_deprecatedSince = v.second.m_deprecatedSince;
     }
 
+    if (genRevValues().empty()) {
+        // All the values are introduced after the generated version of the schema,
+        // the field cannot be in use.
+        return true;
+    }
+
     if (m_validRanges.empty()) {
         gen.genLogger().genError("Enum \"" + obj.parseName() + "\" doesn't define any value");
         return false;
@@ -682,8 +696,11 @@ bool CommsEnumField::commsPrepareValidRangesInternal()
 bool CommsEnumField::commsIsDirectValueNameMappingInternal() const
 {
     auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
-    assert(!revValues.empty());
+    auto& revValues = genRevValues();
+    if (revValues.empty()) {
+        return false;
+    }
+
     auto firstIter = revValues.begin();
     if (firstIter->first < 0) {
         // has negative numbers
@@ -837,7 +854,7 @@ std::string CommsEnumField::commsCommonValueNamesMapFuncCodeInternal() const
 std::string CommsEnumField::commsCommonValueNamesMapDirectBodyInternal() const
 {
     auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
+    auto& revValues = genRevValues();
     auto& values = obj.parseValues();
     assert(!revValues.empty());
     auto& thisSchema = genGenerator().genSchemaOf(*this);
@@ -947,7 +964,7 @@ std::string CommsEnumField::commsCommonValueNamesMapBinSearchBodyInternal() cons
 std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInternal() const
 {
     auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
+    auto& revValues = genRevValues();
     assert(!revValues.empty());
 
     std::vector<std::uintmax_t> valuesSeq;
@@ -1044,7 +1061,7 @@ std::string CommsEnumField::commsCommonBigUnsignedValueNameBinSearchPairsInterna
 std::string CommsEnumField::commsCommonValueNameBinSearchPairsInternal() const
 {
     auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
+    auto& revValues = genRevValues();
     auto& values = obj.parseValues();
     assert(!revValues.empty());
     auto* msgIdNs = commsNamespaceForMsgId();
diff --git a/app/commsdsl2comms/src/CommsSetField.cpp b/app/commsdsl2comms/src/CommsSetField.cpp
index a75b128..6c9bbfb 100644
--- a/app/commsdsl2comms/src/CommsSetField.cpp
+++ b/app/commsdsl2comms/src/CommsSetField.cpp
@@ -233,7 +233,7 @@ std::string CommsSetField::commsDefValidFuncBodyImpl() const
     }
 
     for (auto idx : repeatingBits) {
-        auto elems = obj.parseRevBits().equal_range(idx);
+        auto elems = genRevBits().equal_range(idx);
         assert(elems.first != elems.second);
         std::vector<std::pair<unsigned, unsigned> > versionRanges;
         for (auto iter = elems.first; iter != elems.second; ++iter) {
@@ -420,7 +420,7 @@ std::string CommsSetField::commsCommonBitNameFuncCodeInternal() const
 {
     auto obj = genSetFieldParseObj();
     auto& bits = obj.parseBits();
-    auto& revBits = obj.parseRevBits();
+    auto& revBits = genRevBits();
     std::intmax_t nextBit = 0;
     GenStringsList names;
     for (auto& b : revBits) {
@@ -545,7 +545,7 @@ std::string CommsSetField::commsDefBitsAccessCodeInternal() const
     util::GenStringsList names;
 
     std::map<std::string, unsigned> deprecatedBits;
-    for (auto& bitInfo : obj.parseRevBits()) {
+    for (auto& bitInfo : genRevBits()) {
         auto idx = bitInfo.first;
         if (CommsMaxBits <= idx) {
             [[maybe_unused]] static constexpr bool Should_not_happen = false;
@@ -725,6 +725,10 @@ void CommsSetField::commsAddDefaultValueOptInternal(commsdsl::gen::util::GenStri
             continue;
         }
 
+        if (!genGenerator().genDoesElementExist(bitInfo.second.m_sinceVersion, bitInfo.second.m_deprecatedSince, false)) {
+            continue;
+        }
+
         auto bitMask = static_cast<decltype(defaultValue)>(1U) << bitInfo.second.m_idx;
         if (bitInfo.second.m_defaultValue) {
             defaultValue |= bitMask;
@@ -791,8 +795,7 @@ void CommsSetField::commsAddReservedBitsOptInternal(commsdsl::gen::util::GenStri
             continue;
         }
 
-        if (validCheckVersion &&
-            (!gen.genDoesElementExist(bitInfo.second.m_sinceVersion, bitInfo.second.m_deprecatedSince, true))) {
+        if (!gen.genDoesElementExist(bitInfo.second.m_sinceVersion, bitInfo.second.m_deprecatedSince, validCheckVersion)) {
             continue;
         }
 
diff --git a/app/commsdsl2emscripten/src/EmscriptenSetField.cpp b/app/commsdsl2emscripten/src/EmscriptenSetField.cpp
index 0d29f40..cd61ee6 100644
--- a/app/commsdsl2emscripten/src/EmscriptenSetField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenSetField.cpp
@@ -52,7 +52,7 @@ std::string EmscriptenSetField::emscriptenHeaderExtraPublicFuncsImpl() const
 
     util::GenStringsList accesses;
 
-    for (auto& bitInfo : obj.parseRevBits()) {
+    for (auto& bitInfo : genRevBits()) {
 
         static const std::string Templ =
             "bool getBitValue_#^#NAME#$#() const\n"
@@ -99,7 +99,7 @@ std::string EmscriptenSetField::emscriptenSourceBindFuncsImpl() const
     };
 
     util::GenStringsList accesses;
-    for (auto& bitInfo : obj.parseRevBits()) {
+    for (auto& bitInfo : genRevBits()) {
 
         static const std::string Templ =
             ".function(\"getBitValue_#^#NAME#$#\", &#^#CLASS_NAME#$#::getBitValue_#^#NAME#$#)\n"
@@ -128,7 +128,7 @@ std::string EmscriptenSetField::emscriptenSourceBindExtraImpl() const
     };
 
     util::GenStringsList values;
-    for (auto& bitInfo : obj.parseRevBits()) {
+    for (auto& bitInfo : genRevBits()) {
 
         static const std::string Templ =
             ".value(\"#^#NAME#$#\", #^#CLASS_NAME#$#::BitIdx_#^#NAME#$#)";
diff --git a/app/commsdsl2latex/src/LatexEnumField.cpp b/app/commsdsl2latex/src/LatexEnumField.cpp
index 6a0c48b..7886944 100644
--- a/app/commsdsl2latex/src/LatexEnumField.cpp
+++ b/app/commsdsl2latex/src/LatexEnumField.cpp
@@ -58,7 +58,7 @@ std::string LatexEnumField::latexExtraDetailsImpl() const
     util::GenStringsList lines;
     auto parseObj = genEnumFieldParseObj();
     auto& values = parseObj.parseValues();
-    auto& revValues = parseObj.parseRevValues();
+    auto& revValues = genRevValues();
     bool unsignedType = genIsUnsignedType();
     auto hexWidth = parseObj.parseMinLength() * 2U;
     for (auto& v : revValues) {
diff --git a/app/commsdsl2latex/src/LatexSetField.cpp b/app/commsdsl2latex/src/LatexSetField.cpp
index fecec9f..46394a2 100644
--- a/app/commsdsl2latex/src/LatexSetField.cpp
+++ b/app/commsdsl2latex/src/LatexSetField.cpp
@@ -56,7 +56,7 @@ std::string LatexSetField::latexExtraDetailsImpl() const
 {
     GenStringsList lines;
     auto parseObj = genSetFieldParseObj();
-    auto& revBits = parseObj.parseRevBits();
+    auto& revBits = genRevBits();
     auto hexWidth = parseObj.parseMinLength() * 2U;
 
     auto maskStr =
diff --git a/app/commsdsl2swig/src/SwigSetField.cpp b/app/commsdsl2swig/src/SwigSetField.cpp
index 4cd0062..a052cf8 100644
--- a/app/commsdsl2swig/src/SwigSetField.cpp
+++ b/app/commsdsl2swig/src/SwigSetField.cpp
@@ -61,7 +61,7 @@ std::string SwigSetField::swigExtraPublicFuncsDeclImpl() const
     util::GenStringsList indices;
     util::GenStringsList accesses;
 
-    for (auto& bitInfo : obj.parseRevBits()) {
+    for (auto& bitInfo : genRevBits()) {
         indices.push_back("BitIdx_" + bitInfo.second + " = " + std::to_string(bitInfo.first));
 
         static const std::string Templ =
diff --git a/lib/include/commsdsl/gen/GenEnumField.h b/lib/include/commsdsl/gen/GenEnumField.h
index 75e0952..7746c14 100644
--- a/lib/include/commsdsl/gen/GenEnumField.h
+++ b/lib/include/commsdsl/gen/GenEnumField.h
@@ -41,6 +41,7 @@ public:
 
     using GenRevValueInfo = std::pair<std::intmax_t, const std::string*>;
     using GenSortedRevValues = std::vector<GenRevValueInfo>;
+    using GenRevValues = ParseEnumField::ParseRevValues;
 
     GenEnumField(GenGenerator& generator, ParseField dslObj, GenElem* parent = nullptr);
     virtual ~GenEnumField();
@@ -54,6 +55,9 @@ public:
 
     const GenSortedRevValues& genSortedRevValues() const;
 
+    /// @brief Values existing in the generated version of the schema
+    const GenRevValues& genRevValues() const;
+
     std::string genValueToString(std::intmax_t val) const;
 
     bool genHasValuesLimit() const;
diff --git a/lib/include/commsdsl/gen/GenSetField.h b/lib/include/commsdsl/gen/GenSetField.h
index be523d3..1f4e049 100644
--- a/lib/include/commsdsl/gen/GenSetField.h
+++ b/lib/include/commsdsl/gen/GenSetField.h
@@ -41,7 +41,15 @@ public:
     virtual ~GenSetField();
 
 protected:
+    using GenRevBits = ParseSetField::ParseRevBits;
+
     ParseSetField genSetFieldParseObj() const;
+
+    /// @brief Bits existing in the generated version of the schema
+    const GenRevBits& genRevBits() const;
+
+private:
+    GenRevBits m_revBits;
 };
 
 } // namespace gen
diff --git a/lib/src/gen/GenEnumField.cpp b/lib/src/gen/GenEnumField.cpp
index f8aa508..1940dcf 100644
--- a/lib/src/gen/GenEnumField.cpp
+++ b/lib/src/gen/GenEnumField.cpp
@@ -73,7 +73,19 @@ public:
     using GenRevValueInfo = GenEnumField::GenRevValueInfo;
     using GenSortedRevValues = GenEnumField::GenSortedRevValues;
 
-    explicit GenEnumFieldImpl(ParseEnumField dslObj) : m_dslObj(dslObj) {}
+    using GenRevValues = GenEnumField::GenRevValues;
+
+    GenEnumFieldImpl(const GenGenerator& generator, ParseEnumField dslObj) : m_dslObj(dslObj)
+    {
+        auto& values = m_dslObj.parseValues();
+        for (auto& revInfo : m_dslObj.parseRevValues()) {
+            auto iter = values.find(revInfo.second);
+            assert(iter != values.end());
+            if (generator.genDoesElementExist(iter->second.m_sinceVersion, iter->second.m_deprecatedSince, false)) {
+                m_revValues.insert(revInfo);
+            }
+        }
+    }
 
     bool genPrepare()
     {
@@ -82,7 +94,7 @@ public:
             (type == ParseEnumField::ParseType::Uint64) ||
             (type == ParseEnumField::ParseType::Uintvar);
 
-        for (auto& v : m_dslObj.parseRevValues()) {
+        for (auto& v : m_revValues) {
             m_sortedRevValues.push_back(std::make_pair(v.first, &v.second));
         }
 
@@ -137,6 +149,10 @@ public:
 
     bool genHasValuesLimit() const
     {
+        if (m_sortedRevValues.empty()) {
+            return false;
+        }
+
         auto maxTypeValue = genMaxTypeValueInternal(m_dslObj.parseType());
         if (m_bigUnsigned) {
             return static_cast<std::uintmax_t>(m_sortedRevValues.back().first) < maxTypeValue;
@@ -150,9 +166,18 @@ public:
         return m_sortedRevValues;
     }
 
+    const GenRevValues& genRevValues() const
+    {
+        return m_revValues;
+    }
+
 private:
     void genAdjustFirstLetterInName(std::string& val) const
     {
+        if (m_sortedRevValues.empty()) {
+            return;
+        }
+
         auto& firstElem = m_sortedRevValues.front();
         assert(firstElem.second != nullptr);
         assert(!firstElem.second->empty());
@@ -169,13 +194,14 @@ private:
     }
 
     ParseEnumField m_dslObj;
+    GenRevValues m_revValues;
     GenSortedRevValues m_sortedRevValues;
     bool m_bigUnsigned = false;
 };
 
 GenEnumField::GenEnumField(GenGenerator& generator, ParseField dslObj, GenElem* parent) :
     Base(generator, dslObj, parent),
-    m_impl(std::make_unique<GenEnumFieldImpl>(genEnumFieldParseObj()))
+    m_impl(std::make_unique<GenEnumFieldImpl>(generator, genEnumFieldParseObj()))
 {
     assert(dslObj.parseKind() == ParseField::ParseKind::Enum);
 }
@@ -194,8 +220,7 @@ unsigned GenEnumField::genHexWidth() const
 
 std::string GenEnumField::genValueName(std::intmax_t value) const
 {
-    auto obj = genEnumFieldParseObj();
-    auto& revValues = obj.parseRevValues();
+    auto& revValues = genRevValues();
     auto iter = revValues.find(value);
     if (iter != revValues.end()) {
         return iter->second;
@@ -219,6 +244,11 @@ const GenEnumField::GenSortedRevValues& GenEnumField::genSortedRevValues() const
     return m_impl->genSortedRevValues();
 }
 
+const GenEnumField::GenRevValues& GenEnumField::genRevValues() const
+{
+    return m_impl->genRevValues();
+}
+
 std::string GenEnumField::genValueToString(std::intmax_t val) const
 {
     return m_impl->genValueToString(val);
diff --git a/lib/src/gen/GenSetField.cpp b/lib/src/gen/GenSetField.cpp
index 60c84e0..c4d4219 100644
--- a/lib/src/gen/GenSetField.cpp
+++ b/lib/src/gen/GenSetField.cpp
@@ -31,6 +31,16 @@ GenSetField::GenSetField(GenGenerator& generator, commsdsl::parse::ParseField pa
     Base(generator, parseObj, parent)
 {
     assert(parseObj.parseKind() == ParseField::ParseKind::Set);
+
+    auto obj = genSetFieldParseObj();
+    auto& bits = obj.parseBits();
+    for (auto& revInfo : obj.parseRevBits()) {
+        auto iter = bits.find(revInfo.second);
+        assert(iter != bits.end());
+        if (generator.genDoesElementExist(iter->second.m_sinceVersion, iter->second.m_deprecatedSince, false)) {
+            m_revBits.insert(revInfo);
+        }
+    }
 }
 
 GenSetField::~GenSetField() = default;
@@ -40,6 +50,11 @@ GenSetField::ParseSetField GenSetField::genSetFieldParseObj() const
     return ParseSetField(genParseObj());
 }
 
+const GenSetField::GenRevBits& GenSetField::genRevBits() const
+{
+    return m_revBits;
+}
+
 } // namespace gen
 
 } // namespace commsdsl
-- 
2.43.0


From ed7c57e2b47570d21733bbffd537250ef058b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:54 +0000
Subject: [PATCH 103/114] fix: ignore valid values missing in the selected
 schema version

---
 app/commsdsl2comms/src/CommsDataField.cpp   |  4 +++
 app/commsdsl2comms/src/CommsFloatField.cpp  | 37 ++++++++++++++++-----
 app/commsdsl2comms/src/CommsFloatField.h    |  3 ++
 app/commsdsl2comms/src/CommsStringField.cpp |  4 +++
 4 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDataField.cpp b/app/commsdsl2comms/src/CommsDataField.cpp
index db3068e..bd8e130 100644
--- a/app/commsdsl2comms/src/CommsDataField.cpp
+++ b/app/commsdsl2comms/src/CommsDataField.cpp
@@ -349,6 +349,10 @@ std::string CommsDataField::commsDefValidFuncBodyImpl() const
         values.push_back("MapElem(std::begin(" + name + "), std::end(" + name + "))");
     }
 
+    if (values.empty()) {
+        return std::string();
+    }
+
     static const std::string Templ =
         "if (!Base::valid()) {\n"
         "    return false;\n"
diff --git a/app/commsdsl2comms/src/CommsFloatField.cpp b/app/commsdsl2comms/src/CommsFloatField.cpp
index 4dbdbe9..0ba6828 100644
--- a/app/commsdsl2comms/src/CommsFloatField.cpp
+++ b/app/commsdsl2comms/src/CommsFloatField.cpp
@@ -295,7 +295,7 @@ CommsFloatField::CommsIncludesList CommsFloatField::commsDefIncludesImpl() const
             break;
         }
 
-        for (auto& r : obj.parseValidRanges()) {
+        for (auto& r : commsValidRangesInternal()) {
             hasLimits = commsIsLimit(r.m_min);
             if (hasLimits) {
                 assert(commsIsLimit(r.m_max));
@@ -369,7 +369,7 @@ std::string CommsFloatField::commsDefValidFuncBodyImpl() const
 {
     auto obj = genFloatFieldParseObj();
 
-    auto& validRanges = obj.parseValidRanges();
+    auto validRanges = commsValidRangesInternal();
     if (validRanges.empty()) {
         return strings::genEmptyString();
     }
@@ -425,7 +425,7 @@ bool CommsFloatField::commsIsVersionDependentImpl() const
         return false;
     }
 
-    auto& validRanges = obj.parseValidRanges();
+    auto validRanges = commsValidRangesInternal();
     if (validRanges.empty()) {
         return false;
     }
@@ -703,7 +703,7 @@ void CommsFloatField::commsAddVersionOptInternal(GenStringsList& opts) const
         return;
     }
 
-    auto& validRanges = obj.parseValidRanges();
+    auto validRanges = commsValidRangesInternal();
     if (validRanges.empty()) {
         return;
     }
@@ -725,20 +725,39 @@ void CommsFloatField::commsAddVersionOptInternal(GenStringsList& opts) const
 
 void CommsFloatField::commsAddInvalidOptInternal(GenStringsList& opts) const
 {
-    auto obj = genFloatFieldParseObj();
-
-    if (!obj.parseValidRanges().empty()) {
+    if (!commsValidRangesInternal().empty()) {
         opts.push_back("comms::option::def::InvalidByDefault");
     }
 }
 
+CommsFloatField::ValidRangesList CommsFloatField::commsValidRangesInternal() const
+{
+    auto obj = genFloatFieldParseObj();
+    auto validRanges = obj.parseValidRanges(); // copy
+
+    bool validCheckVersion =
+        genGenerator().genSchemaOf(*this).genVersionDependentCode() &&
+        obj.parseValidCheckVersion();
+
+    validRanges.erase(
+        std::remove_if(
+            validRanges.begin(), validRanges.end(),
+            [this, validCheckVersion](auto& r)
+            {
+                return !this->genGenerator().genDoesElementExist(r.m_sinceVersion, r.m_deprecatedSince, !validCheckVersion);
+            }),
+        validRanges.end());
+
+    return validRanges;
+}
+
 CommsFloatField::GenStringsList CommsFloatField::commsValidNormalConditionsInternal() const
 {
     util::GenStringsList conditions;
     auto obj = genFloatFieldParseObj();
     auto type = obj.parseType();
 
-    auto& validRanges = obj.parseValidRanges();
+    auto validRanges = commsValidRangesInternal();
     for (auto& r : validRanges) {
         if (commsIsLimit(r.m_min)) {
             commsAddCondition(conditions, commsCmpToString(r.m_min, type));
@@ -754,7 +773,7 @@ CommsFloatField::GenStringsList CommsFloatField::commsValidNormalConditionsInter
 CommsFloatField::GenStringsList CommsFloatField::commsValidVersionBasedConditionsInternal() const
 {
     auto obj = genFloatFieldParseObj();
-    auto validRanges = obj.parseValidRanges(); // copy
+    auto validRanges = commsValidRangesInternal();
     auto minVersion = obj.parseSinceVersion();
     auto maxVersion = obj.parseDeprecatedSince();
 
diff --git a/app/commsdsl2comms/src/CommsFloatField.h b/app/commsdsl2comms/src/CommsFloatField.h
index 43faf7a..adf0e52 100644
--- a/app/commsdsl2comms/src/CommsFloatField.h
+++ b/app/commsdsl2comms/src/CommsFloatField.h
@@ -52,6 +52,8 @@ protected:
     virtual bool commsVerifyInnerRefImpl(const std::string& refStr) const override;
 
 private:
+    using ValidRangesList = commsdsl::parse::ParseFloatField::ParseValidRangesList;
+
     std::string commsCommonHasSpecialsFuncCodeInternal() const;
     std::string commsCommonValueNamesMapCodeInternal() const;
     std::string commsCommonSpecialsCodeInternal() const;
@@ -67,6 +69,7 @@ private:
     void commsAddVersionOptInternal(GenStringsList& opts) const;
     void commsAddInvalidOptInternal(GenStringsList& opts) const;
 
+    ValidRangesList commsValidRangesInternal() const;
     GenStringsList commsValidNormalConditionsInternal() const;
     GenStringsList commsValidVersionBasedConditionsInternal() const;
 };
diff --git a/app/commsdsl2comms/src/CommsStringField.cpp b/app/commsdsl2comms/src/CommsStringField.cpp
index 7d17b8d..63048b0 100644
--- a/app/commsdsl2comms/src/CommsStringField.cpp
+++ b/app/commsdsl2comms/src/CommsStringField.cpp
@@ -310,6 +310,10 @@ std::string CommsStringField::commsDefValidFuncBodyImpl() const
         values.push_back("\"" + util::genStrEscape(info.m_value) + "\"");
     }
 
+    if (values.empty()) {
+        return std::string();
+    }
+
     static const std::string Templ =
         "if (!Base::valid()) {\n"
         "    return false;\n"
-- 
2.43.0


From d1ec3ef2d7dd8c4aa2c1e84bc3683f57b4d6d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:28 +0000
Subject: [PATCH 104/114] fix: do not copy the custom code of the hooks as
 extra source files

---
 app/commsdsl2comms/src/CommsGenerator.cpp           | 1 +
 app/commsdsl2emscripten/src/EmscriptenGenerator.cpp | 2 ++
 app/commsdsl2latex/src/LatexGenerator.cpp           | 3 +++
 app/commsdsl2swig/src/SwigGenerator.cpp             | 2 ++
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp      | 1 +
 5 files changed, 9 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsGenerator.cpp b/app/commsdsl2comms/src/CommsGenerator.cpp
index b913926..59e8d98 100644
--- a/app/commsdsl2comms/src/CommsGenerator.cpp
+++ b/app/commsdsl2comms/src/CommsGenerator.cpp
@@ -377,6 +377,7 @@ bool CommsGenerator::commsWriteExtraFilesInternal() const
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genConstructFileSuffixStr(),
+        strings::genConstructBodyFileSuffixStr(),
     };
 
     return genCopyExtraSourceFiles(ReservedExt);
diff --git a/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp b/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
index 842b157..b5994e7 100644
--- a/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenGenerator.cpp
@@ -405,6 +405,8 @@ bool EmscriptenGenerator::emscriptenWriteExtraFilesInternal() const
         strings::genPrependFileSuffixStr(),
         strings::genBindFileSuffixStr(),
         strings::genSourcesFileSuffixStr(),
+        strings::genProtectedFileSuffixStr(),
+        strings::genPrivateFileSuffixStr(),
     };
 
     return genCopyExtraSourceFiles(ReservedExt);
diff --git a/app/commsdsl2latex/src/LatexGenerator.cpp b/app/commsdsl2latex/src/LatexGenerator.cpp
index e7ff875..3be26b6 100644
--- a/app/commsdsl2latex/src/LatexGenerator.cpp
+++ b/app/commsdsl2latex/src/LatexGenerator.cpp
@@ -384,6 +384,9 @@ bool LatexGenerator::latexWriteExtraFilesInternal() const
         strings::genHtmlFileSuffixStr(),
         strings::genHtmlAppendFileSuffixStr(),
         strings::genHtmlCmdAppendFileSuffixStr(),
+        strings::genDocumentFileSuffixStr(),
+        strings::genPrependFileSuffixStr(),
+        strings::genPdfAppendFileSuffixStr(),
     };
 
     return genCopyExtraSourceFiles(ReservedExt);
diff --git a/app/commsdsl2swig/src/SwigGenerator.cpp b/app/commsdsl2swig/src/SwigGenerator.cpp
index 3de953f..57bfb50 100644
--- a/app/commsdsl2swig/src/SwigGenerator.cpp
+++ b/app/commsdsl2swig/src/SwigGenerator.cpp
@@ -336,6 +336,8 @@ bool SwigGenerator::swigWriteExtraFilesInternal() const
         strings::genPrependFileSuffixStr(),
         strings::genPrependLangFileSuffixStr(),
         strings::genSourcesFileSuffixStr(),
+        strings::genProtectedFileSuffixStr(),
+        strings::genPrivateFileSuffixStr(),
     };
 
     return genCopyExtraSourceFiles(ReservedExt);
diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index cc5fa66..26ec10e 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -437,6 +437,7 @@ bool ToolsQtGenerator::toolsWriteExtraFilesInternal() const
         strings::genIncFileSuffixStr(),
         strings::genAppendFileSuffixStr(),
         strings::genSourcesFileSuffixStr(),
+        strings::genReadFileSuffixStr(),
     };
 
     return genCopyExtraSourceFiles(ReservedExt);
-- 
2.43.0


From 9faa8b3180cb261879d16c4fdf8b344b310f06f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:40 +0000
Subject: [PATCH 105/114] fix: rename the default options of the tools_qt
 plugin when they are extended

---
 app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
index c68509b..345f72a 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtDefaultOptions.cpp
@@ -153,7 +153,7 @@ bool ToolsQtDefaultOptions::toolsWriteInternal() const
         "{\n\n"
         "namespace options\n"
         "{\n\n"
-        "using #^#NAME#$# =\n"
+        "using #^#NAME#$##^#ORIG#$# =\n"
         "    #^#OPTS_BASE#$#;\n\n"
         "#^#EXTEND#$#\n"
         "#^#APPEND#$#\n"
-- 
2.43.0


From 93e172654691c56717f82cc26e3189d1e7e7a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:01 +0000
Subject: [PATCH 106/114] fix: look for the custom code of the message
 factories at the path of their headers

---
 lib/include/commsdsl/gen/comms.h | 2 +-
 lib/src/gen/comms.cpp            | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/commsdsl/gen/comms.h b/lib/include/commsdsl/gen/comms.h
index b3629e4..2231434 100644
--- a/lib/include/commsdsl/gen/comms.h
+++ b/lib/include/commsdsl/gen/comms.h
@@ -120,7 +120,7 @@ std::string genRelCommonHeaderPathFor(const GenElem& elem, const GenGenerator& g
 std::string genRelHeaderPathForField(const std::string& name, const GenGenerator& generator);
 std::string genRelHeaderForOptions(const std::string& name, const GenGenerator& generator, bool addMainNamespace = true);
 std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
-std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
+std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
 std::string genRelHeaderForMsgId(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
 std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
 std::string genRelSourceForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index 0bd6abd..5f98dd8 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -517,11 +517,11 @@ std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator&
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
-std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
+std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
     auto subElems = genNamespaceElemsInternal(ns);
     subElems.push_back(strings::genFactoryNamespaceStr());
-    return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
+    return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 // TODO: remove
@@ -714,7 +714,7 @@ std::string genInputCodeRelPathForFactory(const std::string& name, const GenGene
     return
         strings::genIncludeDirStr() + '/' +
         generator.genCurrentSchema().genOrigNamespace() + '/' +
-        comms::genRelHeaderForFactory(name, generator, ns);
+        comms::genRelHeaderForFactory(name, generator, ns, false);
 }
 
 std::string genInputCodeAbsPathForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
-- 
2.43.0


From 6d8d8fdd0077956046611e3f156dc78698f6959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:13 +0000
Subject: [PATCH 107/114] fix: append the custom text to every file generated
 by commsdsl2comms

---
 app/commsdsl2comms/src/CommsCmake.cpp     |  4 +-
 app/commsdsl2comms/src/CommsDispatch.cpp  | 62 ++++++++++++-----------
 app/commsdsl2comms/src/CommsDoxygen.cpp   |  7 ++-
 app/commsdsl2comms/src/CommsField.cpp     |  2 +
 app/commsdsl2comms/src/CommsFieldBase.cpp |  2 +
 app/commsdsl2comms/src/CommsFrame.cpp     |  2 +
 app/commsdsl2comms/src/CommsInterface.cpp |  4 +-
 app/commsdsl2comms/src/CommsMessage.cpp   |  2 +
 app/commsdsl2comms/src/CommsMsgId.cpp     |  2 +
 lib/include/commsdsl/gen/comms.h          | 10 ++--
 lib/src/gen/comms.cpp                     | 44 +++++++++++++---
 11 files changed, 100 insertions(+), 41 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsCmake.cpp b/app/commsdsl2comms/src/CommsCmake.cpp
index 380a837..66d975a 100644
--- a/app/commsdsl2comms/src/CommsCmake.cpp
+++ b/app/commsdsl2comms/src/CommsCmake.cpp
@@ -131,14 +131,16 @@ bool CommsCmake::commsWriteInternal() const
         "        FILES ${CMAKE_BINARY_DIR}/${OPT_CMAKE_EXPORT_CONFIG_NAME}ConfigVersion.cmake\n"
         "        DESTINATION ${CMAKE_INSTALL_LIBDIR}/${OPT_CMAKE_EXPORT_CONFIG_NAME}/cmake/)\n"
         "endif ()\n"
+        "#^#APPEND#$#\n"
     ;
 
     util::GenReplacementMap repl = {
         {"NAME", m_generator.genProtocolSchema().genMainNamespace()},
         {"CAP_NAME", util::genStrToUpper(m_generator.genProtocolSchema().genMainNamespace())},
+        {"APPEND", m_generator.genReadScriptCodeInjectCode(strings::genCmakeListsFileStr() + strings::genAppendFileSuffixStr(), "Append here")},
     };
 
-    stream << util::genProcessTemplate(Templ, repl);
+    stream << util::genProcessTemplate(Templ, repl, true);
     stream.flush();
     if (!stream.good()) {
         m_generator.genLogger().genError("Failed to write \"" + filePath + "\".");
diff --git a/app/commsdsl2comms/src/CommsDispatch.cpp b/app/commsdsl2comms/src/CommsDispatch.cpp
index ce406eb..8408fc2 100644
--- a/app/commsdsl2comms/src/CommsDispatch.cpp
+++ b/app/commsdsl2comms/src/CommsDispatch.cpp
@@ -44,11 +44,30 @@ auto commsGetFileName(const std::string& desc = std::string())
     return "Dispatch" + desc + "Message";
 }
 
+const std::string& commsDispatchTempl()
+{
+    static const std::string Templ =
+        "#^#GENERATED#$#\n"
+        "/// @file\n"
+        "/// @brief Contains dispatch to handling function(s) for #^#DESC#$# input messages.\n\n"
+        "#pragma once\n\n"
+        "#^#INCLUDES#$#\n"
+        "#^#NS_BEGIN#$#\n\n"
+        "namespace #^#DISPATCH_NAMESPACE#$#\n"
+        "{\n\n"
+        "#^#CODE#$#\n\n"
+        "#^#APPEND#$#\n"
+        "} // namespace #^#DISPATCH_NAMESPACE#$#\n\n"
+        "#^#NS_END#$#\n";
+
+    return Templ;
+}
+
 bool commsWriteFileInternal(
     const std::string& name,
     CommsGenerator& generator,
     const CommsNamespace& ns,
-    const std::string& data)
+    util::GenReplacementMap& repl)
 {
     auto filePath = comms::genHeaderPathForDispatch(name, generator, ns);
     generator.genLogger().genInfo("Generating " + filePath);
@@ -65,29 +84,14 @@ bool commsWriteFileInternal(
         return false;
     }
 
-    stream << data;
+    repl["APPEND"] =
+        generator.genReadCodeInjectCode(comms::genInputCodeRelPathForDispatch(name, generator, ns) + strings::genAppendFileSuffixStr(), "Append here");
+
+    stream << util::genProcessTemplate(commsDispatchTempl(), repl, true);
     stream.flush();
     return stream.good();
 }
 
-const std::string& commsDispatchTempl()
-{
-    static const std::string Templ =
-        "#^#GENERATED#$#\n"
-        "/// @file\n"
-        "/// @brief Contains dispatch to handling function(s) for #^#DESC#$# input messages.\n\n"
-        "#pragma once\n\n"
-        "#^#INCLUDES#$#\n"
-        "#^#NS_BEGIN#$#\n\n"
-        "namespace #^#DISPATCH_NAMESPACE#$#\n"
-        "{\n\n"
-        "#^#CODE#$#\n\n"
-        "} // namespace #^#DISPATCH_NAMESPACE#$#\n\n"
-        "#^#NS_END#$#\n";
-
-    return Templ;
-}
-
 util::GenReplacementMap commsInitialRepl(const CommsGenerator& generator, const commsdsl::gen::GenElem& elem)
 {
     util::GenReplacementMap repl = {
@@ -338,7 +342,7 @@ bool CommsDispatch::commsWriteDispatchInternal() const
         {"CODE", commsDispatchCodeInternal(std::string(), std::move(checkFunc))}
     });
 
-    return commsWriteFileInternal(commsGetFileName(), m_commsGenerator, m_commsParent, util::genProcessTemplate(commsDispatchTempl(), repl, true));
+    return commsWriteFileInternal(commsGetFileName(), m_commsGenerator, m_commsParent, repl);
 }
 
 bool CommsDispatch::commsWriteClientDispatchInternal() const
@@ -357,7 +361,7 @@ bool CommsDispatch::commsWriteClientDispatchInternal() const
         {"CODE", commsDispatchCodeInternal(inputPrefix, std::move(checkFunc))}
     });
 
-    return commsWriteFileInternal(commsGetFileName(inputPrefix), m_commsGenerator, m_commsParent, util::genProcessTemplate(commsDispatchTempl(), repl, true));
+    return commsWriteFileInternal(commsGetFileName(inputPrefix), m_commsGenerator, m_commsParent, repl);
 }
 
 bool CommsDispatch::commsWriteServerDispatchInternal() const
@@ -376,7 +380,7 @@ bool CommsDispatch::commsWriteServerDispatchInternal() const
         {"CODE", commsDispatchCodeInternal(inputPrefix, std::move(checkFunc))}
     });
 
-    return commsWriteFileInternal(commsGetFileName(inputPrefix), m_commsGenerator, m_commsParent, util::genProcessTemplate(commsDispatchTempl(), repl, true));
+    return commsWriteFileInternal(commsGetFileName(inputPrefix), m_commsGenerator, m_commsParent, repl);
 }
 
 bool CommsDispatch::commsWritePlatformDispatchInternal() const
@@ -415,7 +419,7 @@ bool CommsDispatch::commsWritePlatformDispatchInternal() const
                     commsGetFileName(inputPrefix),
                     m_commsGenerator,
                     m_commsParent,
-                    util::genProcessTemplate(commsDispatchTempl(), repl, true));
+                    repl);
 
             if (!result) {
                 return false;
@@ -444,7 +448,7 @@ bool CommsDispatch::commsWritePlatformDispatchInternal() const
                     commsGetFileName(inputPrefix),
                     m_commsGenerator,
                     m_commsParent,
-                    util::genProcessTemplate(commsDispatchTempl(), repl, true));
+                    repl);
 
             if (!result) {
                 return false;
@@ -473,7 +477,7 @@ bool CommsDispatch::commsWritePlatformDispatchInternal() const
                     commsGetFileName(inputPrefix),
                     m_commsGenerator,
                     m_commsParent,
-                    util::genProcessTemplate(commsDispatchTempl(), repl, true));
+                    repl);
 
             if (!result) {
                 return false;
@@ -516,7 +520,7 @@ bool CommsDispatch::commsWriteExtraDispatchInternal() const
                     commsGetFileName(inputPrefix),
                     m_commsGenerator,
                     m_commsParent,
-                    util::genProcessTemplate(commsDispatchTempl(), repl, true));
+                    repl);
 
             if (!result) {
                 return false;
@@ -545,7 +549,7 @@ bool CommsDispatch::commsWriteExtraDispatchInternal() const
                     commsGetFileName(inputPrefix),
                     m_commsGenerator,
                     m_commsParent,
-                    util::genProcessTemplate(commsDispatchTempl(), repl, true));
+                    repl);
 
             if (!result) {
                 return false;
@@ -574,7 +578,7 @@ bool CommsDispatch::commsWriteExtraDispatchInternal() const
                     commsGetFileName(inputPrefix),
                     m_commsGenerator,
                     m_commsParent,
-                    util::genProcessTemplate(commsDispatchTempl(), repl, true));
+                    repl);
 
             if (!result) {
                 return false;
diff --git a/app/commsdsl2comms/src/CommsDoxygen.cpp b/app/commsdsl2comms/src/CommsDoxygen.cpp
index cbfd133..1f3d84e 100644
--- a/app/commsdsl2comms/src/CommsDoxygen.cpp
+++ b/app/commsdsl2comms/src/CommsDoxygen.cpp
@@ -317,7 +317,12 @@ bool CommsDoxygen::commsWriteLayoutInternal() const
         "</directory>\n"
         "</doxygenlayout>\n";
 
-    return commsWriteFileInternal(FileName, Templ, m_commsGenerator);
+    std::string append;
+    if (!m_commsGenerator.genGetCodeDir().empty()) {
+        append = util::genReadFileContents(comms::genInputCodeAbsPathForDoc(FileName, m_commsGenerator) + strings::genAppendFileSuffixStr());
+    }
+
+    return commsWriteFileInternal(FileName, Templ + append, m_commsGenerator);
 }
 
 bool CommsDoxygen::commsWriteNamespacesInternal() const
diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index 83de7ef..b41d1ae 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -1292,6 +1292,7 @@ bool CommsField::commsWriteCommonInternal() const
         "#^#INCLUDES#$#\n"
         "#^#NS_BEGIN#$#\n"
         "#^#DEF#$#\n"
+        "#^#APPEND#$#\n"
         "#^#NS_END#$#"
     ;
 
@@ -1302,6 +1303,7 @@ bool CommsField::commsWriteCommonInternal() const
         {"NS_BEGIN", comms::genNamespaceBeginFor(m_genField, generator)},
         {"NS_END", comms::genNamespaceEndFor(m_genField, generator)},
         {"DEF", commsCommonCode()},
+        {"APPEND", generator.genReadCodeInjectCode(comms::genInputCodeRelCommonPathFor(m_genField, generator) + strings::genAppendFileSuffixStr(), "Append here")},
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
diff --git a/app/commsdsl2comms/src/CommsFieldBase.cpp b/app/commsdsl2comms/src/CommsFieldBase.cpp
index 1f5c63a..2f4b9f5 100644
--- a/app/commsdsl2comms/src/CommsFieldBase.cpp
+++ b/app/commsdsl2comms/src/CommsFieldBase.cpp
@@ -82,6 +82,7 @@ bool CommsFieldBase::commsWriteInternal() const
         "        TOpt...,\n"
         "        #^#OPTIONS#$#\n"
         "    >;\n\n"
+        "#^#APPEND#$#\n"
         "} // namespace field\n\n"
         "} // namespace #^#PROT_NAMESPACE#$#\n\n";
 
@@ -92,6 +93,7 @@ bool CommsFieldBase::commsWriteInternal() const
     util::GenReplacementMap repl = {
         {"GENERATED", CommsGenerator::commsFileGeneratedComment()},
         {"PROT_NAMESPACE", m_commsGenerator.genCurrentSchema().genMainNamespace()},
+        {"APPEND", m_commsGenerator.genReadCodeInjectCode(comms::genInputCodeRelPathForField(strings::genFieldBaseClassStr(), m_commsGenerator) + strings::genAppendFileSuffixStr(), "Append here")},
         {"OPTIONS", util::genStrListToString(options, ",\n", "")},
     };
 
diff --git a/app/commsdsl2comms/src/CommsFrame.cpp b/app/commsdsl2comms/src/CommsFrame.cpp
index c843b7c..1d19771 100644
--- a/app/commsdsl2comms/src/CommsFrame.cpp
+++ b/app/commsdsl2comms/src/CommsFrame.cpp
@@ -177,6 +177,7 @@ bool CommsFrame::commsWriteCommonInternal() const
         "{\n"
         "    #^#BODY#$#\n"
         "};\n\n"
+        "#^#APPEND#$#\n"
         "#^#NS_END#$#\n";
 
     util::GenReplacementMap repl =  {
@@ -189,6 +190,7 @@ bool CommsFrame::commsWriteCommonInternal() const
         {"LAYERS_SUFFIX", strings::genLayersSuffixStr()},
         {"COMMON_SUFFIX", strings::genCommonSuffixStr()},
         {"BODY", commsCommonBodyInternal()},
+        {"APPEND", gen.genReadCodeInjectCode(comms::genInputCodeRelCommonPathFor(*this, gen) + strings::genAppendFileSuffixStr(), "Append here")},
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
diff --git a/app/commsdsl2comms/src/CommsInterface.cpp b/app/commsdsl2comms/src/CommsInterface.cpp
index 8672e6c..4ce6902 100644
--- a/app/commsdsl2comms/src/CommsInterface.cpp
+++ b/app/commsdsl2comms/src/CommsInterface.cpp
@@ -255,6 +255,7 @@ bool CommsInterface::commsWriteCommonInternal() const
         "{\n"
         "    #^#CODE#$#\n"
         "};\n"
+        "#^#APPEND#$#\n"
         "#^#NS_END#$#\n";
 
     util::GenReplacementMap repl =  {
@@ -264,7 +265,8 @@ bool CommsInterface::commsWriteCommonInternal() const
         {"INCLUDES", commsCommonIncludesInternal()},
         {"NS_BEGIN", comms::genNamespaceBeginFor(*this, gen)},
         {"NS_END", comms::genNamespaceEndFor(*this, gen)},
-        {"CODE", commsCommonFieldsCodeInternal()}
+        {"CODE", commsCommonFieldsCodeInternal()},
+        {"APPEND", gen.genReadCodeInjectCode(comms::genInputCodeRelCommonPathFor(*this, gen) + strings::genAppendFileSuffixStr(), "Append here")},
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 1423f30..d08ff23 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -605,6 +605,7 @@ bool CommsMessage::commsWriteCommonInternal() const
         "{\n"
         "    #^#BODY#$#\n"
         "};\n\n"
+        "#^#APPEND#$#\n"
         "#^#NS_END#$#\n\n";
     ;
 
@@ -617,6 +618,7 @@ bool CommsMessage::commsWriteCommonInternal() const
         {"FIELDS_COMMON", commsCommonFieldsCodeInternal()},
         {"NAME", comms::genClassName(genParseObj().parseName())},
         {"BODY", commsCommonBodyInternal()},
+        {"APPEND", gen.genReadCodeInjectCode(comms::genInputCodeRelCommonPathFor(*this, gen) + strings::genAppendFileSuffixStr(), "Append here")},
     };
 
     stream << util::genProcessTemplate(Templ, repl, true);
diff --git a/app/commsdsl2comms/src/CommsMsgId.cpp b/app/commsdsl2comms/src/CommsMsgId.cpp
index 30b99f7..d0c962b 100644
--- a/app/commsdsl2comms/src/CommsMsgId.cpp
+++ b/app/commsdsl2comms/src/CommsMsgId.cpp
@@ -74,6 +74,7 @@ bool CommsMsgId::commsWrite() const
         "{\n"
         "    #^#IDS#$#\n"
         "};\n\n"
+        "#^#APPEND#$#\n"
         "#^#NS_END#$#\n";
     ;
 
@@ -82,6 +83,7 @@ bool CommsMsgId::commsWrite() const
         {"PROT_NAMESPACE", m_commsGenerator.genCurrentSchema().genMainNamespace()},
         {"TYPE", commsTypeInternal()},
         {"IDS", commsIdsInternal()},
+        {"APPEND", m_commsGenerator.genReadCodeInjectCode(comms::genInputCodeRelPathForNamespaceMember(strings::genMsgIdEnumNameStr(), m_commsGenerator, m_parent) + strings::genAppendFileSuffixStr(), "Append here")},
         {"NS_BEGIN", comms::genNamespaceBeginFor(m_parent, m_commsGenerator)},
         {"NS_END", comms::genNamespaceEndFor(m_parent, m_commsGenerator)},
     };
diff --git a/lib/include/commsdsl/gen/comms.h b/lib/include/commsdsl/gen/comms.h
index 2231434..e915eb9 100644
--- a/lib/include/commsdsl/gen/comms.h
+++ b/lib/include/commsdsl/gen/comms.h
@@ -116,10 +116,10 @@ std::string genScopeForCustomLayer(
 
 std::string genRelHeaderPathFor(const GenElem& elem, const GenGenerator& generator, bool addMainNamespace = true);
 std::string genRelSourcePathFor(const GenElem& elem, const GenGenerator& generator, bool addMainNamespace = true);
-std::string genRelCommonHeaderPathFor(const GenElem& elem, const GenGenerator& generator);
-std::string genRelHeaderPathForField(const std::string& name, const GenGenerator& generator);
+std::string genRelCommonHeaderPathFor(const GenElem& elem, const GenGenerator& generator, bool addMainNamespace = true);
+std::string genRelHeaderPathForField(const std::string& name, const GenGenerator& generator, bool addMainNamespace = true);
 std::string genRelHeaderForOptions(const std::string& name, const GenGenerator& generator, bool addMainNamespace = true);
-std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
+std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
 std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
 std::string genRelHeaderForMsgId(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
 std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
@@ -146,6 +146,10 @@ std::string genPathForDoc(const std::string& name, const GenGenerator& generator
 
 std::string genInputCodeRelPathFor(const GenElem& elem, const GenGenerator& generator);
 std::string genInputCodeAbsPathFor(const GenElem& elem, const GenGenerator& generator);
+std::string genInputCodeRelCommonPathFor(const GenElem& elem, const GenGenerator& generator);
+std::string genInputCodeRelPathForField(const std::string& name, const GenGenerator& generator);
+std::string genInputCodeRelPathForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
+std::string genInputCodeRelPathForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
 std::string genInputCodeRelPathForRoot(const std::string& name, const GenGenerator& generator);
 std::string genInputCodeAbsPathForRoot(const std::string& name, const GenGenerator& generator);
 std::string genInputCodeRelPathForDoc(const std::string& name);
diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index 5f98dd8..2024069 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -487,18 +487,18 @@ std::string genRelSourcePathFor(const GenElem& elem, const GenGenerator& generat
     return genScopeForInternal(elem, generator, addMainNamespace, true, GenPathSep) + strings::genCppSourceSuffixStr();
 }
 
-std::string genRelCommonHeaderPathFor(const GenElem& elem, const GenGenerator& generator)
+std::string genRelCommonHeaderPathFor(const GenElem& elem, const GenGenerator& generator, bool addMainNamespace)
 {
-    return genCommonScopeForInternal(elem, generator, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
+    return genCommonScopeForInternal(elem, generator, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
-std::string genRelHeaderPathForField(const std::string& name, const GenGenerator& generator)
+std::string genRelHeaderPathForField(const std::string& name, const GenGenerator& generator, bool addMainNamespace)
 {
     static const std::vector<std::string> SubElems = {
         strings::genFieldNamespaceStr()
     };
 
-    return genScopeForElement(name, generator, SubElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
+    return genScopeForElement(name, generator, SubElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 std::string genRelHeaderForOptions(const std::string& name, const GenGenerator& generator, bool addMainNamespace)
@@ -510,11 +510,11 @@ std::string genRelHeaderForOptions(const std::string& name, const GenGenerator&
     return genScopeForElement(name, generator, SubElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
-std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
+std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
     auto subElems = genNamespaceElemsInternal(ns);
     subElems.push_back(strings::genCispatchNamespaceStr());
-    return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
+    return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
@@ -660,6 +660,38 @@ std::string genInputCodeAbsPathFor(const GenElem& elem, const GenGenerator& gene
     return generator.genGetCodeDir() + '/' + genInputCodeRelPathFor(elem, generator);
 }
 
+std::string genInputCodeRelCommonPathFor(const GenElem& elem, const GenGenerator& generator)
+{
+    return
+        strings::genIncludeDirStr() + '/' +
+        generator.genSchemaOf(elem).genOrigNamespace() + '/' +
+        comms::genRelCommonHeaderPathFor(elem, generator, false);
+}
+
+std::string genInputCodeRelPathForField(const std::string& name, const GenGenerator& generator)
+{
+    return
+        strings::genIncludeDirStr() + '/' +
+        generator.genCurrentSchema().genOrigNamespace() + '/' +
+        comms::genRelHeaderPathForField(name, generator, false);
+}
+
+std::string genInputCodeRelPathForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
+{
+    return
+        strings::genIncludeDirStr() + '/' +
+        generator.genCurrentSchema().genOrigNamespace() + '/' +
+        comms::genRelHeaderForDispatch(name, generator, ns, false);
+}
+
+std::string genInputCodeRelPathForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
+{
+    return
+        strings::genIncludeDirStr() + '/' +
+        generator.genCurrentSchema().genOrigNamespace() + '/' +
+        comms::genRelHeaderForNamespaceMember(name, generator, ns, false);
+}
+
 std::string genInputCodeRelPathForRoot(const std::string& name, const GenGenerator& generator)
 {
     return
-- 
2.43.0


From 7a1408934dc3fb87096d5f89dbb7a46ffb17c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:28 +0000
Subject: [PATCH 108/114] fix: rename only the main namespace in the copied
 extra source files

---
 lib/src/gen/GenGenerator.cpp | 41 +++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 91f32c9..9caf0b5 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -44,6 +44,7 @@
 
 #include <cassert>
 #include <algorithm>
+#include <cctype>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
@@ -58,6 +59,40 @@ namespace commsdsl
 namespace gen
 {
 
+namespace
+{
+
+std::string genRenameNamespaceInternal(const std::string& content, const std::string& from, const std::string& to)
+{
+    static const std::string Prefix("namespace ");
+    auto isNameChar =
+        [](char ch)
+        {
+            return (std::isalnum(static_cast<unsigned char>(ch)) != 0) || (ch == '_');
+        };
+
+    auto match = Prefix + from;
+    std::string result;
+    std::size_t pos = 0U;
+    while (pos < content.size()) {
+        auto foundPos = content.find(match, pos);
+        if (foundPos == std::string::npos) {
+            break;
+        }
+
+        auto endPos = foundPos + match.size();
+        bool wholeName = (content.size() <= endPos) || (!isNameChar(content[endPos]));
+        result.append(content, pos, foundPos - pos);
+        result += wholeName ? Prefix + to : match;
+        pos = endPos;
+    }
+
+    result.append(content, pos, std::string::npos);
+    return result;
+}
+
+} // namespace
+
 class GenGeneratorImpl
 {
 public:
@@ -1691,12 +1726,12 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
                 break;
             }
 
-            auto srcPrefix = (fs::path(strings::genIncludeDirStr()) / schemaNs).string();
+            auto srcPrefix = (fs::path(strings::genIncludeDirStr()) / schemaNs / "").string();
             if (!util::genStrStartsWith(relPath, srcPrefix)) {
                 break;
             }
 
-            auto dstPrefix = (fs::path(strings::genIncludeDirStr()) / protSchema.genMainNamespace()).string();
+            auto dstPrefix = (fs::path(strings::genIncludeDirStr()) / protSchema.genMainNamespace() / "").string();
             relPath = dstPrefix + std::string(relPath, srcPrefix.size());
         } while (false);
 
@@ -1727,7 +1762,7 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             std::string content((std::istreambuf_iterator<char>(stream)), std::istreambuf_iterator<char>());
             stream.close();
 
-            content = util::genStrReplace(content, "namespace " + schemaNs, "namespace " + protSchema.genMainNamespace());
+            content = genRenameNamespaceInternal(content, schemaNs, protSchema.genMainNamespace());
             std::ofstream outStream(destStr, std::ios_base::trunc);
             if (!outStream) {
                 genLogger().genError("Failed to modify " + destStr + ".");
-- 
2.43.0


From 31be743307e0f5537b9454c4a1c21051e2435043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:23 +0000
Subject: [PATCH 109/114] fix: prepare the interface before its custom code is
 copied

---
 app/commsdsl2comms/src/CommsInterface.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsInterface.cpp b/app/commsdsl2comms/src/CommsInterface.cpp
index 4ce6902..20793ac 100644
--- a/app/commsdsl2comms/src/CommsInterface.cpp
+++ b/app/commsdsl2comms/src/CommsInterface.cpp
@@ -201,8 +201,9 @@ bool CommsInterface::commsCopyCodeFromInternal()
         return true;
     }
 
-    auto* origIface = genGenerator().genFindInterface(copyFrom);
-    if (origIface == nullptr) {
+    // The code of the referenced interface is loaded when it is prepared.
+    auto* origIface = const_cast<commsdsl::gen::GenInterface*>(genGenerator().genFindInterface(copyFrom));
+    if ((origIface == nullptr) || (!origIface->genPrepare())) {
         genGenerator().genLogger().genError(
             "Failed to find referenced field \"" + copyFrom + "\" for copying overriding code.");
         assert(false); // Should not happen
-- 
2.43.0


From 41565d319a4c2038eef5c3fd125c9ba0aedda533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:36 +0000
Subject: [PATCH 110/114] fix: report missing required override of the message
 when code inject comments are used

---
 app/commsdsl2comms/src/CommsMessage.cpp | 33 ++++++++-----------------
 app/commsdsl2comms/src/CommsMessage.h   |  2 +-
 2 files changed, 11 insertions(+), 24 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index d08ff23..1e46131 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -240,12 +240,12 @@ bool CommsMessage::genPrepareImpl()
     auto obj = genParseObj();
 
     bool overrides =
-        commsPrepareOverrideInternal(obj.parseReadOverride(), "read", &CommsMessage::commsCustomReadCodeInternal, m_customCode.m_read, &m_customCode.m_hasRead) &&
-        commsPrepareOverrideInternal(obj.parseWriteOverride(), "write", &CommsMessage::commsCustomWriteCodeInternal, m_customCode.m_write, &m_customCode.m_hasWrite) &&
-        commsPrepareOverrideInternal(obj.parseRefreshOverride(), "refresh", &CommsMessage::commsCustomRefreshCodeInternal, m_customCode.m_refresh, &m_customCode.m_hasRefresh) &&
-        commsPrepareOverrideInternal(obj.parseLengthOverride(), "length", &CommsMessage::commsCustomLengthCodeInternal, m_customCode.m_length, &m_customCode.m_hasLength) &&
-        commsPrepareOverrideInternal(obj.parseValidOverride(), "valid", &CommsMessage::commsCustomValidCodeInternal, m_customCode.m_valid, &m_customCode.m_hasValid) &&
-        commsPrepareOverrideInternal(obj.parseNameOverride(), "name", &CommsMessage::commsCustomNameCodeInternal, m_customCode.m_name, &m_customCode.m_hasName)
+        commsPrepareOverrideInternal(obj.parseReadOverride(), "read", &CommsMessage::commsCustomReadCodeInternal, m_customCode.m_read, m_customCode.m_hasRead) &&
+        commsPrepareOverrideInternal(obj.parseWriteOverride(), "write", &CommsMessage::commsCustomWriteCodeInternal, m_customCode.m_write, m_customCode.m_hasWrite) &&
+        commsPrepareOverrideInternal(obj.parseRefreshOverride(), "refresh", &CommsMessage::commsCustomRefreshCodeInternal, m_customCode.m_refresh, m_customCode.m_hasRefresh) &&
+        commsPrepareOverrideInternal(obj.parseLengthOverride(), "length", &CommsMessage::commsCustomLengthCodeInternal, m_customCode.m_length, m_customCode.m_hasLength) &&
+        commsPrepareOverrideInternal(obj.parseValidOverride(), "valid", &CommsMessage::commsCustomValidCodeInternal, m_customCode.m_valid, m_customCode.m_hasValid) &&
+        commsPrepareOverrideInternal(obj.parseNameOverride(), "name", &CommsMessage::commsCustomNameCodeInternal, m_customCode.m_name, m_customCode.m_hasName)
         ;
 
     if (!overrides) {
@@ -321,34 +321,21 @@ bool CommsMessage::commsPrepareOverrideInternal(
     const std::string& name,
     CommsCustomCodeFunc codeFunc,
     std::string& code,
-    bool* hasCode)
+    bool& hasCode)
 {
-    auto updateHasCodeFlag =
-        [hasCode](bool val)
-        {
-            if (hasCode != nullptr) {
-                *hasCode = val;
-            }
-        };
-
     do {
         if (!commsIsOverrideCodeAllowed(type)) {
             code.clear();
-            updateHasCodeFlag(false);
+            hasCode = false;
             break;
         }
 
         bool hasCodeTmp = false;
         auto customCode = (this->*codeFunc)(hasCodeTmp);
-        if ((hasCodeTmp) || (code.empty())) {
-            code = std::move(customCode);
-            updateHasCodeFlag(hasCodeTmp);
-            break;
-        }
-
+        CommsField::commsAssignCustomCode(customCode, hasCodeTmp, code, hasCode);
     } while (false);
 
-    if (code.empty() && commsIsOverrideCodeRequired(type)) {
+    if ((!hasCode) && commsIsOverrideCodeRequired(type)) {
         genGenerator().genLogger().genError(
             "Overriding \"" + name + "\" operation is not provided in injected code for message \"" +
             genParseObj().parseExternalRef() + "\".");
diff --git a/app/commsdsl2comms/src/CommsMessage.h b/app/commsdsl2comms/src/CommsMessage.h
index 11eb9d6..e753a20 100644
--- a/app/commsdsl2comms/src/CommsMessage.h
+++ b/app/commsdsl2comms/src/CommsMessage.h
@@ -108,7 +108,7 @@ private:
         const std::string& name,
         CommsCustomCodeFunc codeFunc,
         std::string& code,
-        bool* hasCode);
+        bool& hasCode);
 
     std::string commsCustomReadCodeInternal(bool& hasRealCode) const;
     std::string commsCustomWriteCodeInternal(bool& hasRealCode) const;
-- 
2.43.0


From f21939a4c690ea0600a6de9da96518bfe66df7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:52 +0000
Subject: [PATCH 111/114] fix: do not fail when the custom code is copied from
 the element missing in the selected schema version

---
 app/commsdsl2comms/src/CommsField.cpp   | 7 +++++++
 app/commsdsl2comms/src/CommsMessage.cpp | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/app/commsdsl2comms/src/CommsField.cpp b/app/commsdsl2comms/src/CommsField.cpp
index b41d1ae..2bcaecb 100644
--- a/app/commsdsl2comms/src/CommsField.cpp
+++ b/app/commsdsl2comms/src/CommsField.cpp
@@ -35,6 +35,7 @@
 #include <algorithm>
 #include <cassert>
 #include <fstream>
+#include <utility>
 
 namespace comms = commsdsl::gen::comms;
 namespace strings = commsdsl::gen::strings;
@@ -980,6 +981,12 @@ bool CommsField::commsCopyCodeFromInternal()
     }
 
     auto& gen = m_genField.genGenerator();
+    if (std::as_const(gen).genFindField(copyFrom) == nullptr) {
+        gen.genLogger().genWarning(
+            "The field \"" + copyFrom + "\" doesn't exist in the selected schema version, its custom code is not copied.");
+        return true;
+    }
+
     auto* origField = gen.genFindField(copyFrom);
     if (origField == nullptr) {
         gen.genLogger().genError(
diff --git a/app/commsdsl2comms/src/CommsMessage.cpp b/app/commsdsl2comms/src/CommsMessage.cpp
index 1e46131..1ffdae2 100644
--- a/app/commsdsl2comms/src/CommsMessage.cpp
+++ b/app/commsdsl2comms/src/CommsMessage.cpp
@@ -299,6 +299,12 @@ bool CommsMessage::commsCopyCodeFromInternal()
         return true;
     }
 
+    if (std::as_const(genGenerator()).genGindMessage(copyFrom) == nullptr) {
+        genGenerator().genLogger().genWarning(
+            "The message \"" + copyFrom + "\" doesn't exist in the selected schema version, its custom code is not copied.");
+        return true;
+    }
+
     auto* origMsg = genGenerator().genGindMessage(copyFrom);
     if (origMsg == nullptr) {
         genGenerator().genLogger().genError(
-- 
2.43.0


From c87aaa15dbf9e585aa2784208b5e1c9730364136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:36 +0000
Subject: [PATCH 112/114] fix: use the options of the schema of the referenced
 field in the interface

---
 app/commsdsl2comms/src/CommsRefField.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2comms/src/CommsRefField.cpp b/app/commsdsl2comms/src/CommsRefField.cpp
index 48700d0..fb35017 100644
--- a/app/commsdsl2comms/src/CommsRefField.cpp
+++ b/app/commsdsl2comms/src/CommsRefField.cpp
@@ -220,7 +220,10 @@ std::string CommsRefField::commsDefFieldOptsInternal() const
 void CommsRefField::commsAddProtocolOptInternal(GenStringsList& opts) const
 {
     if (comms::genIsInterfaceDeepMemberField(*this)) {
-        opts.push_back(comms::genScopeForOptions(strings::genDefaultOptionsClassStr(), genGenerator()));
+        // The referenced field may belong to other schema and use its options
+        auto& schema = commsdsl::gen::GenGenerator::genSchemaOf(m_commsReferencedField->commsGenField());
+        opts.push_back(
+            schema.genMainNamespace() + "::" + strings::genOptionsNamespaceStr() + "::" + strings::genDefaultOptionsClassStr());
     }
     else {
         opts.push_back("TOpt");
-- 
2.43.0


From 19ea43301a968f7b637e18f19cb918c7bda138f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:25 +0000
Subject: [PATCH 113/114] fix: provide special values of the int fields in the
 emscripten bindings

---
 app/commsdsl2emscripten/src/EmscriptenIntField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
index 10daa4d..9bcacea 100644
--- a/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenIntField.cpp
@@ -54,7 +54,7 @@ std::string EmscriptenIntField::emscriptenHeaderExtraPublicFuncsImpl() const
         "{\n"
         "    return Base::hasSpecials();\n"
         "}\n\n"
-        "#^#SCPECIALS#$#\n"
+        "#^#SPECIALS#$#\n"
         "#^#DISPLAY_DECIMALS#$#\n"
         "#^#SCALED#$#\n";
 
@@ -70,7 +70,7 @@ std::string EmscriptenIntField::emscriptenHeaderExtraPublicFuncsImpl() const
 std::string EmscriptenIntField::emscriptenSourceBindFuncsImpl() const
 {
     static const std::string Templ =
-        "#^#SCPECIALS#$#\n"
+        "#^#SPECIALS#$#\n"
         "#^#DISPLAY_DECIMALS#$#\n"
         "#^#SCALED#$#\n";
 
-- 
2.43.0


From 099fc5159a4fb5291ea4d6bb03d8655ce1e4e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:25 +0000
Subject: [PATCH 114/114] fix: do not build string out of null pointer for the
 unnamed enum value in the emscripten bindings

---
 app/commsdsl2emscripten/src/EmscriptenEnumField.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp b/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
index 30b9a98..be5c1c2 100644
--- a/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenEnumField.cpp
@@ -118,11 +118,12 @@ std::string EmscriptenEnumField::emscriptenHeaderExtraPublicFuncsImpl() const
     static const std::string Templ =
         "static std::string valueNameOf(ValueType val)\n"
         "{\n"
-        "    return std::string(Base::valueNameOf(val));\n"
+        "    auto* name = Base::valueNameOf(val);\n"
+        "    return (name != nullptr) ? std::string(name) : std::string();\n"
         "}\n\n"
         "std::string valueName() const\n"
         "{\n"
-        "    return std::string(Base::valueName());\n"
+        "    return valueNameOf(Base::getValue());\n"
         "}\n\n"
         "static typename std::underlying_type<ValueType>::type asConstant(ValueType val)\n"
         "{\n"
-- 
2.43.0

