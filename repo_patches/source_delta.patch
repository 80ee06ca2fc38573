From 7f8705e8abe024ff6de96996e795f0fc3d41dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 001/114] fix: append to tile files at their end whatever was
 read before

---
 core/src/index/PersistentElementStore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index d3f659c..aabe2d4 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -116,17 +116,18 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
 
   void store(const Element &element, const QuadKey &quadKey) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    // NOTE position might be changed by previous read
+    quadKeyData->dataFile->seekg(0, std::ios::end);
+    quadKeyData->indexFile->seekg(0, std::ios::end);
     auto offset = static_cast<std::uint32_t>(quadKeyData->dataFile->tellg());
     auto fileSize = quadKeyData->indexFile->tellg();
     auto order = static_cast<std::uint32_t>(fileSize / (sizeof(element.id) + sizeof(offset)));
 
     // write element index
-    quadKeyData->indexFile->seekg(0, std::ios::end);
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&offset), sizeof(offset));
 
     // write element data
-    quadKeyData->dataFile->seekg(0, std::ios::end);
     ElementStream::write(*quadKeyData->dataFile, element);
 
     // write element search data
@@ -149,6 +150,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    quadKeyData->indexFile->seekg(0, std::ios::end);
     auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
         (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
 
-- 
2.43.0


From 42adddc5307b7504328a687afbd74067c4c1628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 002/114] fix: do not remember text of string ids which are not
 yet assigned

---
 core/src/index/StringTable.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index b73e003..fe6ad90 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -76,6 +76,10 @@ class StringTable::StringTableImpl {
     if (cache_.exists(id))
       return cache_.get(id);
 
+    // NOTE do not cache unknown id: it might be given to some string later
+    if (id >= offsets_.size())
+      return std::make_shared<std::string>();
+
     std::string str;
     readString(id, str);
     cache_.put(id, std::move(str));
-- 
2.43.0


From 14b23d568b5410cf9d27c877b29bb1071a096f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 003/114] fix: store collections with more than 65535 items
 without truncation

---
 core/src/index/ElementStream.cpp | 37 ++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/core/src/index/ElementStream.cpp b/core/src/index/ElementStream.cpp
index ba95909..94af185 100644
--- a/core/src/index/ElementStream.cpp
+++ b/core/src/index/ElementStream.cpp
@@ -17,6 +17,29 @@ const char WayType = 1;
 const char AreaType = 2;
 const char RelationType = 3;
 
+/// Marks that actual collection size does not fit into two bytes and follows as four bytes.
+const std::uint16_t ExtendedSize = 0xFFFF;
+
+void writeSize(std::ostream &stream, std::size_t value) {
+  auto size = static_cast<std::uint16_t>(value < ExtendedSize ? value : ExtendedSize);
+  stream.write(reinterpret_cast<const char *>(&size), sizeof(size));
+  if (size == ExtendedSize) {
+    auto extended = static_cast<std::uint32_t>(value);
+    stream.write(reinterpret_cast<const char *>(&extended), sizeof(extended));
+  }
+}
+
+std::uint32_t readSize(std::istream &stream) {
+  std::uint16_t size = 0;
+  stream.read(reinterpret_cast<char *>(&size), sizeof(size));
+  if (size != ExtendedSize)
+    return size;
+
+  std::uint32_t extended = 0;
+  stream.read(reinterpret_cast<char *>(&extended), sizeof(extended));
+  return extended;
+}
+
 std::ostream &operator<<(std::ostream &stream, const Tag &tag) {
   stream.write(reinterpret_cast<const char *>(&tag.key), sizeof(tag.key));
   stream.write(reinterpret_cast<const char *>(&tag.value), sizeof(tag.value));
@@ -43,8 +66,7 @@ std::istream &operator>>(std::istream &stream, utymap::GeoCoordinate &coordinate
 
 template<typename T>
 std::ostream &operator<<(std::ostream &stream, const std::vector<T> &data) {
-  std::uint16_t size = static_cast<std::uint16_t>(data.size());
-  stream.write(reinterpret_cast<const char *>(&size), sizeof(size));
+  writeSize(stream, data.size());
   for (const auto &item : data)
     stream << item;
   return stream;
@@ -52,8 +74,7 @@ std::ostream &operator<<(std::ostream &stream, const std::vector<T> &data) {
 
 template<typename T>
 std::istream &operator>>(std::istream &stream, std::vector<T> &data) {
-  std::uint16_t size = 0;
-  stream.read(reinterpret_cast<char *>(&size), sizeof(size));
+  std::uint32_t size = readSize(stream);
   data.resize(size);
   for (size_t i = 0; i < size; ++i)
     stream >> data[i];
@@ -78,8 +99,7 @@ struct ElementWriter : ElementVisitor {
 
   void visitRelation(const Relation &relation) override {
     stream_ << RelationType << relation.tags;
-    auto size = static_cast<std::uint16_t>(relation.elements.size());
-    stream_.write(reinterpret_cast<const char *>(&size), sizeof(size));
+    writeSize(stream_, relation.elements.size());
     for (const auto &element : relation.elements) {
       stream_.write(reinterpret_cast<const char *>(&element->id), sizeof(element->id));
       element->accept(*this);
@@ -131,10 +151,9 @@ class ElementReader final {
     auto relation = utymap::utils::make_unique<Relation>();
     stream_ >> relation->tags;
 
-    std::uint16_t elementSize = 0;
-    stream_.read(reinterpret_cast<char *>(&elementSize), sizeof(elementSize));
+    std::uint32_t elementSize = readSize(stream_);
 
-    for (std::uint16_t i = 0; i < elementSize; ++i) {
+    for (std::uint32_t i = 0; i < elementSize; ++i) {
       std::uint64_t id;
       stream_.read(reinterpret_cast<char *>(&id), sizeof(id));
       auto element = read();
-- 
2.43.0


From d5b7c32ed8694504977d7f9f236d7d2ef3ac243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 004/114] fix: do not create tile files on search for absent
 data

---
 core/src/index/PersistentElementStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index aabe2d4..140831b 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -149,6 +149,9 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void search(const QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
+    // NOTE access to the files below creates them
+    if (!hasData(quadKey)) return;
+
     const auto &quadKeyData = getQuadKeyData(quadKey);
     quadKeyData->indexFile->seekg(0, std::ios::end);
     auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
-- 
2.43.0


From aafea79d11d867aed4a78b18ad0bcbc64c4aaa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 005/114] fix: text search ignored absent OR terms when AND
 terms are present

---
 core/src/index/BitmapIndex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/index/BitmapIndex.cpp b/core/src/index/BitmapIndex.cpp
index c453d4b..b595543 100644
--- a/core/src/index/BitmapIndex.cpp
+++ b/core/src/index/BitmapIndex.cpp
@@ -54,6 +54,9 @@ void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visito
           bitset = b.logicalor(bitset);
         }, [](){ return true; });
 
+        // none of "or" terms is present, "and" terms should not start from scratch
+        if (!orTerms.empty() && bitset.sizeInBits() == 0) return;
+
         applyOperation(andTerms, bitmap, [&](const Bitset &b) {
           if (bitset.sizeInBits() == 0) {
             bitset = b;
-- 
2.43.0


From d033b4bfb3a6a286b1b5cebf5906da6c0d515b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 006/114] fix: skip references of ways to nodes which are not
 present

---
 core/src/formats/osm/OsmDataVisitor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index ff98906..4f0859b 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -31,8 +31,14 @@ void OsmDataVisitor::visitWay(std::uint64_t id, std::vector<std::uint64_t> &node
   std::vector<GeoCoordinate> coordinates;
   coordinates.reserve(nodeIds.size());
   for (auto nodeId : nodeIds) {
-    coordinates.push_back(context_.nodeMap[nodeId]->coordinate);
+    // NOTE data might be incomplete: skip nodes which are not present
+    auto nodePair = context_.nodeMap.find(nodeId);
+    if (nodePair!=context_.nodeMap.end())
+      coordinates.push_back(nodePair->second->coordinate);
   }
+
+  if (coordinates.empty()) return;
+
   auto size = coordinates.size();
   if (size > 3 && coordinates[0]==coordinates[size - 1]) {
     coordinates.pop_back();
-- 
2.43.0


From b74822e8439780d747c3ceea30065ae769cd837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 007/114] fix: resolve each relation once and break cycles of
 relation members

---
 core/src/formats/osm/BuildingProcessor.hpp |  8 ++++----
 core/src/formats/osm/OsmDataVisitor.cpp    | 17 +++++++++++------
 core/src/formats/osm/OsmDataVisitor.hpp    |  7 ++++++-
 core/src/formats/osm/RelationProcessor.hpp |  8 ++++----
 4 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/core/src/formats/osm/BuildingProcessor.hpp b/core/src/formats/osm/BuildingProcessor.hpp
index 8801232..d2ce34d 100644
--- a/core/src/formats/osm/BuildingProcessor.hpp
+++ b/core/src/formats/osm/BuildingProcessor.hpp
@@ -19,7 +19,7 @@ class BuildingProcessor {
   BuildingProcessor(utymap::entities::Relation &relation,
                     const utymap::formats::RelationMembers &members,
                     utymap::formats::OsmDataContext &context,
-                    std::function<void(utymap::entities::Relation &)> resolve)
+                    std::function<bool(utymap::entities::Relation &)> resolve)
       : relation_(relation), members_(members), context_(context), resolve_(resolve) {
   }
 
@@ -40,8 +40,8 @@ class BuildingProcessor {
   }
 
   void visit(OsmDataContext::RelationMapType::const_iterator rel, const std::string &role) {
-    resolve_(*rel->second);
-    addToRelation(rel->second, role);
+    if (resolve_(*rel->second))
+      addToRelation(rel->second, role);
   }
 
  private:
@@ -58,7 +58,7 @@ class BuildingProcessor {
   utymap::entities::Relation &relation_;
   const utymap::formats::RelationMembers &members_;
   utymap::formats::OsmDataContext &context_;
-  std::function<void(utymap::entities::Relation &)> resolve_;
+  std::function<bool(utymap::entities::Relation &)> resolve_;
 };
 
 }
diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index 4f0859b..25dd6fc 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -83,14 +83,16 @@ bool OsmDataVisitor::hasTag(const std::string &key,
   return utymap::utils::hasTag(stringTable_.getId(key), stringTable_.getId(value), tags);
 }
 
-void OsmDataVisitor::resolve(Relation &relation) {
-  if (cancelToken_.isCancelled()) return;
+bool OsmDataVisitor::resolve(Relation &relation) {
+  if (cancelToken_.isCancelled()) return false;
 
-  auto membersPair = relationMembers_.find(relation.id);
-  // already resolved
-  if (relation.elements.size()==membersPair->second.size())
-    return;
+  // already resolved or is being resolved (cyclic reference)
+  auto statePair = resolvedRelations_.find(relation.id);
+  if (statePair!=resolvedRelations_.end())
+    return statePair->second;
 
+  resolvedRelations_[relation.id] = false;
+  auto membersPair = relationMembers_.find(relation.id);
   auto resolveFunc = std::bind(&OsmDataVisitor::resolve, this, std::placeholders::_1);
 
   if (hasTag("type", "multipolygon", relation.tags))
@@ -100,6 +102,9 @@ void OsmDataVisitor::resolve(Relation &relation) {
   else {
     RelationProcessor(relation, membersPair->second, context_, relationMembers_, resolveFunc).process();
   }
+
+  resolvedRelations_[relation.id] = true;
+  return true;
 }
 
 utymap::BoundingBox OsmDataVisitor::complete() {
diff --git a/core/src/formats/osm/OsmDataVisitor.hpp b/core/src/formats/osm/OsmDataVisitor.hpp
index 93eea1a..84b017d 100644
--- a/core/src/formats/osm/OsmDataVisitor.hpp
+++ b/core/src/formats/osm/OsmDataVisitor.hpp
@@ -39,7 +39,10 @@ class OsmDataVisitor final {
  private:
 
   bool hasTag(const std::string &key, const std::string &value, const std::vector<utymap::entities::Tag> &tags) const;
-  void resolve(utymap::entities::Relation &relation);
+
+  /// Resolves members of relation. Returns false if it cannot be used as a member itself as
+  /// it refers, directly or not, to the relation which is being resolved.
+  bool resolve(utymap::entities::Relation &relation);
 
   const utymap::index::StringTable &stringTable_;
   std::function<bool(utymap::entities::Element &)> add_;
@@ -47,6 +50,8 @@ class OsmDataVisitor final {
   utymap::formats::OsmDataContext context_;
   utymap::BoundingBox bbox_;
   std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> relationMembers_;
+  /// Holds state of visited relations: false means that relation is being resolved.
+  std::unordered_map<std::uint64_t, bool> resolvedRelations_;
 };
 
 }
diff --git a/core/src/formats/osm/RelationProcessor.hpp b/core/src/formats/osm/RelationProcessor.hpp
index 3c2a0b2..24c04ce 100644
--- a/core/src/formats/osm/RelationProcessor.hpp
+++ b/core/src/formats/osm/RelationProcessor.hpp
@@ -19,7 +19,7 @@ class RelationProcessor final {
                     const utymap::formats::RelationMembers &members,
                     utymap::formats::OsmDataContext &context,
                     std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> &relationMembersMap,
-                    std::function<void(utymap::entities::Relation &)> resolve)
+                    std::function<bool(utymap::entities::Relation &)> resolve)
       : relation_(relation), members_(members), context_(context),
         relationMembersMap_(relationMembersMap), resolve_(resolve) {
   }
@@ -47,8 +47,8 @@ class RelationProcessor final {
     if (isAlreadyProcessed(rel->first) || hasReferenceToParent(*rel->second))
       return;
 
-    resolve_(*rel->second);
-    relation_.elements.push_back(rel->second);
+    if (resolve_(*rel->second))
+      relation_.elements.push_back(rel->second);
   }
 
  private:
@@ -83,7 +83,7 @@ class RelationProcessor final {
 
   std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> &relationMembersMap_;
 
-  std::function<void(utymap::entities::Relation &)> resolve_;
+  std::function<bool(utymap::entities::Relation &)> resolve_;
 };
 
 }
-- 
2.43.0


From 20af95de25f9e6dbb6d5caa8ffecdbd7022590ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 008/114] fix: do not mix up relation members of different type
 with the same id

---
 core/src/formats/osm/RelationProcessor.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/core/src/formats/osm/RelationProcessor.hpp b/core/src/formats/osm/RelationProcessor.hpp
index 24c04ce..dc931f5 100644
--- a/core/src/formats/osm/RelationProcessor.hpp
+++ b/core/src/formats/osm/RelationProcessor.hpp
@@ -29,22 +29,22 @@ class RelationProcessor final {
   }
 
   void visit(OsmDataContext::NodeMapType::const_iterator node, const std::string &role) {
-    if (!isAlreadyProcessed(node->first))
+    if (!isAlreadyProcessed(node->second))
       relation_.elements.push_back(node->second);
   }
 
   void visit(OsmDataContext::WayMapType::const_iterator way, const std::string &role) {
-    if (!isAlreadyProcessed(way->first))
+    if (!isAlreadyProcessed(way->second))
       relation_.elements.push_back(way->second);
   }
 
   void visit(OsmDataContext::AreaMapType::const_iterator area, const std::string &role) {
-    if (!isAlreadyProcessed(area->first))
+    if (!isAlreadyProcessed(area->second))
       relation_.elements.push_back(area->second);
   }
 
   void visit(OsmDataContext::RelationMapType::const_iterator rel, const std::string &role) {
-    if (isAlreadyProcessed(rel->first) || hasReferenceToParent(*rel->second))
+    if (isAlreadyProcessed(rel->second) || hasReferenceToParent(*rel->second))
       return;
 
     if (resolve_(*rel->second))
@@ -53,13 +53,9 @@ class RelationProcessor final {
 
  private:
 
-  bool isAlreadyProcessed(std::uint64_t id) {
-    auto it = std::find_if(relation_.elements.begin(), relation_.elements.end(),
-                           [&id](const std::shared_ptr<utymap::entities::Element> &e) {
-                             return e->id==id;
-                           });
-
-    return it!=relation_.elements.end();
+  /// NOTE elements of different type can have the same id.
+  bool isAlreadyProcessed(const std::shared_ptr<utymap::entities::Element> &element) {
+    return std::find(relation_.elements.begin(), relation_.elements.end(), element)!=relation_.elements.end();
   }
 
   /// Checks whether relation has reference to current. If yes, it should not be
@@ -71,7 +67,7 @@ class RelationProcessor final {
     auto members = relationMembersMap_.find(rel.id)->second;
     auto it = std::find_if(members.begin(), members.end(),
                            [&parentId](const utymap::formats::RelationMember &m) {
-                             return m.refId==parentId;
+                             return m.refId==parentId && m.type!="n" && m.type!="w";
                            });
 
     return it!=members.end();
-- 
2.43.0


From c014dfefb88490121f0c9168e3b44ad9ffed07b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 009/114] fix: do not take relation for missing way of
 multipolygon with the same id

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index a0e46bc..98bfd22 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -117,11 +117,7 @@ void MultipolygonProcessor::process() {
         if (member.role=="outer" && hasNoTags)
           mergeTags(areaPair->second->tags);
       } else {
-        auto relationPair = context_.relationMap.find(member.refId);
-        if (relationPair==context_.relationMap.end())
-          return; //  NOTE cannot fill relation: incomplete data
-
-        resolve_(*relationPair->second);
+        return; //  NOTE cannot fill relation: incomplete data
       }
     }
 
-- 
2.43.0


From 388124cbc24cab7b2e71118750eac3a9df73ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 010/114] fix: decode entities and character references of osm
 xml

---
 core/src/formats/osm/xml/OsmXmlParser.cpp | 64 +++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/core/src/formats/osm/xml/OsmXmlParser.cpp b/core/src/formats/osm/xml/OsmXmlParser.cpp
index ff50440..e14b8de 100644
--- a/core/src/formats/osm/xml/OsmXmlParser.cpp
+++ b/core/src/formats/osm/xml/OsmXmlParser.cpp
@@ -9,6 +9,8 @@
 #include <boost/fusion/include/adapt_struct.hpp>
 #include <boost/fusion/include/boost_tuple.hpp>
 
+#include <cstdlib>
+
 #include "formats/FormatTypes.hpp"
 #include "formats/osm/xml/OsmXmlParser.hpp"
 
@@ -247,12 +249,14 @@ private:
   void onNode(NodeType& node) {
     utymap::GeoCoordinate coordinate(boost::get<1>(node), boost::get<2>(node));
     Tags& tags = boost::get<3>(node);
+    unescape(tags);
     visitor.visitNode(boost::get<0>(node), coordinate, tags);
   }
 
   void onWay(WayType& way) {
     auto& ids = boost::get<1>(way);
     Tags& tags = boost::get<2>(way);
+    unescape(tags);
     visitor.visitWay(boost::get<0>(way), ids, tags);
   }
 
@@ -260,11 +264,71 @@ private:
     auto& members = boost::get<1>(relation);
     for (auto& member : members) {
         member.type = mapType(member.type);
+        member.role = unescape(member.role);
     }
     Tags& tags = boost::get<2>(relation);
+    unescape(tags);
     visitor.visitRelation(boost::get<0>(relation), members, tags);
   }
 
+  static void unescape(Tags& tags) {
+    for (auto& tag : tags) {
+      tag.key = unescape(tag.key);
+      tag.value = unescape(tag.value);
+    }
+  }
+
+  /// Replaces predefined entities and character references with text they denote.
+  static std::string unescape(const std::string& text) {
+    std::string result;
+    result.reserve(text.size());
+    for (std::size_t i = 0; i < text.size(); ++i) {
+      // NOTE names of entities are short, do not search through whole text.
+      std::size_t length = text[i] == '&' ? text.substr(i + 1, 10).find(';') : std::string::npos;
+      if (length == std::string::npos || !appendEntity(text.substr(i + 1, length), result))
+        result += text[i];
+      else
+        i += length + 1;
+    }
+    return result;
+  }
+
+  static bool appendEntity(const std::string& name, std::string& result) {
+    if (name == "amp") result += '&';
+    else if (name == "lt") result += '<';
+    else if (name == "gt") result += '>';
+    else if (name == "quot") result += '"';
+    else if (name == "apos") result += '\'';
+    else if (name.size() > 1 && name[0] == '#') {
+      bool isHex = name[1] == 'x';
+      char* end = nullptr;
+      unsigned long code = std::strtoul(name.c_str() + (isHex ? 2 : 1), &end, isHex ? 16 : 10);
+      if (*end != '\0' || code == 0 || code > 0x10FFFF) return false;
+      appendUtf8(code, result);
+    }
+    else return false;
+
+    return true;
+  }
+
+  static void appendUtf8(unsigned long code, std::string& result) {
+    if (code < 0x80) {
+      result += static_cast<char>(code);
+    } else if (code < 0x800) {
+      result += static_cast<char>(0xC0 | (code >> 6));
+      result += static_cast<char>(0x80 | (code & 0x3F));
+    } else if (code < 0x10000) {
+      result += static_cast<char>(0xE0 | (code >> 12));
+      result += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+      result += static_cast<char>(0x80 | (code & 0x3F));
+    } else {
+      result += static_cast<char>(0xF0 | (code >> 18));
+      result += static_cast<char>(0x80 | ((code >> 12) & 0x3F));
+      result += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+      result += static_cast<char>(0x80 | (code & 0x3F));
+    }
+  }
+
   static std::string mapType(const std::string& type) {
     if (type == "node")
         return "n";
-- 
2.43.0


From 0879e35dae5f73296682716fd6e280f9ec55e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 011/114] fix: accept osm xml with empty attributes, ways and
 relations

---
 core/src/formats/osm/xml/OsmXmlParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/formats/osm/xml/OsmXmlParser.cpp b/core/src/formats/osm/xml/OsmXmlParser.cpp
index e14b8de..6530c57 100644
--- a/core/src/formats/osm/xml/OsmXmlParser.cpp
+++ b/core/src/formats/osm/xml/OsmXmlParser.cpp
@@ -53,7 +53,7 @@ struct AttributeSkipper : qi::grammar <Iterator> {
 
       attributeSkipper =
         ascii::space |
-        ((+qi::alnum - knownKey) >> "=\"" >> +(qi::char_ - '"') >> '"');
+        ((+qi::alnum - knownKey) >> "=\"" >> *(qi::char_ - '"') >> '"');
       ;
 
       BOOST_SPIRIT_DEBUG_NODE(knownKey);
@@ -172,7 +172,7 @@ struct WayGrammar : qi::grammar < Iterator, WayType(), AttributeSkipper<Iterator
     nodeRef = qi::skip(qi::space)["<nd" > ref > "/>"];
 
     way =
-        "<way" > id > '>' > +nodeRef > *tag > "</way>";
+        "<way" > id > '>' > *nodeRef > *tag > "</way>";
 
     BOOST_SPIRIT_DEBUG_NODE(nodeRef);
     BOOST_SPIRIT_DEBUG_NODE(way);
@@ -191,7 +191,7 @@ struct RelationGrammar : qi::grammar < Iterator, RelationType(), AttributeSkippe
     memberRef = qi::skip(qi::space)["<member" > ("type=" > value) > ref > ("role=" > value) > "/>"];
 
     relation =
-        "<relation" > id > '>' > +memberRef > *tag > "</relation>";
+        "<relation" > id > '>' > *memberRef > *tag > "</relation>";
 
     BOOST_SPIRIT_DEBUG_NODE(memberRef);
     BOOST_SPIRIT_DEBUG_NODE(relation);
-- 
2.43.0


From c69cadf87da17153a77cda0a6ba141aa4b336e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 012/114] fix: read payload of uncompressed pbf blobs instead
 of their envelope

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index eb6c0c3..9b88e08 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -94,7 +94,7 @@ class OsmPbfParser final {
     // uncompressed
     if (blob.has_raw()) {
       sz = static_cast<std::int32_t>(blob.raw().size());
-      memcpy(unpack_buffer_.data(), buffer_.data(), sz);
+      memcpy(unpack_buffer_.data(), blob.raw().data(), sz);
       return sz;
     }
 
-- 
2.43.0


From 93f11f5adba357ae29628bc6c96b79d601bc49fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 013/114] fix: apply offset of pbf block once to each dense
 node

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index 9b88e08..d3be6a3 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -153,15 +153,15 @@ class OsmPbfParser final {
       if (pg.has_dense()) {
         OSMPBF::DenseNodes dn = pg.dense();
         uint64_t id = 0;
-        double lon = 0;
-        double lat = 0;
+        std::int64_t lon = 0;
+        std::int64_t lat = 0;
 
         int current_kv = 0;
 
         for (int i = 0; i < dn.id_size(); ++i) {
           id += dn.id(i);
-          lat += 0.000000001*(primblock.lat_offset() + (primblock.granularity()*dn.lat(i)));
-          lon += 0.000000001*(primblock.lon_offset() + (primblock.granularity()*dn.lon(i)));
+          lat += dn.lat(i);
+          lon += dn.lon(i);
 
           Tags tags;
           tags.reserve(2);
@@ -175,7 +175,8 @@ class OsmPbfParser final {
             tags.push_back(tag);
           }
           ++current_kv;
-          GeoCoordinate coordinate(lat, lon);
+          GeoCoordinate coordinate(0.000000001*(primblock.lat_offset() + (primblock.granularity()*lat)),
+                                   0.000000001*(primblock.lon_offset() + (primblock.granularity()*lon)));
           visitor.visitNode(id, coordinate, tags);
         }
       }
-- 
2.43.0


From c9cc6dfedbb96499d9c044cecb6d39c2790efa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 014/114] fix: keep islands inside holes of multipolygon as
 outer rings

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index 98bfd22..792d664 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -229,8 +229,11 @@ void MultipolygonProcessor::fillRelation(CoordinateSequences &rings) const {
     CoordinateSequences inners;
     for (auto ring = rings.begin(); ring!=rings.end();) {
       if (outer->containsRing((*ring)->coordinates)) {
-        bool containedInOthers = false;
-        for (auto other = rings.begin(); other!=rings.end(); ++other) {
+        // NOTE inner rings which are already found are not in list anymore
+        bool containedInOthers = std::any_of(inners.begin(), inners.end(), [&](const CoordinateSequences::value_type &inner) {
+          return inner->containsRing((*ring)->coordinates);
+        });
+        for (auto other = rings.begin(); !containedInOthers && other!=rings.end(); ++other) {
           if (other!=ring && (*other)->containsRing((*ring)->coordinates)) {
             containedInOthers = true;
             break;
-- 
2.43.0


From 4282ce48475cf8e8e70afb191655f55a5c174132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 015/114] fix: do not read behind expansions in exact
 arithmetic of triangle library

---
 core/lib/triangle/triangle.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/lib/triangle/triangle.c b/core/lib/triangle/triangle.c
index 66af41a..b915928 100644
--- a/core/lib/triangle/triangle.c
+++ b/core/lib/triangle/triangle.c
@@ -5000,19 +5000,19 @@ REAL *h;
   eindex = findex = 0;
   if ((fnow > enow) == (fnow > -enow)) {
     Q = enow;
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
   } else {
     Q = fnow;
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
   }
   hindex = 0;
   if ((eindex < elen) && (findex < flen)) {
     if ((fnow > enow) == (fnow > -enow)) {
       Fast_Two_Sum(enow, Q, Qnew, hh);
-      enow = e[++eindex];
+      enow = ++eindex < elen ? e[eindex] : 0.0;
     } else {
       Fast_Two_Sum(fnow, Q, Qnew, hh);
-      fnow = f[++findex];
+      fnow = ++findex < flen ? f[findex] : 0.0;
     }
     Q = Qnew;
     if (hh != 0.0) {
@@ -5021,10 +5021,10 @@ REAL *h;
     while ((eindex < elen) && (findex < flen)) {
       if ((fnow > enow) == (fnow > -enow)) {
         Two_Sum(Q, enow, Qnew, hh);
-        enow = e[++eindex];
+        enow = ++eindex < elen ? e[eindex] : 0.0;
       } else {
         Two_Sum(Q, fnow, Qnew, hh);
-        fnow = f[++findex];
+        fnow = ++findex < flen ? f[findex] : 0.0;
       }
       Q = Qnew;
       if (hh != 0.0) {
@@ -5034,7 +5034,7 @@ REAL *h;
   }
   while (eindex < elen) {
     Two_Sum(Q, enow, Qnew, hh);
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
@@ -5042,7 +5042,7 @@ REAL *h;
   }
   while (findex < flen) {
     Two_Sum(Q, fnow, Qnew, hh);
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
-- 
2.43.0


From b771020985abddc1d769ebfb5c935b82b4ad250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 016/114] fix: do not triangulate polygons with less than three
 different points

---
 core/src/builders/MeshBuilder.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index 7a115ca..349d135 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -20,6 +20,21 @@ namespace {
 // NOTE triangle library is not thread safe.
 std::mutex lock_;
 
+/// Checks whether polygon has at least three different points: triangle library cannot process anything else.
+bool canBeTriangulated(const Polygon &polygon) {
+  const auto &points = polygon.points;
+  std::size_t other = 0;
+  for (std::size_t i = 2; i < points.size(); i += 2) {
+    if (points[i]==points[0] && points[i + 1]==points[1])
+      continue;
+    if (other==0)
+      other = i;
+    else if (points[i]!=points[other] || points[i + 1]!=points[other + 1])
+      return true;
+  }
+  return false;
+}
+
 /// Creates texture mapping function.
 std::function<Vector2(double, double)> createMapFunc(const MeshBuilder::AppearanceOptions &appearanceOptions,
                                                      const BoundingBox &bbox) {
@@ -117,6 +132,9 @@ void MeshBuilder::addPolygon(Mesh &mesh,
                              Polygon &polygon,
                              const GeometryOptions &geometryOptions,
                              const AppearanceOptions &appearanceOptions) const {
+  if (!canBeTriangulated(polygon))
+    return;
+
   triangulateio in, mid;
 
   in.numberofpoints = static_cast<int>(polygon.points.size()/2);
-- 
2.43.0


From d49039b89cef2ba50c8d2a3b914f400b81bf8765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 017/114] fix: stop triangulation once it detects fatal error
 instead of continuing with broken state

---
 core/lib/triangle/triangle.c      | 30 ++++++++++++++++++++++++++----
 core/src/builders/MeshBuilder.cpp |  7 +++++--
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/core/lib/triangle/triangle.c b/core/lib/triangle/triangle.c
index b915928..8ffaf25 100644
--- a/core/lib/triangle/triangle.c
+++ b/core/lib/triangle/triangle.c
@@ -352,6 +352,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
+#include <setjmp.h>
 #ifndef NO_TIMER
 #include <sys/time.h>
 #endif /* not NO_TIMER */
@@ -1415,6 +1416,9 @@ REAL area;                                      /* The area of the triangle. */
 /**                                                                         **/
 /**                                                                         **/
 
+/* Place where triangulate() is left once a fatal error is detected. */
+static jmp_buf triexittarget;
+
 #ifdef ANSI_DECLARATORS
 void triexit(int status)
 #else /* not ANSI_DECLARATORS */
@@ -1424,9 +1428,10 @@ int status;
 
 {
   // NOTE Calling exit leads process to be killed by OS
-  // The fix is really ugly, but alternative is introducing error code
-  // support from any function which requires quite a lot of changes.
+  // and it is not possible to continue as internal state is broken, so
+  // return from triangulate() without any result.
   //exit(status);
+  longjmp(triexittarget, 1);
 }
 
 #ifdef ANSI_DECLARATORS
@@ -11623,6 +11628,7 @@ vertex searchpoint;
 
 {
   struct otri checktri;
+  struct otri firsttri;       /* Used to detect that all triangles are visited. */
   vertex startvertex;
   vertex leftvertex, rightvertex;
   REAL leftccw, rightccw;
@@ -11648,10 +11654,11 @@ vertex searchpoint;
       rightflag = 0;
     }
   }
+  otricopy(*searchtri, firsttri);
   while (leftflag) {
     /* Turn left until satisfied. */
     onextself(*searchtri);
-    if (searchtri->tri == m->dummytri) {
+    if ((searchtri->tri == m->dummytri) || otriequal(*searchtri, firsttri)) {
       printf("Internal error in finddirection():  Unable to find a\n");
       printf("  triangle leading from (%.12g, %.12g) to", startvertex[0],
              startvertex[1]);
@@ -11663,10 +11670,11 @@ vertex searchpoint;
     leftccw = counterclockwise(m, b, searchpoint, startvertex, leftvertex);
     leftflag = leftccw > 0.0;
   }
+  otricopy(*searchtri, firsttri);
   while (rightflag) {
     /* Turn right until satisfied. */
     oprevself(*searchtri);
-    if (searchtri->tri == m->dummytri) {
+    if ((searchtri->tri == m->dummytri) || otriequal(*searchtri, firsttri)) {
       printf("Internal error in finddirection():  Unable to find a\n");
       printf("  triangle leading from (%.12g, %.12g) to", startvertex[0],
              startvertex[1]);
@@ -15728,6 +15736,20 @@ char **argv;
 #endif /* not NO_TIMER */
 
   triangleinit(&m);
+#ifdef TRILIBRARY
+  m.dummytribase = (triangle *) NULL;
+  m.dummysubbase = (subseg *) NULL;
+  b.usesegments = b.quality = 0;
+  if (setjmp(triexittarget)) {
+    /* Fatal error: there is nothing to return. */
+    triangledeinit(&m, &b);
+    pooldeinit(&m.viri);
+    out->numberofpoints = 0;
+    out->numberoftriangles = 0;
+    out->numberofsegments = 0;
+    return;
+  }
+#endif /* TRILIBRARY */
 #ifdef TRILIBRARY
   parsecommandline(1, &triswitches, &b);
 #else /* not TRILIBRARY */
diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index 349d135..392a7d4 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -160,8 +160,11 @@ void MeshBuilder::addPolygon(Mesh &mesh,
     ::triangulate(const_cast<char *>("pzBQ"), &in, &mid, nullptr);
   }
 
-  // do not refine mesh if area is not set.
-  if (std::abs(geometryOptions.area) < std::numeric_limits<double>::epsilon()) {
+  if (mid.numberoftriangles==0) {
+    // there is nothing to build, e.g. points are on the same line or triangulation is failed.
+    mid.trianglearealist = nullptr;
+    // do not refine mesh if area is not set.
+  } else if (std::abs(geometryOptions.area) < std::numeric_limits<double>::epsilon()) {
     fillMesh(&mid, quadKey_, bbox_, mesh, eleProvider_, geometryOptions, appearanceOptions);
     mid.trianglearealist = nullptr;
   } else {
-- 
2.43.0


From 588d3e95c549131259e6f31a7653c7ded015f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:40 +0000
Subject: [PATCH 018/114] fix: write texture mapping of height offset planes

---
 core/src/builders/terrain/TerraGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/builders/terrain/TerraGenerator.cpp b/core/src/builders/terrain/TerraGenerator.cpp
index e9dbe44..0e97ff6 100644
--- a/core/src/builders/terrain/TerraGenerator.cpp
+++ b/core/src/builders/terrain/TerraGenerator.cpp
@@ -81,6 +81,9 @@ void TerraGenerator::buildHeightOffset(const std::vector<Vector2> &points, const
 
     context_.meshBuilder.addPlane(mesh_, p1, p2, newGeometryOptions, regionContext.appearanceOptions);
   }
+
+  // NOTE polygon itself might be added to different mesh.
+  context_.meshBuilder.writeTextureMappingInfo(mesh_, regionContext.appearanceOptions);
 }
 
 std::vector<Vector2> TerraGenerator::restoreGeometry(const IntPath &geometry) const {
-- 
2.43.0


From 659ed6a804a1e7526cb4b629af544abe36f178b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 019/114] fix: report unknown types of roofs and facades

---
 core/src/builders/buildings/BuildingBuilder.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/buildings/BuildingBuilder.cpp b/core/src/builders/buildings/BuildingBuilder.cpp
index f780cd0..db3a03b 100644
--- a/core/src/builders/buildings/BuildingBuilder.cpp
+++ b/core/src/builders/buildings/BuildingBuilder.cpp
@@ -121,6 +121,16 @@ std::unordered_map<std::string, FacadeBuilderFactory> FacadeBuilderFactoryMap =
         }
     };
 
+/// Gets factory of builder by its type.
+template<typename Factory>
+const Factory &getFactory(const std::unordered_map<std::string, Factory> &factories,
+                          const std::string &key, const std::string &type) {
+  auto factory = factories.find(type);
+  if (factory == factories.end())
+    throw std::domain_error("Unknown " + key + ": " + type);
+  return factory->second;
+}
+
 /// Creates points for polygon
 std::vector<Vector2> toPoints(const std::vector<GeoCoordinate> &coordinates) {
   std::vector<Vector2> points;
@@ -295,7 +305,7 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
     double roofHeight = roofMeshContext.style.getValue(RoofHeightKey);
     auto direction = roofMeshContext.style.getString(RoofDirectionKey);
 
-    auto roofBuilder = RoofBuilderFactoryMap.find(roofType)->second(context_, roofMeshContext);
+    auto roofBuilder = getFactory(RoofBuilderFactoryMap, RoofTypeKey, roofType)(context_, roofMeshContext);
     roofBuilder->setHeight(roofHeight);
     roofBuilder->setMinHeight(elevation + height);
     roofBuilder->setColorNoiseFreq(0);
@@ -335,7 +345,7 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
                                                         id_);
 
     auto facadeType = facadeMeshContext.style.getString(FacadeTypeKey);
-    auto facadeBuilder = FacadeBuilderFactoryMap.find(facadeType)->second(context_, facadeMeshContext);
+    auto facadeBuilder = getFactory(FacadeBuilderFactoryMap, FacadeTypeKey, facadeType)(context_, facadeMeshContext);
 
     facadeBuilder->setHeight(height);
     facadeBuilder->setMinHeight(elevation);
-- 
2.43.0


From 497f74223403c37b37b6e132085fb8c1558b8c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:19 +0000
Subject: [PATCH 020/114] fix: do not build multipolygon building without outer
 rings

---
 core/src/builders/buildings/BuildingBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/builders/buildings/BuildingBuilder.cpp b/core/src/builders/buildings/BuildingBuilder.cpp
index db3a03b..24f2b8d 100644
--- a/core/src/builders/buildings/BuildingBuilder.cpp
+++ b/core/src/builders/buildings/BuildingBuilder.cpp
@@ -267,6 +267,12 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
   }
 
   void build(const Element &element, const Style &style) {
+    // NOTE there is nothing to build, e.g. all rings of multipolygon are missing
+    if (polygon_->outers.empty()) {
+      polygon_.reset();
+      return;
+    }
+
     auto geoCoordinate = GeoCoordinate(polygon_->points[1], polygon_->points[0]);
 
     double height = style.getValue(StyleConsts::HeightKey());
-- 
2.43.0


From 4b3a25228739c028cb48bcd41a96f21590f83044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 021/114] fix: sort tags of elements which are added by their
 geometry

---
 core/shared/Storage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 750c241..6c43f9d 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -1,6 +1,8 @@
 #ifndef STORAGE_HPP_DEFINED
 #define STORAGE_HPP_DEFINED
 
+#include <algorithm>
+
 /// Wraps Storage API.
 class Storage {
 public:
@@ -77,6 +79,8 @@ public:
       auto valueId = getStringId(tags[i + 1]);
       elementTags.push_back(utymap::entities::Tag(keyId, valueId));
     }
+    // NOTE: tags should be sorted to speed up mapcss styling
+    std::sort(elementTags.begin(), elementTags.end());
 
     // Node
     if (vertexLength / 2 == 1) {
-- 
2.43.0


From 331c41e11827fb2a889a21bece6f3d48ae5a3ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 022/114] fix: report unknown store instead of access to null
 store

---
 core/src/index/GeoStore.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/src/index/GeoStore.cpp b/core/src/index/GeoStore.cpp
index 382be60..a22050a 100644
--- a/core/src/index/GeoStore.cpp
+++ b/core/src/index/GeoStore.cpp
@@ -31,7 +31,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     elementStore->store(element, range, styleProvider);
   }
 
@@ -40,7 +40,7 @@ class GeoStore::GeoStoreImpl final {
            const QuadKey &quadKey,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, quadKey, styleProvider);
     });
@@ -54,7 +54,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     auto bbox = add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, range, styleProvider);
     });
@@ -69,7 +69,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, bbox, range, styleProvider);
     });
@@ -147,6 +147,14 @@ class GeoStore::GeoStoreImpl final {
   }
 
  private:
+  /// Gets store by its key.
+  std::unique_ptr<ElementStore> &getStore(const std::string &storeKey) {
+    auto store = storeMap_.find(storeKey);
+    if (store == storeMap_.end())
+      throw std::invalid_argument("Unknown store: " + storeKey);
+    return store->second;
+  }
+
   const StringTable &stringTable_;
   std::map<std::string, std::unique_ptr<ElementStore>> storeMap_;
 
-- 
2.43.0


From a03cbd3130c9dcf93ecf02e1963d89fa4eb98e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 023/114] fix: do not let exceptions cross the C API

---
 core/shared/ExportLib.cpp | 32 +++++++++++--
 core/shared/Search.hpp    |  8 ++--
 core/shared/Storage.hpp   | 96 ++++++++++++++++++++-------------------
 3 files changed, 80 insertions(+), 56 deletions(-)

diff --git a/core/shared/ExportLib.cpp b/core/shared/ExportLib.cpp
index ded0428..04d3c19 100644
--- a/core/shared/ExportLib.cpp
+++ b/core/shared/ExportLib.cpp
@@ -8,8 +8,16 @@
 
 #include "Application.hpp"
 
+#include <iostream>
+#include <limits>
+
 static Application *applicationPtr = nullptr;
 
+/// Logs error of the call which has no error callback.
+static void logError(const char *errorMessage) {
+  std::cerr << errorMessage << std::endl;
+}
+
 // Specifies export functions.
 // NOTE: see documentation comments in actual method implementation.
 extern "C"
@@ -30,15 +38,21 @@ void EXPORT_API connect(const char *indexPath, OnError *errorCallback) {
 
 /************* Configuration API *****************/
 void EXPORT_API registerStylesheet(const char *path, OnNewDirectory *directoryCallback) {
-  applicationPtr->getConfiguration().registerStylesheet(path, directoryCallback);
+  ::safeExecute([&]() {
+    applicationPtr->getConfiguration().registerStylesheet(path, directoryCallback);
+  }, logError);
 }
 
 void EXPORT_API registerInMemoryStore(const char *key) {
-  applicationPtr->getConfiguration().registerInMemoryStore(key);
+  ::safeExecute([&]() {
+    applicationPtr->getConfiguration().registerInMemoryStore(key);
+  }, logError);
 }
 
 void EXPORT_API registerPersistentStore(const char *key, const char *dataPath, OnNewDirectory *directoryCallback) {
-  applicationPtr->getConfiguration().registerPersistentStore(key, dataPath, directoryCallback);
+  ::safeExecute([&]() {
+    applicationPtr->getConfiguration().registerPersistentStore(key, dataPath, directoryCallback);
+  }, logError);
 }
 
 void EXPORT_API enableMeshCache(int enabled) {
@@ -70,7 +84,11 @@ void EXPORT_API addDataInElement(const char *key, const char *styleFile, std::ui
 }
 
 bool EXPORT_API hasData(int tileX, int tileY, int levelOfDetail) {
-  return applicationPtr->getStorage().hasData(tileX, tileY, levelOfDetail);
+  bool result = false;
+  ::safeExecute([&]() {
+    result = applicationPtr->getStorage().hasData(tileX, tileY, levelOfDetail);
+  }, logError);
+  return result;
 }
 
 /************* Search API *****************/
@@ -89,7 +107,11 @@ void EXPORT_API getDataByQuadKey(int tag, const char *styleFile, int tileX, int
 }
 
 double EXPORT_API getElevationByQuadKey(int tileX, int tileY, int levelOfDetail, int eleDataType, double latitude, double longitude) {
-  return applicationPtr->getSearch().getElevationByQuadKey(tileX, tileY, levelOfDetail, eleDataType, latitude, longitude);
+  double elevation = std::numeric_limits<double>::quiet_NaN();
+  ::safeExecute([&]() {
+    elevation = applicationPtr->getSearch().getElevationByQuadKey(tileX, tileY, levelOfDetail, eleDataType, latitude, longitude);
+  }, logError);
+  return elevation;
 }
 
 }
diff --git a/core/shared/Search.hpp b/core/shared/Search.hpp
index 6584be8..fe1823b 100644
--- a/core/shared/Search.hpp
+++ b/core/shared/Search.hpp
@@ -28,11 +28,11 @@ public:
                      OnElementLoaded *elementCallback,         // element callback
                      OnError *errorCallback,                   // error callback
                      utymap::CancellationToken *cancellationToken) {
-    utymap::BoundingBox bbox(utymap::GeoCoordinate(minLatitude, minLongitude),
-                             utymap::GeoCoordinate(maxLatitude, maxLongitude));
-    utymap::LodRange lodRange(startLod, endLod);
-    ExportElementVisitor elementVisitor(tag, context_.stringTable, elementCallback);
     ::safeExecute([&]() {
+      utymap::BoundingBox bbox(utymap::GeoCoordinate(minLatitude, minLongitude),
+                               utymap::GeoCoordinate(maxLatitude, maxLongitude));
+      utymap::LodRange lodRange(startLod, endLod);
+      ExportElementVisitor elementVisitor(tag, context_.stringTable, elementCallback);
       context_.geoStore.search(notTerms, andTerms, orTerms, bbox, lodRange, elementVisitor, *cancellationToken);
     }, errorCallback);
   }
diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 6c43f9d..e12f28c 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -36,10 +36,10 @@ public:
                   int endLod,                // end zoom level
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancelToken) {
-    utymap::BoundingBox bbox(utymap::GeoCoordinate(minLat, minLon),
-                             utymap::GeoCoordinate(maxLat, maxLon));
-    utymap::LodRange lodRange(startLod, endLod);
     ::safeExecute([&]() {
+      utymap::BoundingBox bbox(utymap::GeoCoordinate(minLat, minLon),
+                               utymap::GeoCoordinate(maxLat, maxLon));
+      utymap::LodRange lodRange(startLod, endLod);
       context_.geoStore.add(key, path, bbox, lodRange, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
   }
@@ -52,8 +52,8 @@ public:
                   int endLod,                // end zoom level
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancelToken) {
-    utymap::LodRange lodRange(startLod, endLod);
     ::safeExecute([&]() {
+      utymap::LodRange lodRange(startLod, endLod);
       context_.geoStore.add(key, path, lodRange, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
   }
@@ -71,48 +71,53 @@ public:
                   int endLod,                // end zoom level
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancellationToken) {
-    utymap::LodRange lod(startLod, endLod);
-    std::vector<utymap::entities::Tag> elementTags;
-    elementTags.reserve(static_cast<std::size_t>(tagLength / 2));
-    for (std::size_t i = 0; i < tagLength; i += 2) {
-      auto keyId = getStringId(tags[i]);
-      auto valueId = getStringId(tags[i + 1]);
-      elementTags.push_back(utymap::entities::Tag(keyId, valueId));
-    }
-    // NOTE: tags should be sorted to speed up mapcss styling
-    std::sort(elementTags.begin(), elementTags.end());
+    ::safeExecute([&]() {
+      utymap::LodRange lod(startLod, endLod);
+      std::vector<utymap::entities::Tag> elementTags;
+      elementTags.reserve(static_cast<std::size_t>(tagLength / 2));
+      for (std::size_t i = 0; i < tagLength; i += 2) {
+        auto keyId = getStringId(tags[i]);
+        auto valueId = getStringId(tags[i + 1]);
+        elementTags.push_back(utymap::entities::Tag(keyId, valueId));
+      }
+      // NOTE: tags should be sorted to speed up mapcss styling
+      std::sort(elementTags.begin(), elementTags.end());
+
+      if (vertexLength < 2)
+        throw std::invalid_argument("Element has no vertices.");
 
-    // Node
-    if (vertexLength / 2 == 1) {
-      utymap::entities::Node node;
-      node.id = id;
-      node.tags = elementTags;
-      node.coordinate = utymap::GeoCoordinate(vertices[0], vertices[1]);
-      addToStore(key, styleFile, node, lod, errorCallback, cancellationToken);
-      return;
-    }
+      // Node
+      if (vertexLength / 2 == 1) {
+        utymap::entities::Node node;
+        node.id = id;
+        node.tags = elementTags;
+        node.coordinate = utymap::GeoCoordinate(vertices[0], vertices[1]);
+        addToStore(key, styleFile, node, lod, cancellationToken);
+        return;
+      }
 
-    std::vector<utymap::GeoCoordinate> coordinates;
-    coordinates.reserve(static_cast<std::size_t>(vertexLength / 2));
-    for (int i = 0; i < vertexLength; i += 2) {
-      coordinates.push_back(utymap::GeoCoordinate(vertices[i], vertices[i + 1]));
-    }
+      std::vector<utymap::GeoCoordinate> coordinates;
+      coordinates.reserve(static_cast<std::size_t>(vertexLength / 2));
+      for (int i = 0; i < vertexLength; i += 2) {
+        coordinates.push_back(utymap::GeoCoordinate(vertices[i], vertices[i + 1]));
+      }
 
-    // Way or Area
-    if (coordinates[0] == coordinates[coordinates.size() - 1]) {
-      utymap::entities::Area area;
-      area.id = id;
-      area.coordinates = coordinates;
-      area.tags = elementTags;
-      addToStore(key, styleFile, area, lod, errorCallback, cancellationToken);
-    }
-    else {
-      utymap::entities::Way way;
-      way.id = id;
-      way.coordinates = coordinates;
-      way.tags = elementTags;
-      addToStore(key, styleFile, way, lod, errorCallback, cancellationToken);
-    }
+      // Way or Area
+      if (coordinates[0] == coordinates[coordinates.size() - 1]) {
+        utymap::entities::Area area;
+        area.id = id;
+        area.coordinates = coordinates;
+        area.tags = elementTags;
+        addToStore(key, styleFile, area, lod, cancellationToken);
+      }
+      else {
+        utymap::entities::Way way;
+        way.id = id;
+        way.coordinates = coordinates;
+        way.tags = elementTags;
+        addToStore(key, styleFile, way, lod, cancellationToken);
+      }
+    }, errorCallback);
   }
 
   /// Checks whether data is present in any registered stores for given quad key.
@@ -126,11 +131,8 @@ private:
                   const char *styleFile,
                   const utymap::entities::Element &element,
                   const utymap::LodRange &range,
-                  OnError *errorCallback,
                   utymap::CancellationToken *cancelToken) {
-    safeExecute([&]() {
-      context_.geoStore.add(key, element, range, context_.getStyleProvider(styleFile), *cancelToken);
-    }, errorCallback);
+    context_.geoStore.add(key, element, range, context_.getStyleProvider(styleFile), *cancelToken);
   }
 
   /// Gets id for the string.
-- 
2.43.0


From 97a4996da756651d3759cf7d6704bbf5831f96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 024/114] fix: forget application when it is disconnected

---
 core/shared/ExportLib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/shared/ExportLib.cpp b/core/shared/ExportLib.cpp
index 04d3c19..232876a 100644
--- a/core/shared/ExportLib.cpp
+++ b/core/shared/ExportLib.cpp
@@ -26,6 +26,7 @@ extern "C"
 /************* Lifecycle API *****************/
 void EXPORT_API disconnect() {
   delete applicationPtr;
+  applicationPtr = nullptr;
 }
 
 void EXPORT_API connect(const char *indexPath, OnError *errorCallback) {
-- 
2.43.0


From 5868e72256e2cd0e06651af6791080937cc2ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:30 +0000
Subject: [PATCH 025/114] fix: keep orientation of clipped rings, otherwise
 holes turn into outer rings

---
 core/src/index/ElementGeometryClipper.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/src/index/ElementGeometryClipper.cpp b/core/src/index/ElementGeometryClipper.cpp
index 1668028..d2801a6 100644
--- a/core/src/index/ElementGeometryClipper.cpp
+++ b/core/src/index/ElementGeometryClipper.cpp
@@ -8,6 +8,8 @@
 #include "index/ElementStore.hpp"
 #include "index/ElementGeometryClipper.hpp"
 
+#include <algorithm>
+
 using namespace utymap;
 using namespace utymap::entities;
 using namespace utymap::mapcss;
@@ -51,11 +53,13 @@ PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, Int
 }
 
 template<typename T>
-void setCoordinates(T &t, const IntPath &path) {
+void setCoordinates(T &t, const IntPath &path, bool reverse) {
   t.coordinates.reserve(path.size());
   for (const auto &c : path) {
     t.coordinates.push_back(GeoCoordinate(c.Y/Scale, c.X/Scale));
   }
+  if (reverse)
+    std::reverse(t.coordinates.begin(), t.coordinates.end());
 }
 
 IntPath createPathFromBoundingBox(const BoundingBox &quadKeyBbox) {
@@ -99,13 +103,15 @@ std::shared_ptr<Element> clipElement(Clipper &clipper,
   clipper.removeSubject();
 
   std::size_t count = static_cast<std::size_t>(solution.Total());
+  // NOTE clipper normalizes orientation, but it distinguishes holes from outer rings.
+  bool reverse = isClosed && !getOrientation(elementShape);
 
   // 3. way intersects border only once: store a copy with clipped geometry
   if (count==1) {
     auto clippedElement = std::make_shared<T>();
     clippedElement->id = element.id;
     clippedElement->tags = element.tags;
-    setCoordinates(*clippedElement, solution.GetFirst()->Contour);
+    setCoordinates(*clippedElement, solution.GetFirst()->Contour, reverse);
     
     return clippedElement;
   }
@@ -119,7 +125,7 @@ std::shared_ptr<Element> clipElement(Clipper &clipper,
       auto clippedElement = std::make_shared<T>();
       clippedElement->id = 0;
       clippedElement->tags = element.tags;
-      setCoordinates(*clippedElement, polyNode->Contour);
+      setCoordinates(*clippedElement, polyNode->Contour, reverse);
       relation->elements.push_back(clippedElement);
       polyNode = polyNode->GetNext();
     }
-- 
2.43.0


From 02795f6f162565d77085b2ae8cca0ced3b463317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:56 +0000
Subject: [PATCH 026/114] fix: do not drop ways which cross tile without a
 vertex inside

---
 core/src/index/ElementGeometryClipper.cpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/core/src/index/ElementGeometryClipper.cpp b/core/src/index/ElementGeometryClipper.cpp
index d2801a6..c78c0eb 100644
--- a/core/src/index/ElementGeometryClipper.cpp
+++ b/core/src/index/ElementGeometryClipper.cpp
@@ -21,26 +21,13 @@ const double Scale = 1E7;
 
 using PointLocation = utymap::index::ElementGeometryClipper::PointLocation;
 
-template<typename T, typename std::enable_if<std::is_same<T, Way>::value, std::size_t>::type = 0>
-bool areConnected(const BoundingBox &, const BoundingBox &, bool allOutside) {
-  return !allOutside;
-}
-
-template<typename T, typename std::enable_if<std::is_same<T, Area>::value, std::size_t>::type = 0>
-bool areConnected(const BoundingBox &quadKeyBbox, const BoundingBox &elementBbox, bool allOutside) {
-  return quadKeyBbox.intersects(elementBbox);
-}
-
 template<typename T>
 PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, IntPath &elementShape) {
   elementShape.reserve(element.coordinates.size());
   bool allInside = true;
-  bool allOutside = true;
   BoundingBox elementBbox;
   for (const GeoCoordinate &coord : element.coordinates) {
-    bool contains = quadKeyBbox.contains(coord);
-    allInside &= contains;
-    allOutside &= !contains;
+    allInside &= quadKeyBbox.contains(coord);
     elementBbox.expand(coord);
 
     auto x = static_cast<cInt>(coord.longitude*Scale);
@@ -49,7 +36,7 @@ PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, Int
   }
 
   return allInside ? PointLocation::AllInside :
-         (areConnected<T>(quadKeyBbox, elementBbox, allOutside) ? PointLocation::Mixed : PointLocation::AllOutside);
+         (quadKeyBbox.intersects(elementBbox) ? PointLocation::Mixed : PointLocation::AllOutside);
 }
 
 template<typename T>
-- 
2.43.0


From 76d956677721d6c14c8ef9c2c828173c832e7f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 027/114] fix: keep points of holes out of islands inside these
 holes

---
 core/src/math/Polygon.hpp | 75 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 67 insertions(+), 8 deletions(-)

diff --git a/core/src/math/Polygon.hpp b/core/src/math/Polygon.hpp
index 9f7d71b..a74c289 100644
--- a/core/src/math/Polygon.hpp
+++ b/core/src/math/Polygon.hpp
@@ -3,6 +3,9 @@
 
 #include "Rectangle.hpp"
 
+#include <cmath>
+#include <vector>
+
 namespace utymap {
 namespace math {
 
@@ -68,10 +71,72 @@ class Polygon final {
       segments.push_back(static_cast<int>(offset + i));
       segments.push_back(static_cast<int>(offset + ((i + 1)%count)));
     }
+
+    for (std::size_t i = 0; i < inners.size(); ++i)
+      ensureHolePoint(i, std::make_pair(startIndex, endIndex));
+  }
+
+  /// Points of holes should not lie in contours inside these holes (e.g. islands) as
+  /// then these contours are treated as holes.
+  void ensureHolePoint(std::size_t index, const Range &added) {
+    Vector2 point(holes[index*2], holes[index*2 + 1]);
+    bool isNew = inners[index]==added;
+    if (!isNew && !isPointInPolygon(point, getContour(added)))
+      return;
+
+    const auto hole = getContour(inners[index]);
+    double area = getArea(hole);
+    std::vector<std::vector<Vector2>> nested;
+    for (const auto &ranges : {outers, inners}) {
+      for (const auto &range : ranges) {
+        if (range==inners[index]) continue;
+        auto contour = getContour(range);
+        if (getArea(contour) < area)
+          nested.push_back(std::move(contour));
+      }
+    }
+
+    auto isFree = [&](const Vector2 &candidate) {
+      for (const auto &contour : nested)
+        if (isPointInPolygon(candidate, contour)) return false;
+      return true;
+    };
+
+    if (!isFree(point) && findPointInPolygon(hole, point, isFree)) {
+      holes[index*2] = point.x;
+      holes[index*2 + 1] = point.y;
+    }
+  }
+
+  std::vector<Vector2> getContour(const Range &range) const {
+    std::vector<Vector2> contour;
+    contour.reserve((range.second - range.first)/2);
+    for (std::size_t i = range.first; i < range.second; i += 2)
+      contour.push_back(Vector2(points[i], points[i + 1]));
+    return contour;
+  }
+
+  static double getArea(const std::vector<Vector2> &contour) {
+    double area = 0;
+    for (std::size_t i = 0, j = contour.size() - 1; i < contour.size(); j = i++)
+      area += (contour[j].x - contour[0].x)*(contour[i].y - contour[0].y) -
+          (contour[i].x - contour[0].x)*(contour[j].y - contour[0].y);
+    return std::abs(area)/2;
   }
 
   /// Tries to find point in polygon.
   static bool findPointInPolygon(const std::vector<Vector2> &contour, Vector2 &point) {
+    if (contour.size()==3) {
+      point = Vector2((contour[0].x + contour[1].x + contour[2].x)/3,
+                      (contour[0].y + contour[1].y + contour[2].y)/3);
+      return true;
+    }
+    return findPointInPolygon(contour, point, [](const Vector2 &) { return true; });
+  }
+
+  /// Tries to find point in polygon which satisfies given condition.
+  template<typename Condition>
+  static bool findPointInPolygon(const std::vector<Vector2> &contour, Vector2 &point, const Condition &condition) {
     Rectangle bounds;
     bounds.expand(contour);
 
@@ -79,12 +144,6 @@ class Polygon final {
     int limit = 8;
 
     Vector2 a, b; // Current edge.
-    if (contour.size()==3) {
-      point = Vector2((contour[0].x + contour[1].x + contour[2].x)/3,
-                      (contour[0].y + contour[1].y + contour[2].y)/3);
-      return true;
-    }
-
     for (std::size_t i = 0; i < length; i++) {
       a = contour[i];
       b = contour[(i + 1)%length];
@@ -100,14 +159,14 @@ class Polygon final {
         point.x = cx + dx/j;
         point.y = cy + dy/j;
 
-        if (bounds.contains(point) && isPointInPolygon(point, contour))
+        if (bounds.contains(point) && isPointInPolygon(point, contour) && condition(point))
           return true;
 
         // Search on the other side of the segment.
         point.x = cx - dx/j;
         point.y = cy - dy/j;
 
-        if (bounds.contains(point) && isPointInPolygon(point, contour))
+        if (bounds.contains(point) && isPointInPolygon(point, contour) && condition(point))
           return true;
       }
     }
-- 
2.43.0


From 2ef4a21bf97ab65255ab3e2e662af7661fff6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:39 +0000
Subject: [PATCH 028/114] fix: do not read words from the end of text index

---
 core/src/index/BitmapStream.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/src/index/BitmapStream.cpp b/core/src/index/BitmapStream.cpp
index a88714a..a97db5b 100644
--- a/core/src/index/BitmapStream.cpp
+++ b/core/src/index/BitmapStream.cpp
@@ -4,14 +4,13 @@ using namespace utymap::index;
 
 void BitmapStream::read(std::istream &in, BitmapIndex::Bitmap &bitmap) {
   std::uint32_t key;
-  BitmapIndex::Bitset bitset;
   in.seekg(0, std::ios::beg);
-  do
-  {
-    in.read(reinterpret_cast<char *>(&key), sizeof(key));
+  while (in.read(reinterpret_cast<char *>(&key), sizeof(key))) {
+    BitmapIndex::Bitset bitset;
     bitset.read(in);
+    if (!in) break;
     bitmap.emplace(key, bitset);
-  } while (in);
+  }
 }
 
 void BitmapStream::write(std::ostream &out, const BitmapIndex::Bitmap &bitmap) {
-- 
2.43.0


From c02100222c73f3d66204e08175d2958eed647408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:39 +0000
Subject: [PATCH 029/114] fix: restore text index so that it can be extended
 after it is read

---
 core/src/index/BitmapStream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/index/BitmapStream.cpp b/core/src/index/BitmapStream.cpp
index a97db5b..0cfd7ef 100644
--- a/core/src/index/BitmapStream.cpp
+++ b/core/src/index/BitmapStream.cpp
@@ -9,7 +9,11 @@ void BitmapStream::read(std::istream &in, BitmapIndex::Bitmap &bitmap) {
     BitmapIndex::Bitset bitset;
     bitset.read(in);
     if (!in) break;
-    bitmap.emplace(key, bitset);
+
+    // NOTE library does not restore position of the last marker word, so bitset read cannot be changed.
+    auto &restored = bitmap[key];
+    for (auto i = bitset.begin(); i != bitset.end(); ++i)
+      restored.set(*i);
   }
 }
 
-- 
2.43.0


From 63ecec8cf4fffd729f86c909f7f12a0ead23c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:26 +0000
Subject: [PATCH 030/114] fix: do not mix up ids of nodes, ways and relations
 when a tile is built

---
 core/src/builders/QuadKeyBuilder.cpp | 29 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/core/src/builders/QuadKeyBuilder.cpp b/core/src/builders/QuadKeyBuilder.cpp
index d41a915..a57ec1e 100644
--- a/core/src/builders/QuadKeyBuilder.cpp
+++ b/core/src/builders/QuadKeyBuilder.cpp
@@ -23,25 +23,25 @@ class BuilderElementVisitor : public ElementVisitor {
     builderFactoryMap_(builderFactoryMap) { }
 
   void visitNode(const Node &node) override {
-    visitElement(node);
+    visitElement(node, nodeIds_);
   }
 
   void visitWay(const Way &way) override {
-    visitElement(way);
+    visitElement(way, wayIds_);
   }
 
   void visitArea(const Area &area) override {
-    visitElement(area);
+    visitElement(area, wayIds_);
   }
 
   void visitRelation(const Relation &relation) override {
     if (relation.tags.empty()) {
-      // processing clipped element
-      ids_.insert(relation.id);
+      // processing clipped element: its parts have no id
+      if (relation.id!=0 && !wayIds_.insert(relation.id).second) return;
       for (const auto &element : relation.elements)
-        visitElement(*element);
+        visitElement(*element, wayIds_);
     } else
-      visitElement(relation);
+      visitElement(relation, relationIds_);
   }
 
   void complete() {
@@ -52,12 +52,12 @@ class BuilderElementVisitor : public ElementVisitor {
 
  private:
   /// Calls appropriate visitor for given element
-  void visitElement(const Element &element) {
+  void visitElement(const Element &element, std::set<std::uint64_t> &ids) {
     Style style = context_.styleProvider.forElement(element, context_.quadKey.levelOfDetail);
 
-    if (canBuild(element, style)) {
+    if (canBuild(element, style, ids)) {
 
-      ids_.insert(element.id);
+      ids.insert(element.id);
 
       for (const auto &name : style.getBuilders()) {
         element.accept(getBuilder(name));
@@ -65,9 +65,9 @@ class BuilderElementVisitor : public ElementVisitor {
     }
   }
 
-  bool canBuild(const Element &element, const Style &style) {
+  bool canBuild(const Element &element, const Style &style, const std::set<std::uint64_t> &ids) {
     // check do we know how to build it and prevent multiple building
-    return !style.empty() && (element.id==0 || ids_.find(element.id)==ids_.end());
+    return !style.empty() && (element.id==0 || ids.find(element.id)==ids.end());
   }
 
   ElementBuilder &getBuilder(const std::string &name) {
@@ -88,7 +88,10 @@ class BuilderElementVisitor : public ElementVisitor {
 
   const BuilderContext &context_;
   BuilderFactoryMap &builderFactoryMap_;
-  std::set<std::uint64_t> ids_;
+  // NOTE nodes, ways (areas are closed ways) and relations have independent ids.
+  std::set<std::uint64_t> nodeIds_;
+  std::set<std::uint64_t> wayIds_;
+  std::set<std::uint64_t> relationIds_;
   std::unordered_map<std::string, std::unique_ptr<ElementBuilder>> builders_;
 };
 }
-- 
2.43.0


From d37f82cbd484bd7c5870b070a698c319a2d9f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:26 +0000
Subject: [PATCH 031/114] fix: do not deliver meshes and elements of cancelled
 tile

---
 core/src/builders/QuadKeyBuilder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/QuadKeyBuilder.cpp b/core/src/builders/QuadKeyBuilder.cpp
index a57ec1e..53bcaed 100644
--- a/core/src/builders/QuadKeyBuilder.cpp
+++ b/core/src/builders/QuadKeyBuilder.cpp
@@ -114,9 +114,12 @@ class QuadKeyBuilder::QuadKeyBuilderImpl {
              const BuilderContext::MeshCallback &meshCallback,
              const BuilderContext::ElementCallback &elementCallback,
              const utymap::CancellationToken &cancelToken) {
+    // NOTE builders might have more to deliver when they find out that token is cancelled.
     auto context = BuilderContext(quadKey, styleProvider, stringTable_,
-                                  meshPool_, eleProvider, meshCallback,
-                                  elementCallback, cancelToken);
+                                  meshPool_, eleProvider,
+                                  [&](const Mesh &mesh) { if (!cancelToken.isCancelled()) meshCallback(mesh); },
+                                  [&](const Element &element) { if (!cancelToken.isCancelled()) elementCallback(element); },
+                                  cancelToken);
     auto visitor = BuilderElementVisitor(context, builderFactory_);
     geoStore_.search(quadKey, styleProvider, visitor, cancelToken);
     visitor.complete();
-- 
2.43.0


From 8fdecddec5be23d85a84756af2d4b2fe3ea8304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:26 +0000
Subject: [PATCH 032/114] fix: stop text search when it is cancelled

---
 core/src/index/BitmapIndex.cpp            | 7 +++++--
 core/src/index/BitmapIndex.hpp            | 4 +++-
 core/src/index/InMemoryElementStore.cpp   | 2 +-
 core/src/index/PersistentElementStore.cpp | 2 +-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/src/index/BitmapIndex.cpp b/core/src/index/BitmapIndex.cpp
index b595543..e745935 100644
--- a/core/src/index/BitmapIndex.cpp
+++ b/core/src/index/BitmapIndex.cpp
@@ -36,7 +36,9 @@ void BitmapIndex::add(const Element &element, const utymap::QuadKey &quadKey, co
   }
 }
 
-void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visitor) {
+void BitmapIndex::search(const BitmapIndex::Query &query,
+                         ElementVisitor &visitor,
+                         const utymap::CancellationToken &cancelToken) {
   Ids andTerms, orTerms, notTerms;
   tokenize(query.andTerms, andTerms);
   tokenize(query.orTerms, orTerms);
@@ -45,7 +47,7 @@ void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visito
   for (int lod = query.range.start; lod <= query.range.end; ++lod) {
     utymap::utils::GeoUtils::visitTileRange(query.boundingBox, lod,
       [&](const QuadKey &quadKey, const BoundingBox&) {
-        if (!hasData(quadKey)) return;
+        if (cancelToken.isCancelled() || !hasData(quadKey)) return;
 
         auto& bitmap = getBitmap(quadKey);
         Bitset bitset;
@@ -73,6 +75,7 @@ void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visito
         }, [](){ return true; });
 
         for (auto i = bitset.begin(); i != bitset.end(); ++i) {
+          if (cancelToken.isCancelled()) return;
           notify(quadKey, static_cast<std::uint32_t >(*i), visitor);
         }
       });
diff --git a/core/src/index/BitmapIndex.hpp b/core/src/index/BitmapIndex.hpp
index b63b8ad..daad985 100644
--- a/core/src/index/BitmapIndex.hpp
+++ b/core/src/index/BitmapIndex.hpp
@@ -2,6 +2,7 @@
 #define INDEX_BITMAPINDEX_HPP_DEFINED
 
 #include "BoundingBox.hpp"
+#include "CancellationToken.hpp"
 #include "LodRange.hpp"
 #include "StringTable.hpp"
 #include "QuadKey.hpp"
@@ -45,7 +46,8 @@ class BitmapIndex {
 
   /// Performs search for relevant data match query.
   void search(const Query &query,
-              utymap::entities::ElementVisitor &visitor);
+              utymap::entities::ElementVisitor &visitor,
+              const utymap::CancellationToken &cancelToken = utymap::CancellationToken());
 
   /// Erases all data from given quad key.
   virtual void erase(const utymap::QuadKey &quadKey) = 0;
diff --git a/core/src/index/InMemoryElementStore.cpp b/core/src/index/InMemoryElementStore.cpp
index e804289..257be7a 100644
--- a/core/src/index/InMemoryElementStore.cpp
+++ b/core/src/index/InMemoryElementStore.cpp
@@ -92,7 +92,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
-    stringIndex_.search(query, filter);
+    stringIndex_.search(query, filter, cancelToken);
   }
 
   void search(const utymap::QuadKey &quadKey,
diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 140831b..2660db4 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -143,7 +143,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
-    BitmapIndex::search(query, filter);
+    BitmapIndex::search(query, filter, cancelToken);
   }
 
   void search(const QuadKey &quadKey,
-- 
2.43.0


From 0f216c02b5019cea782400838643bb4b4a5a3d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 033/114] fix: do not share cache file between loads of the
 same tile

---
 core/src/builders/CacheBuilder.hpp |  4 +-
 core/src/builders/MeshCache.cpp    | 96 ++++++++++++++++++------------
 2 files changed, 58 insertions(+), 42 deletions(-)

diff --git a/core/src/builders/CacheBuilder.hpp b/core/src/builders/CacheBuilder.hpp
index 98f0538..6c3de3a 100644
--- a/core/src/builders/CacheBuilder.hpp
+++ b/core/src/builders/CacheBuilder.hpp
@@ -49,10 +49,8 @@ class CacheBuilder final : public ElementBuilder {
 
   void complete() override {
     builder_->complete();
-    if (cacheContext_) {
+    if (cacheContext_)
       meshCache_.unwrap(*cacheContext_);
-      cacheContext_.release();
-    }
   }
 
  private:
diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index 1bce9f2..ebfe53a 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -30,7 +30,7 @@ class MeshCache::MeshCacheImpl {
     auto filePath = getFilePath(context);
 
     std::lock_guard<std::mutex> lock(lock_);
-    return isCacheHit(context.quadKey, filePath) ? context : wrap(context, filePath);
+    return isInProgress(filePath) || isCacheHit(filePath) ? context : wrap(context, filePath);
   }
 
   bool fetch(const BuilderContext &context) {
@@ -38,7 +38,7 @@ class MeshCache::MeshCacheImpl {
 
     {
       std::lock_guard<std::mutex> lock(lock_);
-      if (!isCacheHit(context.quadKey, filePath))
+      if (!isCacheHit(filePath))
         return false;
     }
 
@@ -50,35 +50,72 @@ class MeshCache::MeshCacheImpl {
   void unwrap(const BuilderContext &context) {
     std::lock_guard<std::mutex> lock(lock_);
 
-    auto entry = cachingQuads_.find(context.quadKey);
+    // NOTE only context which writes the file is allowed to finish it.
+    auto writer = context.meshCallback.target<MeshWriter>();
+    if (writer==nullptr) return;
 
-    if (entry==cachingQuads_.end()) return;
-
-    if (entry->second->good()) {
+    auto &file = *writer->file;
+    if (file.good()) {
       if (context.cancelToken.isCancelled()) {
         // NOTE no guarantee that all data was processed and saved.
         // So it is better to delete the whole file
-        entry->second->close();
+        file.close();
         // TODO any smarter option?
-        if (!entry->second->fail())
+        if (!file.fail())
           std::remove(getFilePath(context).c_str());
       } else {
-        entry->second->seekg(0, std::ios::beg);
-        *entry->second << static_cast<char>(1);
-        entry->second->close();
+        file.seekg(0, std::ios::beg);
+        file << static_cast<char>(1);
+        file.close();
       }
     }
 
-    cachingQuads_.erase(entry);
+    cachingFiles_.erase(getFilePath(context));
   }
 
  private:
 
+  /// Writes mesh to file and passes it further.
+  struct MeshWriter {
+    std::shared_ptr<std::fstream> file;
+    MeshCallback callback;
+    const CancellationToken &token;
+
+    void operator()(const Mesh &mesh) const {
+      if (token.isCancelled()) return;
+      *file << MeshType;
+      MeshStream::write(*file, mesh);
+      callback(mesh);
+    }
+  };
+
+  /// Writes element to file and passes it further.
+  struct ElementWriter {
+    std::shared_ptr<std::fstream> file;
+    ElementCallback callback;
+    const CancellationToken &token;
+
+    void operator()(const Element &element) const {
+      if (token.isCancelled()) return;
+      *file << ElementType;
+      file->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
+      ElementStream::write(*file, element);
+      callback(element);
+    }
+  };
+
+  /// Checks whether the file is being written now. If its context is gone without
+  /// being finished (e.g. due to exception), then the file is not in progress anymore.
+  bool isInProgress(const std::string &filePath) const {
+    auto entry = cachingFiles_.find(filePath);
+    return entry!=cachingFiles_.end() && !entry->second.expired();
+  }
+
   /// Checks whether the data associated with given context is already cached on disk.
-  bool isCacheHit(const QuadKey &quadKey, const std::string &filePath) const {
-    // NOTE if quadkey is preset in collection, then caching is in progress.
+  bool isCacheHit(const std::string &filePath) const {
+    // NOTE if file is preset in collection, then caching is in progress.
     // in this case, we let app to behaviour as there is no cache at all
-    if (cachingQuads_.find(quadKey) != cachingQuads_.end()) return false;
+    if (isInProgress(filePath)) return false;
     // NOTE if file is on disk, it should be processed.
     std::ifstream file(filePath, std::ios::in | std::ios::binary | std::ios::ate);
     file.seekg(0, std::ios::beg);
@@ -100,7 +137,7 @@ class MeshCache::MeshCacheImpl {
     // NOTE marker that processing in progress
     *file << static_cast<char>(0);
 
-    cachingQuads_.insert({context.quadKey, file});
+    cachingFiles_[filePath] = file;
 
     return BuilderContext(
         context.quadKey,
@@ -108,30 +145,11 @@ class MeshCache::MeshCacheImpl {
         context.stringTable,
         context.meshPool,
         context.eleProvider,
-        wrap(*file, context.meshCallback, context.cancelToken),
-        wrap(*file, context.elementCallback, context.cancelToken),
+        MeshWriter { file, context.meshCallback, context.cancelToken },
+        ElementWriter { file, context.elementCallback, context.cancelToken },
         context.cancelToken);
   }
 
-  static MeshCallback wrap(std::ostream &stream, const MeshCallback &callback, const CancellationToken &token) {
-    return [&](const Mesh &mesh) {
-      if (token.isCancelled()) return;
-      stream << MeshType;
-      MeshStream::write(stream, mesh);
-      callback(mesh);
-    };
-  }
-
-  static ElementCallback wrap(std::ostream &stream, const ElementCallback &callback, const CancellationToken &token) {
-    return [&](const Element &element) {
-      if (token.isCancelled()) return;
-      stream << ElementType;
-      stream.write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
-      ElementStream::write(stream, element);
-      callback(element);
-    };
-  }
-
   static void readCache(std::string &filePath, const BuilderContext &context) {
     std::fstream file;
     file.open(filePath, std::ios::in | std::ios::binary | std::ios::app | std::ios::ate);
@@ -157,7 +175,7 @@ class MeshCache::MeshCacheImpl {
   static bool isGood(std::istream& stream) {
     if (!stream.good()) return false;
 
-    char status;
+    char status = 0;
     stream >> status;
     return status == 1;
   }
@@ -165,7 +183,7 @@ class MeshCache::MeshCacheImpl {
   const std::string dataPath_;
   const std::string extension_;
   std::mutex lock_;
-  std::map<QuadKey, std::shared_ptr<std::fstream>, QuadKey::Comparator> cachingQuads_;
+  std::map<std::string, std::weak_ptr<std::fstream>> cachingFiles_;
 };
 
 MeshCache::MeshCache(const std::string &directory, const std::string &extension) :
-- 
2.43.0


From a824653c522b25dbc93d360c8e04478dc48c17e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:05 +0000
Subject: [PATCH 034/114] fix: make persistent element store usable from
 several threads

---
 core/src/index/PersistentElementStore.cpp | 75 ++++++++++++++---------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 2660db4..054e6f8 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -55,7 +55,6 @@ struct QuadKeyData {
 
   BitmapData& getBitmap() const {
     if (bitmapData_->data.empty()) {
-      // TODO not thread safe!
       std::fstream bitmapFile;
       bitmapFile.open(bitmapData_->path, std::ios::in | std::ios::binary);
       BitmapStream::read(bitmapFile, bitmapData_->data);
@@ -104,7 +103,6 @@ private:
 
 using Cache = utymap::utils::LruCache<QuadKey, QuadKeyData, QuadKey::Comparator>;
 
-// TODO improve thread safety!
 class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
  public:
   PersistentElementStoreImpl(const std::string &dataPath,
@@ -115,6 +113,8 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     cache_(12) {}
 
   void store(const Element &element, const QuadKey &quadKey) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
+
     const auto &quadKeyData = getQuadKeyData(quadKey);
     // NOTE position might be changed by previous read
     quadKeyData->dataFile->seekg(0, std::ios::end);
@@ -130,6 +130,10 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     // write element data
     ElementStream::write(*quadKeyData->dataFile, element);
 
+    // NOTE files might be opened once more while these ones are still in use by search
+    quadKeyData->dataFile->flush();
+    quadKeyData->indexFile->flush();
+
     // write element search data
     add(element, quadKey, order);
     // TODO we always clean/write the whole file here.
@@ -143,6 +147,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     BitmapIndex::search(query, filter, cancelToken);
   }
 
@@ -152,19 +157,16 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     // NOTE access to the files below creates them
     if (!hasData(quadKey)) return;
 
-    const auto &quadKeyData = getQuadKeyData(quadKey);
-    quadKeyData->indexFile->seekg(0, std::ios::end);
-    auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
-        (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
-
-    quadKeyData->indexFile->seekg(0, std::ios::beg);
+    auto quadKeyData = getQuadKeyData(quadKey);
+    auto count = getCount(*quadKeyData);
     for (std::uint32_t i = 0; i < count; ++i) {
       if (cancelToken.isCancelled()) break;
 
-      auto entry = readIndexEntry(*quadKeyData);
-      quadKeyData->dataFile->seekg(std::get<1>(entry), std::ios::beg);
+      auto element = readElement(*quadKeyData, i);
+      // NOTE data is erased meanwhile
+      if (element==nullptr) break;
 
-      ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry ))->accept(visitor);
+      element->accept(visitor);
     }
   }
 
@@ -174,12 +176,9 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   void erase(const utymap::QuadKey &quadKey) override {
-    auto quadKeyData = getQuadKeyData(quadKey);
-    {
-      std::lock_guard<std::mutex> lock(lock_);
-      quadKeyData->erase();
-      cache_.clear();
-    }
+    std::lock_guard<std::recursive_mutex> lock(lock_);
+    getQuadKeyData(quadKey)->erase();
+    cache_.clear();
   }
 
   void erase(const utymap::BoundingBox &bbox, const utymap::LodRange &range) {
@@ -187,6 +186,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   void flush() {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     cache_.clear();
   }
 
@@ -194,14 +194,8 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void notify(const utymap::QuadKey& quadKey,
               const std::uint32_t order,
               ElementVisitor &visitor) override {
-    auto quadKeyData = getQuadKeyData(quadKey);
-    auto offset = order * (sizeof(std::uint64_t) + sizeof(std::uint32_t));
-
-    quadKeyData->indexFile->seekg(offset, std::ios::beg);
-    auto entry = readIndexEntry(*quadKeyData);
-    quadKeyData->dataFile->seekg(std::get<1>(entry), std::ios::beg);
-
-    ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry))->accept(visitor);
+    auto element = readElement(*getQuadKeyData(quadKey), order);
+    if (element!=nullptr) element->accept(visitor);
   }
 
   Bitmap& getBitmap(const utymap::QuadKey& quadKey) override {
@@ -211,7 +205,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
  private:
   /// Gets quad key data.
   std::shared_ptr<QuadKeyData> getQuadKeyData(const QuadKey& quadKey) {
-    std::lock_guard<std::mutex> lock(lock_);
+    std::lock_guard<std::recursive_mutex> lock(lock_);
 
     if (cache_.exists(quadKey))
       return cache_.get(quadKey);
@@ -231,17 +225,40 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     return ss.str();
   }
 
+  /// Gets number of elements.
+  std::uint32_t getCount(const QuadKeyData &quadKeyData) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
+
+    quadKeyData.indexFile->seekg(0, std::ios::end);
+    return static_cast<std::uint32_t>(quadKeyData.indexFile->tellg() /
+        (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
+  }
+
+  /// Reads element with given order.
+  std::unique_ptr<Element> readElement(const QuadKeyData &quadKeyData, std::uint32_t order) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
+
+    auto offset = order * (sizeof(std::uint64_t) + sizeof(std::uint32_t));
+    quadKeyData.indexFile->seekg(offset, std::ios::beg);
+    auto entry = readIndexEntry(quadKeyData);
+    if (!quadKeyData.indexFile->good()) return nullptr;
+
+    quadKeyData.dataFile->seekg(std::get<1>(entry), std::ios::beg);
+    return ElementStream::read(*quadKeyData.dataFile, std::get<0>(entry));
+  }
+
   /// Reads element info from index.
   std::tuple<std::uint64_t, std::uint32_t> readIndexEntry(const QuadKeyData &quadKeyData) {
-    std::uint64_t id;
-    std::uint32_t offset;
+    std::uint64_t id = 0;
+    std::uint32_t offset = 0;
     quadKeyData.indexFile->read(reinterpret_cast<char *>(&id), sizeof(id));
     quadKeyData.indexFile->read(reinterpret_cast<char *>(&offset), sizeof(offset));
     return std::make_tuple(id, offset);
   }
 
   const std::string dataPath_;
-  std::mutex lock_;
+  /// Protects cache, files and text index. Visitors of text search might use the store as well.
+  std::recursive_mutex lock_;
   utymap::utils::LruCache<QuadKey, QuadKeyData, QuadKey::Comparator> cache_;
 };
 
-- 
2.43.0


From ce599f71adfd0aef5a55360fb96b58b8967ca2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:05 +0000
Subject: [PATCH 035/114] fix: make in-memory element store usable from several
 threads

---
 core/src/index/InMemoryElementStore.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/src/index/InMemoryElementStore.cpp b/core/src/index/InMemoryElementStore.cpp
index 257be7a..91bf7b4 100644
--- a/core/src/index/InMemoryElementStore.cpp
+++ b/core/src/index/InMemoryElementStore.cpp
@@ -7,6 +7,9 @@
 #include "index/InMemoryElementStore.hpp"
 #include "index/BitmapIndex.hpp"
 
+#include <mutex>
+#include <vector>
+
 using namespace utymap;
 using namespace utymap::index;
 using namespace utymap::entities;
@@ -92,28 +95,37 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     stringIndex_.search(query, filter, cancelToken);
   }
 
   void search(const utymap::QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
-    auto it = begin(quadKey);
-    // No elements for this quad key
-    if (it == end())
-      return;
+    // NOTE elements might be added or erased meanwhile
+    std::vector<std::shared_ptr<Element>> elements;
+    {
+      std::lock_guard<std::recursive_mutex> lock(lock_);
+      auto it = begin(quadKey);
+      // No elements for this quad key
+      if (it == end())
+        return;
+      elements.assign(it->second.begin(), it->second.end());
+    }
 
-    for (const auto &element : it->second) {
+    for (const auto &element : elements) {
       if (cancelToken.isCancelled()) break;
       element->accept(visitor);
     }
   }
 
   bool hasData(const utymap::QuadKey &quadKey) const {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     return elementsMap_.find(quadKey)!=elementsMap_.end();
   }
 
   void store(const utymap::entities::Element &element, const QuadKey &quadKey) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     auto &elements = elementsMap_[quadKey];
 
     stringIndex_.add(element, quadKey, static_cast<std::uint32_t>(elements.size()));
@@ -122,6 +134,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   }
 
   void erase(const utymap::QuadKey &quadKey) {
+    std::lock_guard<std::recursive_mutex> lock(lock_);
     elementsMap_.erase(quadKey);
     stringIndex_.erase(quadKey);
   }
@@ -140,6 +153,8 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   }
 
   const StringTable &stringTable_;
+  /// Protects elements and text index. Visitors of text search might use the store as well.
+  mutable std::recursive_mutex lock_;
   ElementMap elementsMap_;
   InMemoryStringIndex stringIndex_;
 };
-- 
2.43.0


From 1aad156725830b68a220fd3a5cae386fbb262724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 036/114] fix: do not mix meshes built with different elevation
 data in cache

---
 core/src/builders/MeshCache.cpp              | 8 +++++++-
 core/src/heightmap/ElevationProvider.hpp     | 5 +++++
 core/src/heightmap/GridElevationProvider.hpp | 2 ++
 core/src/heightmap/SrtmElevationProvider.hpp | 2 ++
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index ebfe53a..1428f1b 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -127,7 +127,13 @@ class MeshCache::MeshCacheImpl {
     std::stringstream ss;
     ss << dataPath_ << "/cache/" << context.styleProvider.getTag()
        << "/" << context.quadKey.levelOfDetail << "/"
-       << GeoUtils::quadKeyToString(context.quadKey) << extension_;
+       << GeoUtils::quadKeyToString(context.quadKey);
+
+    // NOTE meshes depend on elevation data they are built with.
+    auto eleTag = context.eleProvider.getTag();
+    if (!eleTag.empty()) ss << '.' << eleTag;
+
+    ss << extension_;
     return ss.str();
   }
 
diff --git a/core/src/heightmap/ElevationProvider.hpp b/core/src/heightmap/ElevationProvider.hpp
index 542b73b..52c537d 100644
--- a/core/src/heightmap/ElevationProvider.hpp
+++ b/core/src/heightmap/ElevationProvider.hpp
@@ -4,6 +4,8 @@
 #include "GeoCoordinate.hpp"
 #include "QuadKey.hpp"
 
+#include <string>
+
 namespace utymap {
 namespace heightmap {
 
@@ -16,6 +18,9 @@ class ElevationProvider {
   /// Gets elevation for given geocoordinate.
   virtual double getElevation(const QuadKey &quadkey, double latitude, double longitude) const = 0;
 
+  /// Gets tag which distinguishes data built with this provider from the data built with another one.
+  virtual std::string getTag() const { return ""; }
+
   virtual ~ElevationProvider() = default;
 };
 
diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index 29a6b14..ce0bfb0 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -84,6 +84,8 @@ class GridElevationProvider final : public ElevationProvider {
     return height0*dy*(1 - dx) + height1*dy*(dx) + height2*(1 - dy)*(1 - dx) + height3*(1 - dy)*dx;
   }
 
+  std::string getTag() const override { return "grid"; }
+
  private:
 
   static int clamp(int n, int lower, int upper) {
diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 2a308e2..7ae22a0 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -57,6 +57,8 @@ class SrtmElevationProvider final : public ElevationProvider {
     return getElevationImpl(quadKey, latitude, longitude);
   }
 
+  std::string getTag() const override { return "srtm"; }
+
  private:
 
   void preload(const utymap::QuadKey &quadKey, HgtCellKey &hgtCellKey) const {
-- 
2.43.0


From efb448442ac27680071ab555afc99e5797e5cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 037/114] fix: make tag of style depend on textures and
 lsystems

---
 core/src/mapcss/MapCssParser.cpp  | 4 +++-
 core/src/mapcss/StyleProvider.cpp | 8 +++++---
 core/src/mapcss/StyleSheet.hpp    | 2 ++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index 759f7a3..b702383 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -233,7 +233,9 @@ struct ExtraImportGrammar : qi::grammar<Iterator, CommentSkipper<Iterator> > {
     std::ifstream file(directory + fileName);
     if (!file.good())
       throw utymap::MapCssException(std::string("Cannot find:") + directory + fileName);
-    return std::string((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
+    std::string content((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
+    stylesheet.extras.append(fileName).append(1, '\n').append(content).append(1, '\n');
+    return content;
   }
 
   qi::rule<Iterator, CommentSkipper<Iterator>> start;
diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 940ea2f..d1abc1b 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -96,8 +96,8 @@ void addTo(std::string &tag, const IdentifierFilterMap &filterMap) {
   }
 }
 
-/// Gets hash for given filter collection.
-std::string getHashTag(const FilterCollection &filterCollection) {
+/// Gets hash for given filter collection and extra data: textures and lsystems.
+std::string getHashTag(const FilterCollection &filterCollection, const std::string &extras) {
   std::string tag;
   tag.reserve(64000);
 
@@ -108,6 +108,8 @@ std::string getHashTag(const FilterCollection &filterCollection) {
   addTo(tag, filterCollection.canvases);
   addTo(tag, filterCollection.elements);
 
+  tag.append(extras);
+
   return MD5(tag).hexdigest();
 }
 
@@ -277,7 +279,7 @@ class StyleProvider::StyleProviderImpl {
       lsystems.emplace(lsystem.first, utymap::utils::make_unique<const utymap::lsys::LSystem>(lsystem.second));
     }
 
-    hashTag_ = getHashTag(filters);
+    hashTag_ = getHashTag(filters, stylesheet.extras);
   }
 
   const std::string &getTag() const {
diff --git a/core/src/mapcss/StyleSheet.hpp b/core/src/mapcss/StyleSheet.hpp
index fbb25da..7dbe98b 100644
--- a/core/src/mapcss/StyleSheet.hpp
+++ b/core/src/mapcss/StyleSheet.hpp
@@ -128,6 +128,8 @@ struct StyleSheet final {
   std::vector<Rule> rules;
   std::vector<TextureAtlas> textures;
   std::unordered_map<std::string, utymap::lsys::LSystem> lsystems;
+  /// Raw content of files which define textures and lsystems.
+  std::string extras;
 };
 
 }
-- 
2.43.0


From ee4256ddf247adb8cd501b5c5ca169f13c9877eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 038/114] fix: do not mix meshes of styles whose values are the
 same when joined

---
 core/src/mapcss/StyleProvider.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index d1abc1b..e93809d 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -47,11 +47,17 @@ struct FilterCollection final {
   IdentifierFilterMap elements;
 };
 
+/// Adds value to tag. NOTE separator guarantees that different values produce different tags.
+template<typename T>
+void addValue(std::string &tag, const T &value) {
+  tag.append(utymap::utils::toString(value)).append(1, '\0');
+}
+
 /// Alters tag with value specific for passed style declarations.
 void addTo(std::string &tag, const StyleDeclarations &styles) {
   for (const auto &style :styles) {
-    tag.append(utymap::utils::toString(style->key()));
-    tag.append(utymap::utils::toString(style->value()));
+    addValue(tag, style->key());
+    addValue(tag, style->value());
   }
 }
 
@@ -73,12 +79,12 @@ void addTo(std::string &tag, const OpType &type) {
 /// Alters tag with value specific for passed filter map.
 void addTo(std::string &tag, const ConditionFilterMap &filterMap) {
   for (const auto &pair : filterMap) {
-    tag.append(utymap::utils::toString(pair.first));
+    addValue(tag, pair.first);
     for (const auto &filter : pair.second) {
       for (const auto &cond : filter.conditions) {
-        tag.append(utymap::utils::toString(cond.key));
+        addValue(tag, cond.key);
         addTo(tag, cond.type);
-        tag.append(utymap::utils::toString(cond.value));
+        addValue(tag, cond.value);
       }
       addTo(tag, filter.declarations);
     }
@@ -88,9 +94,9 @@ void addTo(std::string &tag, const ConditionFilterMap &filterMap) {
 /// Alters tag with value specific for passed filter map.
 void addTo(std::string &tag, const IdentifierFilterMap &filterMap) {
   for (const auto &pair : filterMap) {
-    tag.append(utymap::utils::toString(pair.first));
+    addValue(tag, pair.first);
     for (const auto &id : pair.second) {
-      tag.append(utymap::utils::toString(id.first));
+      addValue(tag, id.first);
       addTo(tag, id.second);
     }
   }
@@ -102,11 +108,17 @@ std::string getHashTag(const FilterCollection &filterCollection, const std::stri
   tag.reserve(64000);
 
   addTo(tag, filterCollection.nodes);
+  tag.append(1, '\n');
   addTo(tag, filterCollection.ways);
+  tag.append(1, '\n');
   addTo(tag, filterCollection.areas);
+  tag.append(1, '\n');
   addTo(tag, filterCollection.relations);
+  tag.append(1, '\n');
   addTo(tag, filterCollection.canvases);
+  tag.append(1, '\n');
   addTo(tag, filterCollection.elements);
+  tag.append(1, '\n');
 
   tag.append(extras);
 
-- 
2.43.0


From 83a8fc6d11ba3e7f0d2a49b84f4d305940df17af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 039/114] fix: lock style provider caches which are used by
 concurrent loads

---
 core/src/mapcss/StyleProvider.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index e93809d..b2099c4 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -299,12 +299,12 @@ class StyleProvider::StyleProviderImpl {
   }
 
   const ColorGradient &getGradient(const std::string &key) {
+    std::lock_guard<std::mutex> lock(lock_);
     auto gradientPair = gradients.find(key);
     if (gradientPair==gradients.end()) {
       auto gradient = utymap::utils::GradientUtils::parseGradient(key);
       if (gradient->empty())
         throw MapCssException("Invalid gradient: " + key);
-      std::lock_guard<std::mutex> lock(lock_);
       gradients.emplace(key, std::move(gradient));
       gradientPair = gradients.find(key);
     }
@@ -432,7 +432,11 @@ Style StyleProvider::forElement(const Element &element, int levelOfDetails) cons
 
 Style StyleProvider::forCanvas(int levelOfDetails) const {
   Style style({}, pimpl_->stringTable);
-  for (const auto &filter : pimpl_->filters.canvases[levelOfDetails]) {
+  auto filters = pimpl_->filters.canvases.find(levelOfDetails);
+  if (filters==pimpl_->filters.canvases.end())
+    return std::move(style);
+
+  for (const auto &filter : filters->second) {
     for (const auto &declaration : filter.declarations) {
       style.put(*declaration);
     }
-- 
2.43.0


From 10347f7dda56dfc3f8a6163efa4276bd52b230d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 040/114] fix: lock registry of style providers

---
 core/shared/Application.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/Application.hpp b/core/shared/Application.hpp
index 7e36fd6..22e17fa 100644
--- a/core/shared/Application.hpp
+++ b/core/shared/Application.hpp
@@ -11,6 +11,8 @@
 #include "heightmap/SrtmElevationProvider.hpp"
 #include "mapcss/MapCssParser.hpp"
 
+#include <mutex>
+
 /// Composes object graph and exposes functionality as API.
 class Application {
  public:
@@ -41,6 +43,7 @@ class Application {
  private:
   /// Gets registered style provider by its style path.
   const utymap::mapcss::StyleProvider &getStyleProvider(const std::string &stylePath) {
+    std::lock_guard<std::mutex> lock(styleLock_);
     auto pair = styleProviders_.find(stylePath);
     if (pair != styleProviders_.end())
       return *pair->second;
@@ -76,6 +79,7 @@ class Application {
   utymap::heightmap::SrtmElevationProvider srtmEleProvider_;
   utymap::heightmap::GridElevationProvider gridEleProvider_;
   std::unordered_map<std::string, std::unique_ptr<const utymap::mapcss::StyleProvider>> styleProviders_;
+  std::mutex styleLock_;
 
   Configuration configuration_;
   Search search_;
-- 
2.43.0


From d64b0497cfe372e2868b64307e88040f1dc85ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 041/114] fix: read grid elevation cache only under its lock

---
 core/src/heightmap/GridElevationProvider.hpp | 39 +++++++++-----------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index ce0bfb0..bd18ee8 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -46,31 +46,27 @@ class GridElevationProvider final : public ElevationProvider {
 
   /// Gets elevation for given geocoordinate.
   double getElevation(const utymap::QuadKey &quadKey, double latitude, double longitude) const override {
-    auto data = data_.find(quadKey);
-    if (data==data_.end()) {
-      preload(quadKey);
-      data = data_.find(quadKey);
-    }
+    const auto &data = getData(quadKey);
 
-    int resolution = data->second.resolution;
+    int resolution = data.resolution;
 
-    int x = static_cast<int>(longitude*Scale) - data->second.xStart;
-    int y = static_cast<int>(latitude*Scale) - data->second.yStart;
+    int x = static_cast<int>(longitude*Scale) - data.xStart;
+    int y = static_cast<int>(latitude*Scale) - data.yStart;
 
-    int x0 = clamp(x/data->second.xStep, 0, resolution);
-    int y0 = clamp(y/data->second.yStep, 0, resolution);
+    int x0 = clamp(x/data.xStep, 0, resolution);
+    int y0 = clamp(y/data.yStep, 0, resolution);
 
     int x1 = std::min(x0 + 1, resolution);
     int y1 = std::min(y0 + 1, resolution);
 
-    double dx = static_cast<double>(x - x0*data->second.xStep)/data->second.xStep;
-    double dy = static_cast<double>(y - y0*data->second.yStep)/data->second.yStep;
+    double dx = static_cast<double>(x - x0*data.xStep)/data.xStep;
+    double dy = static_cast<double>(y - y0*data.yStep)/data.yStep;
 
     int cellSize = resolution + 1;
-    int height2 = data->second.heights[x0 + y0*cellSize];
-    int height0 = data->second.heights[x0 + y1*cellSize];
-    int height3 = data->second.heights[x1 + y0*cellSize];
-    int height1 = data->second.heights[x1 + y1*cellSize];
+    int height2 = data.heights[x0 + y0*cellSize];
+    int height0 = data.heights[x0 + y1*cellSize];
+    int height3 = data.heights[x1 + y0*cellSize];
+    int height1 = data.heights[x1 + y1*cellSize];
 
     // Bilinear interpolation
     // h0------------h1
@@ -92,12 +88,13 @@ class GridElevationProvider final : public ElevationProvider {
     return std::max(lower, std::min(n, upper));
   }
 
-  /// Preloads data for given quadkey.
-  void preload(const utymap::QuadKey &quadKey) const {
+  /// Gets data for given quadkey, loads it if necessary.
+  const EleData &getData(const utymap::QuadKey &quadKey) const {
     std::lock_guard<std::mutex> lock(lock_);
 
-    if (data_.find(quadKey)!=data_.end())
-      return;
+    auto entry = data_.find(quadKey);
+    if (entry!=data_.end())
+      return entry->second;
 
     std::string filePath = getFilePath(quadKey);
     std::fstream file(filePath);
@@ -126,7 +123,7 @@ class GridElevationProvider final : public ElevationProvider {
     data.xStep = static_cast<int>(bbox.width()/data.resolution*Scale);
     data.yStep = static_cast<int>(bbox.height()/data.resolution*Scale);
 
-    data_.emplace(quadKey, std::move(data));
+    return data_.emplace(quadKey, std::move(data)).first->second;
   }
 
   std::string getFilePath(const QuadKey &quadKey) const {
-- 
2.43.0


From f8a4c156e754a78aaa57daec8b09f66e847f4ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 042/114] fix: read srtm elevation cache only under its lock

---
 core/src/heightmap/SrtmElevationProvider.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 7ae22a0..20f6fd6 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -61,11 +61,13 @@ class SrtmElevationProvider final : public ElevationProvider {
 
  private:
 
-  void preload(const utymap::QuadKey &quadKey, HgtCellKey &hgtCellKey) const {
+  /// Gets cell for given key, loads all cells of quadkey if necessary.
+  const HgtCell &getCell(const utymap::QuadKey &quadKey, const HgtCellKey &hgtCellKey) const {
     std::lock_guard<std::mutex> lock(lock_);
 
-    if (cells_.find(hgtCellKey)!=cells_.end())
-      return;
+    auto cellPtr = cells_.find(hgtCellKey);
+    if (cellPtr!=cells_.end())
+      return cellPtr->second;
 
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
     int minLat = static_cast<int>(bbox.minPoint.latitude);
@@ -87,6 +89,8 @@ class SrtmElevationProvider final : public ElevationProvider {
         HgtCell cell = readCell(path);
         cells_.emplace(cellKey, readCell(path));
       }
+
+    return cells_.find(hgtCellKey)->second;
   }
 
   double getElevationImpl(const utymap::QuadKey &quadKey, double latitude, double longitude) const {
@@ -97,13 +101,7 @@ class SrtmElevationProvider final : public ElevationProvider {
     double secondsLon = (longitude - lonDec)*3600;
 
     HgtCellKey hgtCellKey(latDec, lonDec);
-    auto cellPtr = cells_.find(hgtCellKey);
-    if (cellPtr==cells_.end()) {
-      preload(quadKey, hgtCellKey);
-      cellPtr = cells_.find(hgtCellKey);
-    }
-
-    const auto &cell = cellPtr->second;
+    const auto &cell = getCell(quadKey, hgtCellKey);
 
     // load tile
     //X corresponds to x/y values,
-- 
2.43.0


From 3fef164053b944168933efa6a1d86d7af3d8353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 043/114] fix: read only the srtm cell of the coordinate

---
 core/src/heightmap/SrtmElevationProvider.hpp | 45 +++++---------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 20f6fd6..360b1bc 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -1,9 +1,7 @@
 #ifndef HEIGHTMAP_SRTMELEVATIONPROVIDER_HPP_DEFINED
 #define HEIGHTMAP_SRTMELEVATIONPROVIDER_HPP_DEFINED
 
-#include "BoundingBox.hpp"
 #include "heightmap/ElevationProvider.hpp"
-#include "utils/GeoUtils.hpp"
 
 #include <cmath>
 #include <fstream>
@@ -49,51 +47,30 @@ class SrtmElevationProvider final : public ElevationProvider {
       dataPath_(indexPath + "/data/"), maxCacheSize_(maxCacheSize) {
   }
 
-  double getElevation(const utymap::QuadKey &quadKey, const utymap::GeoCoordinate &coordinate) const override {
-    return getElevationImpl(quadKey, coordinate.latitude, coordinate.longitude);
+  double getElevation(const utymap::QuadKey &, const utymap::GeoCoordinate &coordinate) const override {
+    return getElevationImpl(coordinate.latitude, coordinate.longitude);
   }
 
-  double getElevation(const utymap::QuadKey &quadKey, double latitude, double longitude) const override {
-    return getElevationImpl(quadKey, latitude, longitude);
+  double getElevation(const utymap::QuadKey &, double latitude, double longitude) const override {
+    return getElevationImpl(latitude, longitude);
   }
 
   std::string getTag() const override { return "srtm"; }
 
  private:
 
-  /// Gets cell for given key, loads all cells of quadkey if necessary.
-  const HgtCell &getCell(const utymap::QuadKey &quadKey, const HgtCellKey &hgtCellKey) const {
+  /// Gets cell for given key, loads it if necessary.
+  const HgtCell &getCell(const HgtCellKey &hgtCellKey) const {
     std::lock_guard<std::mutex> lock(lock_);
 
     auto cellPtr = cells_.find(hgtCellKey);
-    if (cellPtr!=cells_.end())
-      return cellPtr->second;
+    if (cellPtr==cells_.end())
+      cellPtr = cells_.emplace(hgtCellKey, readCell(getFilePath(hgtCellKey))).first;
 
-    BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
-    int minLat = static_cast<int>(bbox.minPoint.latitude);
-    int minLon = static_cast<int>(bbox.minPoint.longitude);
-    int maxLat = static_cast<int>(bbox.maxPoint.latitude);
-    int maxLon = static_cast<int>(bbox.maxPoint.longitude);
-
-    int latDiff = maxLat - minLat;
-    int lonDiff = maxLon - minLon;
-
-    for (int j = 0; j <= latDiff; j++)
-      for (int i = 0; i <= lonDiff; i++) {
-        HgtCellKey cellKey(minLat + j, minLon + i);
-
-        if (cells_.find(cellKey)!=cells_.end())
-          continue;
-
-        std::string path = getFilePath(cellKey);
-        HgtCell cell = readCell(path);
-        cells_.emplace(cellKey, readCell(path));
-      }
-
-    return cells_.find(hgtCellKey)->second;
+    return cellPtr->second;
   }
 
-  double getElevationImpl(const utymap::QuadKey &quadKey, double latitude, double longitude) const {
+  double getElevationImpl(double latitude, double longitude) const {
     int latDec = static_cast<int>(latitude);
     int lonDec = static_cast<int>(longitude);
 
@@ -101,7 +78,7 @@ class SrtmElevationProvider final : public ElevationProvider {
     double secondsLon = (longitude - lonDec)*3600;
 
     HgtCellKey hgtCellKey(latDec, lonDec);
-    const auto &cell = getCell(quadKey, hgtCellKey);
+    const auto &cell = getCell(hgtCellKey);
 
     // load tile
     //X corresponds to x/y values,
-- 
2.43.0


From ddc8ecbbad5a5b3e8872b6c427370aafa6d586d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 044/114] fix: read srtm heights as signed 16 bit integers

---
 core/src/heightmap/SrtmElevationProvider.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 360b1bc..9f6ca31 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -4,6 +4,7 @@
 #include "heightmap/ElevationProvider.hpp"
 
 #include <cmath>
+#include <cstdint>
 #include <fstream>
 #include <sstream>
 #include <string>
@@ -119,7 +120,8 @@ class SrtmElevationProvider final : public ElevationProvider {
 
   static int readPx(const HgtCell &cell, int y, int x) {
     int pos = cell.offset + 2*(x - cell.totalPx*y);
-    return (cell.data[pos]) << 8 | (cell.data[pos + 1]);
+    return static_cast<std::int16_t>(static_cast<unsigned char>(cell.data[pos]) << 8 |
+                                     static_cast<unsigned char>(cell.data[pos + 1]));
   }
 
   static HgtCell readCell(const std::string &path) {
-- 
2.43.0


From c06baa06b54812a384593a79077f8b62d4d15a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 045/114] fix: find srtm cell south of equator and west of
 Greenwich

---
 core/src/heightmap/SrtmElevationProvider.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 9f6ca31..38b3408 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -3,6 +3,7 @@
 
 #include "heightmap/ElevationProvider.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
 #include <fstream>
@@ -72,8 +73,8 @@ class SrtmElevationProvider final : public ElevationProvider {
   }
 
   double getElevationImpl(double latitude, double longitude) const {
-    int latDec = static_cast<int>(latitude);
-    int lonDec = static_cast<int>(longitude);
+    int latDec = static_cast<int>(std::floor(latitude));
+    int lonDec = static_cast<int>(std::floor(longitude));
 
     double secondsLat = (latitude - latDec)*3600;
     double secondsLon = (longitude - lonDec)*3600;
@@ -93,8 +94,8 @@ class SrtmElevationProvider final : public ElevationProvider {
     // (sec)    0        3   x  (lon)
 
     //both values are [0; totalPx - 1] (totalPx reserved for interpolating)
-    int y = static_cast<int>(secondsLat/cell.secondsPerPx);
-    int x = static_cast<int>(secondsLon/cell.secondsPerPx);
+    int y = std::min(static_cast<int>(secondsLat/cell.secondsPerPx), cell.totalPx - 2);
+    int x = std::min(static_cast<int>(secondsLon/cell.secondsPerPx), cell.totalPx - 2);
 
     //get norther and easter points
     int height2 = readPx(cell, y, x);
@@ -103,8 +104,8 @@ class SrtmElevationProvider final : public ElevationProvider {
     int height1 = readPx(cell, y + 1, x + 1);
 
     //ratio where X lays
-    double dy = std::fmod(secondsLat, cell.secondsPerPx)/cell.secondsPerPx;
-    double dx = std::fmod(secondsLon, cell.secondsPerPx)/cell.secondsPerPx;
+    double dy = secondsLat/cell.secondsPerPx - y;
+    double dx = secondsLon/cell.secondsPerPx - x;
 
     // Bilinear interpolation
     // h0------------h1
@@ -155,9 +156,9 @@ class SrtmElevationProvider final : public ElevationProvider {
     std::ostringstream stream;
     stream << dataPath_
            << std::setfill('0')
-           << (key.lat > 0 ? 'N' : 'S')
+           << (key.lat >= 0 ? 'N' : 'S')
            << std::setw(2) << std::abs(key.lat) << std::setw(0)
-           << (key.lon > 0 ? 'E' : 'W')
+           << (key.lon >= 0 ? 'E' : 'W')
            << std::setw(3) << std::abs(key.lon)
            << ".hgt";
     return stream.str();
-- 
2.43.0


From ace8819b0a8db912f120f30a841426c150736052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 046/114] fix: do not create missing srtm file while reading it

---
 core/src/heightmap/SrtmElevationProvider.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 38b3408..831ef0f 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -126,7 +126,7 @@ class SrtmElevationProvider final : public ElevationProvider {
   }
 
   static HgtCell readCell(const std::string &path) {
-    std::fstream file(path, std::ios::in | std::ios::out | std::ios::binary | std::ios::app);
+    std::ifstream file(path, std::ios::in | std::ios::binary);
     file.seekg(0, std::ios::end);
     auto size = file.tellg();
 
-- 
2.43.0


From 0b5a30ae894ec8781f5229f1aa67369d49c02b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 047/114] fix: do not ask for elevation of placeholder
 coordinate of relation

---
 core/shared/Search.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/shared/Search.hpp b/core/shared/Search.hpp
index fe1823b..5ab213d 100644
--- a/core/shared/Search.hpp
+++ b/core/shared/Search.hpp
@@ -119,15 +119,16 @@ private:
 
     void visitRelation(const utymap::entities::Relation &relation) override {
       // TODO return geometry
-      visitElement(relation, Coordinates{ { 0, 0 } });
+      visitElement(relation, Coordinates{ { 0, 0 } }, false);
     }
   private:
     void visitElement(const utymap::entities::Element &element,
-      const Coordinates &coordinates) {
+      const Coordinates &coordinates,
+      bool hasElevation = true) {
       auto ctags = getTags(element);
       auto cstyles = getStyles(element);
 
-      fillVertices(coordinates);
+      fillVertices(coordinates, hasElevation);
 
       elementCallback_(tag_, element.id,
         ctags.data(), static_cast<int>(ctags.size()),
@@ -180,13 +181,13 @@ private:
     }
 
     /// Converts geometry.
-    void fillVertices(const Coordinates &coordinates) {
+    void fillVertices(const Coordinates &coordinates, bool hasElevation) {
       vertices_.reserve(coordinates.size() * 3);
       for (std::size_t i = 0; i < coordinates.size(); ++i) {
         const utymap::GeoCoordinate coordinate = coordinates[i];
         vertices_.push_back(coordinate.longitude);
         vertices_.push_back(coordinate.latitude);
-        vertices_.push_back(eleProvider_ == nullptr ? 0 : eleProvider_->getElevation(quadKey_, coordinate));
+        vertices_.push_back(eleProvider_ == nullptr || !hasElevation ? 0 : eleProvider_->getElevation(quadKey_, coordinate));
       }
     }
 
-- 
2.43.0


From 7ea2f1f9a612629af6b63a28c0caa5e47a8813dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 048/114] fix: reject elevation grid which is too small for
 interpolation

---
 core/src/heightmap/GridElevationProvider.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index bd18ee8..04e469a 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -112,7 +112,8 @@ class GridElevationProvider final : public ElevationProvider {
 
     data.heights.shrink_to_fit();
 
-    if (data.heights.empty())
+    // NOTE at least two heights in both directions are needed for interpolation.
+    if (data.heights.size() < 4)
       throw std::domain_error("Cannot get elevation data from:" + filePath);
 
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
-- 
2.43.0


From e2c0925376061a991a3ab6675d3cd0484ecb5584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:12 +0000
Subject: [PATCH 049/114] fix: use border elevation for coordinates outside of
 elevation grid

---
 core/src/heightmap/GridElevationProvider.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index 04e469a..10c1e0a 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -50,11 +50,12 @@ class GridElevationProvider final : public ElevationProvider {
 
     int resolution = data.resolution;
 
-    int x = static_cast<int>(longitude*Scale) - data.xStart;
-    int y = static_cast<int>(latitude*Scale) - data.yStart;
+    // NOTE coordinates outside of the grid have elevation of its border.
+    int x = clamp(longitude*Scale - data.xStart, data.xStep*resolution);
+    int y = clamp(latitude*Scale - data.yStart, data.yStep*resolution);
 
-    int x0 = clamp(x/data.xStep, 0, resolution);
-    int y0 = clamp(y/data.yStep, 0, resolution);
+    int x0 = x/data.xStep;
+    int y0 = y/data.yStep;
 
     int x1 = std::min(x0 + 1, resolution);
     int y1 = std::min(y0 + 1, resolution);
@@ -84,8 +85,8 @@ class GridElevationProvider final : public ElevationProvider {
 
  private:
 
-  static int clamp(int n, int lower, int upper) {
-    return std::max(lower, std::min(n, upper));
+  static int clamp(double n, int upper) {
+    return static_cast<int>(std::max(0., std::min(n, static_cast<double>(upper))));
   }
 
   /// Gets data for given quadkey, loads it if necessary.
-- 
2.43.0


From 734679aaff0310294b55b2af8c048c147b50be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 050/114] fix: locate samples of an elevation grid in fractions
 of degrees, not truncated units

---
 core/src/heightmap/GridElevationProvider.hpp | 34 +++++++++-----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index 10c1e0a..7b7b444 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -23,17 +23,15 @@ namespace heightmap {
 class GridElevationProvider final : public ElevationProvider {
   /// Holds elevation data information.
   struct EleData {
-    int xStart = 0;
-    int yStart = 0;
-    int xStep = 0;
-    int yStep = 0;
+    double xStart = 0;
+    double yStart = 0;
+    double xStep = 0;
+    double yStep = 0;
     int resolution = 0;
 
     std::vector<int> heights;
   };
 
-  const double Scale = 1E7;
-
  public:
   GridElevationProvider(const std::string& indexPath) :
       dataPath_(indexPath + "/data/") {
@@ -51,17 +49,17 @@ class GridElevationProvider final : public ElevationProvider {
     int resolution = data.resolution;
 
     // NOTE coordinates outside of the grid have elevation of its border.
-    int x = clamp(longitude*Scale - data.xStart, data.xStep*resolution);
-    int y = clamp(latitude*Scale - data.yStart, data.yStep*resolution);
+    double x = clamp((longitude - data.xStart)/data.xStep, resolution);
+    double y = clamp((latitude - data.yStart)/data.yStep, resolution);
 
-    int x0 = x/data.xStep;
-    int y0 = y/data.yStep;
+    int x0 = static_cast<int>(x);
+    int y0 = static_cast<int>(y);
 
     int x1 = std::min(x0 + 1, resolution);
     int y1 = std::min(y0 + 1, resolution);
 
-    double dx = static_cast<double>(x - x0*data.xStep)/data.xStep;
-    double dy = static_cast<double>(y - y0*data.yStep)/data.yStep;
+    double dx = x - x0;
+    double dy = y - y0;
 
     int cellSize = resolution + 1;
     int height2 = data.heights[x0 + y0*cellSize];
@@ -85,8 +83,8 @@ class GridElevationProvider final : public ElevationProvider {
 
  private:
 
-  static int clamp(double n, int upper) {
-    return static_cast<int>(std::max(0., std::min(n, static_cast<double>(upper))));
+  static double clamp(double n, int upper) {
+    return std::max(0., std::min(n, static_cast<double>(upper)));
   }
 
   /// Gets data for given quadkey, loads it if necessary.
@@ -120,10 +118,10 @@ class GridElevationProvider final : public ElevationProvider {
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
 
     data.resolution = static_cast<int>(std::sqrt(data.heights.size())) - 1;
-    data.xStart = static_cast<int>(bbox.minPoint.longitude*Scale);
-    data.yStart = static_cast<int>(bbox.minPoint.latitude*Scale);
-    data.xStep = static_cast<int>(bbox.width()/data.resolution*Scale);
-    data.yStep = static_cast<int>(bbox.height()/data.resolution*Scale);
+    data.xStart = bbox.minPoint.longitude;
+    data.yStart = bbox.minPoint.latitude;
+    data.xStep = bbox.width()/data.resolution;
+    data.yStep = bbox.height()/data.resolution;
 
     return data_.emplace(quadKey, std::move(data)).first->second;
   }
-- 
2.43.0


From a2ad02ac60eedf102908c6d62f9d26cccb654db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 051/114] fix: report string table which cannot be opened
 instead of reading it without end

---
 core/src/index/StringTable.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index fe6ad90..3975511 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -25,6 +25,9 @@ class StringTable::StringTableImpl {
       map_(),
       offsets_(),
       cache_(1024) {
+    if (!indexFile_.is_open() || !dataFile_.is_open())
+      throw std::domain_error("Cannot open string table: " + indexPath);
+
     nextId_ = static_cast<std::uint32_t>(indexFile_.tellg()/(sizeof(std::uint32_t)*2));
     if (nextId_ > 0) {
       std::uint32_t count = nextId_;
-- 
2.43.0


From 7308371ce0360edbaa12cc9a22fc631cfc2ba719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 052/114] fix: write strings to disk as soon as they get their
 ids

---
 core/src/index/StringTable.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index 3975511..f815013 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -110,11 +110,14 @@ class StringTable::StringTableImpl {
     // write string
     dataFile_.seekp(0, ios::end);
     dataFile_ << data.c_str() << '\0';
+    // NOTE stored elements refer to ids, so they should not get lost when process dies.
+    dataFile_.flush();
 
     // write index entry
     indexFile_.seekp(0, ios::end);
     indexFile_.write(reinterpret_cast<char *>(&hash), sizeof(hash));
     indexFile_.write(reinterpret_cast<char *>(&offset), sizeof(offset));
+    indexFile_.flush();
 
     map_[hash].push_back(nextId_);
     offsets_.push_back(offset);
-- 
2.43.0


From a2cf77658a5ceee22391e2c15de29e6e63361cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 053/114] fix: report string which cannot be written to disk

---
 core/src/index/StringTable.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index f815013..55ed6ae 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -112,17 +112,27 @@ class StringTable::StringTableImpl {
     dataFile_ << data.c_str() << '\0';
     // NOTE stored elements refer to ids, so they should not get lost when process dies.
     dataFile_.flush();
+    ensureWritten(dataFile_);
 
     // write index entry
     indexFile_.seekp(0, ios::end);
     indexFile_.write(reinterpret_cast<char *>(&hash), sizeof(hash));
     indexFile_.write(reinterpret_cast<char *>(&offset), sizeof(offset));
     indexFile_.flush();
+    ensureWritten(indexFile_);
 
     map_[hash].push_back(nextId_);
     offsets_.push_back(offset);
   }
 
+  /// Throws if last write has failed, stream can be used later.
+  static void ensureWritten(std::fstream &file) {
+    if (file.good()) return;
+
+    file.clear();
+    throw std::runtime_error("Cannot write to string table.");
+  }
+
   std::fstream indexFile_;
   std::fstream dataFile_;
   std::uint32_t seed_;
-- 
2.43.0


From 21e8e5dd0e683e9e61648859016e917b7cdd608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 054/114] fix: remove files of tile in order which keeps
 remaining ones valid

---
 core/src/index/PersistentElementStore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 054e6f8..df825d7 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -79,9 +79,10 @@ struct QuadKeyData {
 
   void erase() {
     closeAll();
-    if (std::remove(dataPath_.c_str())) logEraseError(dataPath_);
-    if (std::remove(indexPath_.c_str())) logEraseError(indexPath_);
+    // NOTE order matters: files which are left when process dies in between should not refer to removed ones.
     if (std::remove(bitmapPath_.c_str())) logEraseError(bitmapPath_);
+    if (std::remove(indexPath_.c_str())) logEraseError(indexPath_);
+    if (std::remove(dataPath_.c_str())) logEraseError(dataPath_);
   }
 
 private:
-- 
2.43.0


From f5119033a65c53264d777b6c78dfd6a442204819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 055/114] fix: keep text index of tile when process dies while
 writing it

---
 core/src/index/PersistentElementStore.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index df825d7..1a4cabb 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -62,6 +62,20 @@ struct QuadKeyData {
     return *bitmapData_;
   }
 
+  /// Writes search data using temporary file as the original one is lost otherwise when process dies meanwhile.
+  void writeBitmap() const {
+    std::string tmpPath = bitmapPath_ + ".tmp";
+    std::fstream bitmapFile(tmpPath, std::ios::out | std::ios::binary | std::ios::trunc);
+    BitmapStream::write(bitmapFile, getBitmap().data);
+    bitmapFile.close();
+
+    // NOTE existing file is not replaced on some platforms.
+    if (std::rename(tmpPath.c_str(), bitmapPath_.c_str())) {
+      std::remove(bitmapPath_.c_str());
+      std::rename(tmpPath.c_str(), bitmapPath_.c_str());
+    }
+  }
+
   QuadKeyData(const QuadKeyData &) = delete;
   QuadKeyData &operator=(const QuadKeyData &) = delete;
 
@@ -138,8 +152,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     // write element search data
     add(element, quadKey, order);
     // TODO we always clean/write the whole file here.
-    std::fstream bitmapFile(quadKeyData->getBitmap().path, std::ios::out | std::ios::binary | std::ios::trunc);
-    BitmapStream::write(bitmapFile, quadKeyData->getBitmap().data);
+    quadKeyData->writeBitmap();
   }
 
   void search(const BitmapIndex::Query &query,
-- 
2.43.0


From fb522231c0e4bfd9f7d7292b97b0530c1f8005c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 056/114] fix: report element which cannot be written to disk

---
 core/src/index/PersistentElementStore.cpp | 35 +++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 1a4cabb..ccc405d 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -51,6 +51,9 @@ struct QuadKeyData {
     using std::ios;
     dataFile->open(dataPath, ios::in | ios::out | ios::binary | ios::app | ios::ate);
     indexFile->open(indexPath, ios::in | ios::out | ios::binary | ios::app | ios::ate);
+
+    if (!dataFile->is_open() || !indexFile->is_open())
+      throw std::domain_error("Cannot open files of tile: " + dataPath);
   }
 
   BitmapData& getBitmap() const {
@@ -68,6 +71,10 @@ struct QuadKeyData {
     std::fstream bitmapFile(tmpPath, std::ios::out | std::ios::binary | std::ios::trunc);
     BitmapStream::write(bitmapFile, getBitmap().data);
     bitmapFile.close();
+    if (!bitmapFile.good()) {
+      std::remove(tmpPath.c_str());
+      throw std::domain_error("Cannot write file: " + bitmapPath_);
+    }
 
     // NOTE existing file is not replaced on some platforms.
     if (std::rename(tmpPath.c_str(), bitmapPath_.c_str())) {
@@ -130,7 +137,19 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void store(const Element &element, const QuadKey &quadKey) {
     std::lock_guard<std::recursive_mutex> lock(lock_);
 
+    try {
+      write(element, quadKey);
+    } catch (...) {
+      // NOTE state of opened files and their text index might not match content on disk
+      cache_.clear();
+      throw;
+    }
+  }
+
+  void write(const Element &element, const QuadKey &quadKey) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    quadKeyData->dataFile->clear();
+    quadKeyData->indexFile->clear();
     // NOTE position might be changed by previous read
     quadKeyData->dataFile->seekg(0, std::ios::end);
     quadKeyData->indexFile->seekg(0, std::ios::end);
@@ -138,16 +157,21 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     auto fileSize = quadKeyData->indexFile->tellg();
     auto order = static_cast<std::uint32_t>(fileSize / (sizeof(element.id) + sizeof(offset)));
 
-    // write element index
-    quadKeyData->indexFile->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
-    quadKeyData->indexFile->write(reinterpret_cast<const char *>(&offset), sizeof(offset));
-
     // write element data
     ElementStream::write(*quadKeyData->dataFile, element);
 
     // NOTE files might be opened once more while these ones are still in use by search
     quadKeyData->dataFile->flush();
+    if (!quadKeyData->dataFile->good())
+      throw std::domain_error("Cannot write data of element.");
+
+    // write element index
+    quadKeyData->indexFile->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
+    quadKeyData->indexFile->write(reinterpret_cast<const char *>(&offset), sizeof(offset));
+
     quadKeyData->indexFile->flush();
+    if (!quadKeyData->indexFile->good())
+      throw std::domain_error("Cannot write index of element.");
 
     // write element search data
     add(element, quadKey, order);
@@ -191,7 +215,8 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
 
   void erase(const utymap::QuadKey &quadKey) override {
     std::lock_guard<std::recursive_mutex> lock(lock_);
-    getQuadKeyData(quadKey)->erase();
+    if (hasData(quadKey))
+      getQuadKeyData(quadKey)->erase();
     cache_.clear();
   }
 
-- 
2.43.0


From 532aaad924d7e40600bfa737e952714c8ab7f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 057/114] fix: report missing or truncated pbf file

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index d3be6a3..89f502d 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -32,6 +32,9 @@ class OsmPbfParser final {
   void parse(std::istream &stream, Visitor &visitor) {
     finished_ = false;
 
+    if (!stream.good())
+      throw std::domain_error("Cannot read pbf data");
+
     while (!stream.eof() && !stream.fail() && !finished_) {
       OSMPBF::BlobHeader header = readHeader(stream);
       if (!finished_) {
@@ -57,6 +60,9 @@ class OsmPbfParser final {
 
     // read size of blob-header
     if (!stream.read(reinterpret_cast<char *>(&sz), 4)) {
+      if (stream.gcount() > 0)
+        throw std::domain_error("Unable to read blob header size from file");
+
       finished_ = true;
       return result;
     }
-- 
2.43.0


From 948466d7dcf5420e9d6ab3c3a769a51546cbee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 058/114] fix: deliver nothing of json file which cannot be
 parsed completely

---
 core/src/formats/osm/json/OsmJsonParser.hpp | 35 ++++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/core/src/formats/osm/json/OsmJsonParser.hpp b/core/src/formats/osm/json/OsmJsonParser.hpp
index 41a0ab4..18d4710 100644
--- a/core/src/formats/osm/json/OsmJsonParser.hpp
+++ b/core/src/formats/osm/json/OsmJsonParser.hpp
@@ -54,6 +54,27 @@ class OsmJsonParser {
     ptree pt;
     read_json(istream, pt);
 
+    // NOTE features are delivered only if all of them are valid.
+    Collector collector;
+    parse(pt, collector);
+    for (const auto &element : collector.elements)
+      visitor.add(*element);
+  }
+
+ private:
+
+  /// Keeps parsed elements.
+  struct Collector {
+    std::vector<std::shared_ptr<utymap::entities::Element>> elements;
+
+    void add(const utymap::entities::Element &element) {
+      FoldRelation copy;
+      element.accept(copy);
+      elements.push_back(copy.element);
+    }
+  };
+
+  void parse(const ptree &pt, Collector &visitor) const {
     for (const ptree::value_type &feature : pt) {
       std::string featureName = feature.first;
       std::uint32_t featureId = stringTable_.getId(featureName);
@@ -75,10 +96,8 @@ class OsmJsonParser {
     }
   }
 
- private:
-
   /// Parses relation with relations from multipolygon and notifies visitor.
-  void parseMultiPolygon(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
+  void parseMultiPolygon(Collector &visitor, std::uint32_t featureId, const ptree &feature) const {
     utymap::entities::Relation relation;
     parseProperties(relation, featureId, feature.get_child("properties"));
     for (const ptree::value_type &geometry : feature.get_child("geometry.coordinates")) {
@@ -95,17 +114,17 @@ class OsmJsonParser {
   }
 
   /// Parses relation with areas from polygon (first is outer, nexts are inner) and notifies visitor.
-  void parsePolygon(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
+  void parsePolygon(Collector &visitor, std::uint32_t featureId, const ptree &feature) const {
     processSimpleRelation(visitor, featureId, feature);
   }
 
   /// Parses relation with ways from multiline string and notifies visitor.
-  void parseMultiLineString(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
+  void parseMultiLineString(Collector &visitor, std::uint32_t featureId, const ptree &feature) const {
     processSimpleRelation(visitor, featureId, feature);
   }
 
   /// Parses way from line string and notifies visitor.
-  void parseLineString(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
+  void parseLineString(Collector &visitor, std::uint32_t featureId, const ptree &feature) const {
     utymap::entities::Way way;
     parseProperties(way, featureId, feature.get_child("properties"));
     way.coordinates = parseCoordinates(feature.get_child("geometry.coordinates"));
@@ -113,7 +132,7 @@ class OsmJsonParser {
   }
 
   /// Parses node from point and notifies visitor.
-  void parsePoint(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
+  void parsePoint(Collector &visitor, std::uint32_t featureId, const ptree &feature) const {
     utymap::entities::Node node;
     parseProperties(node, featureId, feature.get_child("properties"));
     node.coordinate = parseCoordinate(feature.get_child("geometry.coordinates"));
@@ -122,7 +141,7 @@ class OsmJsonParser {
 
   /// Parses relation as simple relation with non-relation children. If child is single, then
   /// calls visitor with this child instead of relation.
-  void processSimpleRelation(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
+  void processSimpleRelation(Collector &visitor, std::uint32_t featureId, const ptree &feature) const {
     auto relation = parseRelation(featureId, feature.get_child("geometry.coordinates"));
     if (relation.elements.size()==1) {
       parseProperties(*relation.elements[0], featureId, feature.get_child("properties"));
-- 
2.43.0


From 12e25c4c6a1c0f63579630005293d7a7063f98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 059/114] fix: report calls without connection instead of using
 missing application

---
 core/shared/ExportLib.cpp | 50 ++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/core/shared/ExportLib.cpp b/core/shared/ExportLib.cpp
index 232876a..49c179f 100644
--- a/core/shared/ExportLib.cpp
+++ b/core/shared/ExportLib.cpp
@@ -10,9 +10,17 @@
 
 #include <iostream>
 #include <limits>
+#include <stdexcept>
 
 static Application *applicationPtr = nullptr;
 
+/// Gets application or throws if there is no one: connection is not established or failed.
+static Application &getApplication() {
+  if (applicationPtr == nullptr)
+    throw std::logic_error("Not connected.");
+  return *applicationPtr;
+}
+
 /// Logs error of the call which has no error callback.
 static void logError(const char *errorMessage) {
   std::cerr << errorMessage << std::endl;
@@ -40,54 +48,64 @@ void EXPORT_API connect(const char *indexPath, OnError *errorCallback) {
 /************* Configuration API *****************/
 void EXPORT_API registerStylesheet(const char *path, OnNewDirectory *directoryCallback) {
   ::safeExecute([&]() {
-    applicationPtr->getConfiguration().registerStylesheet(path, directoryCallback);
+    getApplication().getConfiguration().registerStylesheet(path, directoryCallback);
   }, logError);
 }
 
 void EXPORT_API registerInMemoryStore(const char *key) {
   ::safeExecute([&]() {
-    applicationPtr->getConfiguration().registerInMemoryStore(key);
+    getApplication().getConfiguration().registerInMemoryStore(key);
   }, logError);
 }
 
 void EXPORT_API registerPersistentStore(const char *key, const char *dataPath, OnNewDirectory *directoryCallback) {
   ::safeExecute([&]() {
-    applicationPtr->getConfiguration().registerPersistentStore(key, dataPath, directoryCallback);
+    getApplication().getConfiguration().registerPersistentStore(key, dataPath, directoryCallback);
   }, logError);
 }
 
 void EXPORT_API enableMeshCache(int enabled) {
-  applicationPtr->getConfiguration().enableMeshCache(enabled);
+  ::safeExecute([&]() {
+    getApplication().getConfiguration().enableMeshCache(enabled);
+  }, logError);
 }
 
 /************* Storage API *****************/
 void EXPORT_API addDataInRange(const char *key, const char *styleFile, const char *path, int startLod, int endLod,
                                OnError *errorCallback, utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getStorage().addToStore(key, styleFile, path, startLod, endLod, errorCallback, cancellationToken);
+  ::safeExecute([&]() {
+    getApplication().getStorage().addToStore(key, styleFile, path, startLod, endLod, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 void EXPORT_API addDataInBoundingBox(const char *key, const char *styleFile, const char *path,
                                      double minLat, double minLon, double maxLat,  double maxLon, int startLod, int endLod,
                                      OnError *errorCallback, utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getStorage().addToStore(key, styleFile, path, minLat, minLon, maxLat, maxLon, startLod, endLod, errorCallback, cancellationToken);
+  ::safeExecute([&]() {
+    getApplication().getStorage().addToStore(key, styleFile, path, minLat, minLon, maxLat, maxLon, startLod, endLod, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 void EXPORT_API addDataInQuadKey(const char *key, const char *styleFile, const char *path,
                                  int tileX, int tileY, int levelOfDetail,
                                  OnError *errorCallback, utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getStorage().addToStore(key, styleFile, path, tileX, tileY, levelOfDetail, errorCallback, cancellationToken);
+  ::safeExecute([&]() {
+    getApplication().getStorage().addToStore(key, styleFile, path, tileX, tileY, levelOfDetail, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 void EXPORT_API addDataInElement(const char *key, const char *styleFile, std::uint64_t id, const double *vertices, int vertexLength,
                                  const char **tags, int tagLength, int startLod, int endLod,
                                  OnError *errorCallback, utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getStorage().addToStore(key, styleFile, id, vertices, vertexLength, tags, tagLength, startLod, endLod, errorCallback, cancellationToken);
+  ::safeExecute([&]() {
+    getApplication().getStorage().addToStore(key, styleFile, id, vertices, vertexLength, tags, tagLength, startLod, endLod, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 bool EXPORT_API hasData(int tileX, int tileY, int levelOfDetail) {
   bool result = false;
   ::safeExecute([&]() {
-    result = applicationPtr->getStorage().hasData(tileX, tileY, levelOfDetail);
+    result = getApplication().getStorage().hasData(tileX, tileY, levelOfDetail);
   }, logError);
   return result;
 }
@@ -96,21 +114,25 @@ bool EXPORT_API hasData(int tileX, int tileY, int levelOfDetail) {
 void EXPORT_API getDataByText(int tag, const char *notTerms, const char *andTerms, const char *orTerms,
                               double minLatitude, double minLongitude, double maxLatitude, double maxLongitude, int startLod, int endLod,
                               OnElementLoaded *elementCallback, OnError *errorCallback, utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getSearch().getDataByText(tag, notTerms, andTerms, orTerms, minLatitude, minLongitude,maxLatitude, maxLongitude,
-    startLod, endLod, elementCallback, errorCallback, cancellationToken);
+  ::safeExecute([&]() {
+    getApplication().getSearch().getDataByText(tag, notTerms, andTerms, orTerms, minLatitude, minLongitude,maxLatitude, maxLongitude,
+      startLod, endLod, elementCallback, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 void EXPORT_API getDataByQuadKey(int tag, const char *styleFile, int tileX, int tileY, int levelOfDetail, int eleDataType,
                                  OnMeshBuilt *meshCallback, OnElementLoaded *elementCallback, OnError *errorCallback,
                                  utymap::CancellationToken *cancellationToken) {
-  applicationPtr->getSearch().getDataByQuadKey(tag, styleFile, tileX, tileY, levelOfDetail, 
-    eleDataType, meshCallback, elementCallback, errorCallback, cancellationToken);
+  ::safeExecute([&]() {
+    getApplication().getSearch().getDataByQuadKey(tag, styleFile, tileX, tileY, levelOfDetail, 
+      eleDataType, meshCallback, elementCallback, errorCallback, cancellationToken);
+  }, errorCallback);
 }
 
 double EXPORT_API getElevationByQuadKey(int tileX, int tileY, int levelOfDetail, int eleDataType, double latitude, double longitude) {
   double elevation = std::numeric_limits<double>::quiet_NaN();
   ::safeExecute([&]() {
-    elevation = applicationPtr->getSearch().getElevationByQuadKey(tileX, tileY, levelOfDetail, eleDataType, latitude, longitude);
+    elevation = getApplication().getSearch().getElevationByQuadKey(tileX, tileY, levelOfDetail, eleDataType, latitude, longitude);
   }, logError);
   return elevation;
 }
-- 
2.43.0


From 87af82fa4701aac06a404a0bebb89bcc91a7d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 060/114] fix: report incomplete coordinates and tags of added
 element

---
 core/shared/Storage.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index e12f28c..b2d3330 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -72,6 +72,11 @@ public:
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancellationToken) {
     ::safeExecute([&]() {
+      if (vertexLength < 2 || vertexLength % 2 != 0)
+        throw std::invalid_argument("Element has no vertices.");
+      if (tagLength < 0 || tagLength % 2 != 0)
+        throw std::invalid_argument("Element has incomplete tags.");
+
       utymap::LodRange lod(startLod, endLod);
       std::vector<utymap::entities::Tag> elementTags;
       elementTags.reserve(static_cast<std::size_t>(tagLength / 2));
@@ -83,9 +88,6 @@ public:
       // NOTE: tags should be sorted to speed up mapcss styling
       std::sort(elementTags.begin(), elementTags.end());
 
-      if (vertexLength < 2)
-        throw std::invalid_argument("Element has no vertices.");
-
       // Node
       if (vertexLength / 2 == 1) {
         utymap::entities::Node node;
-- 
2.43.0


From 8bd1f07f47511ee90f13cc6814259ec8d5538434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 061/114] fix: keep stored relation members unchanged while
 terrain is built (data race, tags added to stored elements)

---
 core/src/builders/terrain/TerraBuilder.cpp | 34 ++++++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/terrain/TerraBuilder.cpp b/core/src/builders/terrain/TerraBuilder.cpp
index f51bb00..1341734 100644
--- a/core/src/builders/terrain/TerraBuilder.cpp
+++ b/core/src/builders/terrain/TerraBuilder.cpp
@@ -66,6 +66,30 @@ struct RelationVisitor : public ElementVisitor {
 
   void visitRelation(const utymap::entities::Relation &r) override { r.accept(builder); }
 };
+
+/// Creates copy of element which has given tags.
+/// NOTE element itself cannot be changed as it may be shared with element store.
+struct RetagVisitor : public ElementVisitor {
+  const std::vector<Tag> &tags;
+  std::shared_ptr<Element> result;
+
+  explicit RetagVisitor(const std::vector<Tag> &t) : tags(t), result() {}
+
+  void visitNode(const utymap::entities::Node &n) override { copy(n); }
+
+  void visitWay(const utymap::entities::Way &w) override { copy(w); }
+
+  void visitArea(const utymap::entities::Area &a) override { copy(a); }
+
+  void visitRelation(const utymap::entities::Relation &r) override { copy(r); }
+
+ private:
+  template<typename T>
+  void copy(const T &element) {
+    result = std::make_shared<T>(element);
+    result->tags = tags;
+  }
+};
 }
 
 class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
@@ -129,10 +153,14 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
     auto region = std::make_shared<Region>();
     RelationVisitor visitor(*this, rel, *region);
 
-    for (const auto &element : rel.elements) {
+    for (const auto &member : rel.elements) {
+      auto element = member;
       // if there are no tags, then this element is result of clipping
-      if (element->tags.empty())
-        element->tags = rel.tags;
+      if (element->tags.empty()) {
+        RetagVisitor retagVisitor(rel.tags);
+        element->accept(retagVisitor);
+        element = retagVisitor.result;
+      }
 
       if (context_.styleProvider.hasStyle(*element, context_.quadKey.levelOfDetail))
         element->accept(visitor);
-- 
2.43.0


From 5a7804366f68f2e217a184da3a5954bd779f3752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 062/114] fix: report imported stylesheet which is missing

---
 core/src/mapcss/MapCssParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index b702383..f9edc3d 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -180,6 +180,8 @@ struct ImportGrammar : qi::grammar<Iterator, CommentSkipper<Iterator>> {
  private:
   void readImport(const std::string &url) const {
     std::ifstream importFile(directory + url);
+    if (!importFile.good())
+      throw utymap::MapCssException(std::string("Cannot find:") + directory + url);
     std::string content((std::istreambuf_iterator<char>(importFile)), std::istreambuf_iterator<char>());
     // NOTE indirected recursion: caller must ensure that there is no recursive import.
     ::parse(directory, content.begin(), content.end(), stylesheet);
-- 
2.43.0


From 6a5f71fa28710c19d127a87ba5c61ca0e52b3ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 063/114] fix: report style sheet which cannot be parsed
 completely (rest of it was ignored)

---
 core/src/mapcss/MapCssParser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index f9edc3d..451809f 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -260,7 +260,7 @@ struct StyleSheetGrammar : qi::grammar<Iterator, StyleSheet(), CommentSkipper<It
       import(directory, stylesheet),
       texture(directory, stylesheet) {
     start = qi::eps
-        > *(rule | import | texture);
+        > *(rule | import | texture | qi::lit(';'));
 
     start.name("stylesheet");
     qi::on_error<qi::fail>
@@ -289,6 +289,10 @@ void parse(const std::string &directory, Iterator begin, Iterator end, StyleShee
 
   if (!phrase_parse(begin, end, grammar, skipper, stylesheet))
     throw utymap::MapCssException(grammar.error.str());
+
+  // NOTE grammar stops on first rule which it cannot parse.
+  if (begin != end)
+    throw utymap::MapCssException("Error! Cannot parse here: \"" + std::string(begin, end) + "\"");
 }
 }
 
-- 
2.43.0


From b0b99823f4e72ba1bb892c3fc697904778d5bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 064/114] fix: describe failure to read missing file or file
 which is not xml (message was empty)

---
 core/src/formats/osm/xml/OsmXmlParser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/formats/osm/xml/OsmXmlParser.cpp b/core/src/formats/osm/xml/OsmXmlParser.cpp
index 6530c57..706669c 100644
--- a/core/src/formats/osm/xml/OsmXmlParser.cpp
+++ b/core/src/formats/osm/xml/OsmXmlParser.cpp
@@ -351,8 +351,11 @@ void OsmXmlParser<Visitor>::parse(std::istream& istream, Visitor& visitor) {
   AttributeSkipper<boost::spirit::istream_iterator> skipper;
   int result;
 
-  if (!phrase_parse(begin, end, grammar, skipper, result))
-      throw std::domain_error(grammar.error.str());
+  if (!phrase_parse(begin, end, grammar, skipper, result)) {
+      // NOTE grammar describes nothing if file is missing or does not start as xml.
+      auto error = grammar.error.str();
+      throw std::domain_error(error.empty() ? "Error! Cannot read osm xml" : error);
+  }
 }
 
 template class OsmXmlParser<OsmDataVisitor>;
-- 
2.43.0


From 3e0d08991d91f385875f306dd944081ca7358119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 065/114] fix: report bitmap which cannot be put in place

---
 core/src/index/PersistentElementStore.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index ccc405d..e2ae2c7 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -79,7 +79,10 @@ struct QuadKeyData {
     // NOTE existing file is not replaced on some platforms.
     if (std::rename(tmpPath.c_str(), bitmapPath_.c_str())) {
       std::remove(bitmapPath_.c_str());
-      std::rename(tmpPath.c_str(), bitmapPath_.c_str());
+      if (std::rename(tmpPath.c_str(), bitmapPath_.c_str())) {
+        std::remove(tmpPath.c_str());
+        throw std::domain_error("Cannot write file: " + bitmapPath_);
+      }
     }
   }
 
-- 
2.43.0


From b457e3fb03187e9381e8c7d557226f61af644687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 066/114] fix: keep string ids after failed write (entry was
 written later and shifted all which follow)

---
 core/src/index/StringTable.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index 55ed6ae..8bcca59 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -18,13 +18,20 @@ class StringTable::StringTableImpl {
 
  public:
   StringTableImpl(const std::string &indexPath, const std::string &dataPath, std::uint32_t seed) :
-      indexFile_(indexPath, ios::in | ios::out | ios::binary | ios::ate | ios::app),
-      dataFile_(dataPath, ios::in | ios::out | ios::binary | ios::app),
+      indexPath_(indexPath),
+      dataPath_(dataPath),
+      indexFile_(),
+      dataFile_(),
       seed_(seed),
       nextId_(0),
       map_(),
       offsets_(),
       cache_(1024) {
+    // NOTE index is not opened for appending: next entry replaces one which is not written completely.
+    std::ofstream(indexPath, ios::binary | ios::app);
+    openFiles();
+    indexFile_.seekg(0, ios::end);
+
     if (!indexFile_.is_open() || !dataFile_.is_open())
       throw std::domain_error("Cannot open string table: " + indexPath);
 
@@ -115,7 +122,7 @@ class StringTable::StringTableImpl {
     ensureWritten(dataFile_);
 
     // write index entry
-    indexFile_.seekp(0, ios::end);
+    indexFile_.seekp(static_cast<std::streamoff>(nextId_)*sizeof(std::uint32_t)*2, ios::beg);
     indexFile_.write(reinterpret_cast<char *>(&hash), sizeof(hash));
     indexFile_.write(reinterpret_cast<char *>(&offset), sizeof(offset));
     indexFile_.flush();
@@ -125,14 +132,27 @@ class StringTable::StringTableImpl {
     offsets_.push_back(offset);
   }
 
-  /// Throws if last write has failed, stream can be used later.
-  static void ensureWritten(std::fstream &file) {
+  void openFiles() {
+    indexFile_.open(indexPath_, ios::in | ios::out | ios::binary);
+    dataFile_.open(dataPath_, ios::in | ios::out | ios::binary | ios::app);
+  }
+
+  /// Throws if last write has failed, files can be used later.
+  void ensureWritten(const std::fstream &file) {
     if (file.good()) return;
 
-    file.clear();
+    // NOTE data which cannot be written should not be kept by stream till next write.
+    indexFile_.close();
+    dataFile_.close();
+    indexFile_.clear();
+    dataFile_.clear();
+    openFiles();
+
     throw std::runtime_error("Cannot write to string table.");
   }
 
+  const std::string indexPath_;
+  const std::string dataPath_;
   std::fstream indexFile_;
   std::fstream dataFile_;
   std::uint32_t seed_;
-- 
2.43.0


From bce8269b9df21420015c8f8a6bce2712ee79fefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 067/114] fix: apply all rules given for one element id (all
 but first were ignored)

---
 core/src/mapcss/StyleProvider.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index b2099c4..566f65f 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -338,8 +338,10 @@ class StyleProvider::StyleProviderImpl {
     });
 
     for (int i = selector.zoom.start; i <= selector.zoom.end; ++i) {
-      for (const auto &filterPair : filter)
-        filters.elements[i].emplace(filterPair);
+      for (const auto &filterPair : filter) {
+        auto &styles = filters.elements[i][filterPair.first];
+        styles.insert(styles.end(), filterPair.second.begin(), filterPair.second.end());
+      }
     }
   }
 
-- 
2.43.0


From a2abb0a32eb0937fe009dc44816d47090840279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 068/114] fix: multiply and divide before adding in style
 expressions

---
 core/src/mapcss/StyleEvaluator.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/core/src/mapcss/StyleEvaluator.hpp b/core/src/mapcss/StyleEvaluator.hpp
index 355a1f8..792c215 100644
--- a/core/src/mapcss/StyleEvaluator.hpp
+++ b/core/src/mapcss/StyleEvaluator.hpp
@@ -110,20 +110,22 @@ struct StyleEvaluator final {
     }
 
     double visit(const Tree &tree) const {
-      double state = boost::apply_visitor(*this, tree.first);
+      // NOTE multiplication and division take precedence: sum contains everything except last term.
+      double sum = 0;
+      double term = boost::apply_visitor(*this, tree.first);
       for (const Operation &op : tree.rest)
-        apply(op, state);
-      return state;
+        apply(op, sum, term);
+      return sum + term;
     }
 
   private:
-    void apply(const Operation &o, double& state) const {
+    void apply(const Operation &o, double &sum, double &term) const {
       double rhs = boost::apply_visitor(*this, o.operand);
       switch (o.operator_) {
-        case '+': state += rhs; break;
-        case '-': state -= rhs; break;
-        case '*': state *= rhs; break;
-        case '/': state /= rhs; break;
+        case '+': sum += term; term = rhs; break;
+        case '-': sum += term; term = -rhs; break;
+        case '*': term *= rhs; break;
+        case '/': term /= rhs; break;
         default: return;
       }
     }
-- 
2.43.0


From 11b8bbf3a1d1320e13161229a672a7aa8e797cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 069/114] fix: use last color of gradient after its end (color
 was extrapolated)

---
 core/src/mapcss/ColorGradient.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/mapcss/ColorGradient.hpp b/core/src/mapcss/ColorGradient.hpp
index 132e44b..5316ce6 100644
--- a/core/src/mapcss/ColorGradient.hpp
+++ b/core/src/mapcss/ColorGradient.hpp
@@ -47,7 +47,8 @@ class ColorGradient final {
 
     double timeA = pairA.first;
     double timeB = pairB.first;
-    double mu = index==0 ? 0 : (time - timeA)/(timeB - timeA);
+    // NOTE time is after last color or colors have the same time.
+    double mu = index==0 ? 0 : time >= timeB ? 1 : (time - timeA)/(timeB - timeA);
 
     return interpolate(pairA.second, pairB.second, mu);
   }
-- 
2.43.0


From cce5dab4afed72c274ee6dc6229c6ba3651beb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 070/114] fix: read colors in short notation (memory after the
 string was read)

---
 core/src/utils/GradientUtils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/utils/GradientUtils.cpp b/core/src/utils/GradientUtils.cpp
index ae2b972..cb748b8 100644
--- a/core/src/utils/GradientUtils.cpp
+++ b/core/src/utils/GradientUtils.cpp
@@ -229,6 +229,13 @@ inline Color fromName(const std::string &colorStr) {
 
 /// Gets integer representation of color from color string.
 inline Color fromHex(const std::string &colorStr) {
+  // NOTE short notation: each digit is repeated
+  if (colorStr.size()==4)
+    return Color(hexToInt(colorStr[1])*17, hexToInt(colorStr[2])*17, hexToInt(colorStr[3])*17, 255);
+
+  if (colorStr.size()!=7)
+    throw std::invalid_argument(std::string("Unknown color:") + colorStr);
+
   auto r = hexToInt(colorStr[2]) + hexToInt(colorStr[1])*16;
   auto g = hexToInt(colorStr[4]) + hexToInt(colorStr[3])*16;
   auto b = hexToInt(colorStr[6]) + hexToInt(colorStr[5])*16;
-- 
2.43.0


From be493ff12dd72fde91463208b6abc881c2f57d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 071/114] fix: read colors given by components (were grey)

---
 core/src/utils/GradientUtils.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/core/src/utils/GradientUtils.cpp b/core/src/utils/GradientUtils.cpp
index cb748b8..7c6e126 100644
--- a/core/src/utils/GradientUtils.cpp
+++ b/core/src/utils/GradientUtils.cpp
@@ -241,6 +241,24 @@ inline Color fromHex(const std::string &colorStr) {
   auto b = hexToInt(colorStr[6]) + hexToInt(colorStr[5])*16;
   return Color(r, g, b, 255);
 }
+
+/// Gets color from its components: rgb(0, 128, 255) or rgb(0%, 50%, 100%).
+inline Color fromRgb(const std::string &colorStr) {
+  int values[3] = {0, 0, 0};
+  std::stringstream ss(colorStr.substr(colorStr.find('(') + 1));
+  std::string part;
+  for (int i = 0; i < 3 && std::getline(ss, part, ','); ++i) {
+    double value = std::strtod(part.c_str(), nullptr);
+    if (part.find('%')!=std::string::npos)
+      value *= 2.55;
+    values[i] = static_cast<int>(std::max(0., std::min(value, 255.)) + 0.5);
+  }
+  return Color(values[0], values[1], values[2], 255);
+}
+
+inline bool isRgb(const std::string &colorStr) {
+  return colorStr.compare(0, 4, "rgb(")==0 || colorStr.compare(0, 5, "rgb (")==0;
+}
 }
 
 /// TODO assume that regex is thread safe
@@ -262,6 +280,11 @@ std::unique_ptr<const ColorGradient> GradientUtils::parseGradient(const std::str
   for (std::sregex_iterator iter = begin; iter!=end; ++iter) {
     std::stringstream ss(iter->str());
     std::pair<double, Color> pair(iter==begin ? 0 : 1, 0);
+    if (isRgb(iter->str())) {
+      pair.second = parseColor(iter->str());
+      data.push_back(pair);
+      continue;
+    }
     std::string partStr;
     int part = 0;
     while (std::getline(ss, partStr, ' ')) {
@@ -292,6 +315,9 @@ bool GradientUtils::isGradient(const std::string &gradientStr) {
 }
 
 Color GradientUtils::parseColor(const std::string &colorStr) {
+  if (isRgb(colorStr))
+    return fromRgb(colorStr);
+
   return colorStr[0]=='#' ? fromHex(colorStr) : fromName(colorStr);
 }
 
-- 
2.43.0


From 2c83f5b516e13a200d7ce492374897cec6db9107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 072/114] fix: read gradient position without unit or with
 space before unit

---
 core/src/utils/GradientUtils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/utils/GradientUtils.cpp b/core/src/utils/GradientUtils.cpp
index 7c6e126..00ad3c2 100644
--- a/core/src/utils/GradientUtils.cpp
+++ b/core/src/utils/GradientUtils.cpp
@@ -293,8 +293,9 @@ std::unique_ptr<const ColorGradient> GradientUtils::parseGradient(const std::str
         continue;
       }
       // NOTE assume that for all intermediate colors time is always defined
-      // and skipped for first and last.
-      pair.first = utymap::utils::lexicalCast<double>(partStr.substr(0, partStr.size() - 1))/100.;
+      // and skipped for first and last. Unit might be skipped or separated by space.
+      if (!partStr.empty() && std::isdigit(static_cast<unsigned char>(partStr[0])))
+        pair.first = std::strtod(partStr.c_str(), nullptr)/100.;
     }
     data.push_back(pair);
   }
-- 
2.43.0


From 03f83b8d7c7379a7d56e332c528f3509b0ac0bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 073/114] fix: report texture atlas which cannot be read
 completely (rest of it was ignored)

---
 core/src/mapcss/TextureAtlasParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/mapcss/TextureAtlasParser.cpp b/core/src/mapcss/TextureAtlasParser.cpp
index ad94005..67c59c3 100644
--- a/core/src/mapcss/TextureAtlasParser.cpp
+++ b/core/src/mapcss/TextureAtlasParser.cpp
@@ -84,7 +84,7 @@ TextureAtlas parse(Iterator begin, Iterator end) {
   auto atlas = Atlas();
   AtlasGrammar<Iterator> grammar;
 
-  if (!phrase_parse(begin, end, grammar, qi::space, atlas))
+  if (!phrase_parse(begin, end, grammar, qi::space, atlas) || begin != end)
     throw utymap::MapCssException(std::string("Cannot parse texture atlas."));
 
   std::unordered_map<std::string, TextureGroup> groups;
-- 
2.43.0


From 02fbc22ec35280087432dd1e10be37c567e6b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 074/114] fix: pitch and roll of the turtle rotate around its
 own axes, an unbalanced restore is reported

---
 core/src/lsys/Turtle3d.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/src/lsys/Turtle3d.cpp b/core/src/lsys/Turtle3d.cpp
index 34ea2d9..e1dba90 100644
--- a/core/src/lsys/Turtle3d.cpp
+++ b/core/src/lsys/Turtle3d.cpp
@@ -2,6 +2,8 @@
 #include "lsys/LSystem.hpp"
 #include "utils/MathUtils.hpp"
 
+#include <stdexcept>
+
 using namespace utymap::lsys;
 using namespace utymap::math;
 
@@ -31,19 +33,19 @@ void Turtle3d::turnAround() {
 }
 
 void Turtle3d::pitchUp() {
-  state_.direction = createRotation(angle_)*state_.direction;
+  state_.direction = Quaternion::fromAngleAxis(angle_, state_.right)*state_.direction;
 }
 
 void Turtle3d::pitchDown() {
-  state_.direction = createRotation(-angle_)*state_.direction;
+  state_.direction = Quaternion::fromAngleAxis(-angle_, state_.right)*state_.direction;
 }
 
 void Turtle3d::rollLeft() {
-  state_.right = createRotation(-angle_)*state_.right;
+  state_.right = Quaternion::fromAngleAxis(-angle_, state_.direction)*state_.right;
 }
 
 void Turtle3d::rollRight() {
-  state_.right = createRotation(angle_)*state_.right;
+  state_.right = Quaternion::fromAngleAxis(angle_, state_.direction)*state_.right;
 }
 
 void Turtle3d::increment() {
@@ -71,6 +73,9 @@ void Turtle3d::save() {
 }
 
 void Turtle3d::restore() {
+  if (states_.empty())
+    throw std::domain_error("Cannot restore turtle's state: nothing is saved.");
+
   state_ = states_.top();
   states_.pop();
 }
-- 
2.43.0


From 755874e9bea1aab3b8109816fb555cb3f26c69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 075/114] fix: l-system text is parsed completely: productions
 after an empty line are kept, unknown text is reported

---
 core/src/lsys/LSystemParser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/lsys/LSystemParser.cpp b/core/src/lsys/LSystemParser.cpp
index fe37c0e..519f652 100644
--- a/core/src/lsys/LSystemParser.cpp
+++ b/core/src/lsys/LSystemParser.cpp
@@ -87,7 +87,7 @@ template<typename Iterator>
 struct CommentSkipper : qi::grammar<Iterator> {
   CommentSkipper() : CommentSkipper::base_type(start, "comment") {
     start =
-        ' ' | '#' >> *(qi::char_ - '\n') >> '\n';
+        ' ' | '#' >> *(qi::char_ - '\n') >> ('\n' | qi::eoi);
     start.name("comment");
   }
   qi::rule<Iterator> start;
@@ -120,7 +120,7 @@ struct ProductionGrammar : qi::grammar<Iterator, ProductionMap(), CommentSkipper
 
     start =
       (rule > probability > "->" >
-      +rule)[inserter(qi::_val, qi::_1, qi::_2, qi::_3)]%'\n';
+      +rule)[inserter(qi::_val, qi::_1, qi::_2, qi::_3)]%+qi::lit('\n');
   }
 
   boost::phoenix::function<ProductionInserter> inserter;
@@ -169,6 +169,11 @@ void parse(Iterator begin, Iterator end, LSystem &lsystem) {
 
   if (!phrase_parse(begin, end, grammar, skipper, lsystem))
     throw std::domain_error(std::string("Cannot parse lsystem:") + grammar.error.str());
+
+  // NOTE nothing except empty lines and comments can follow productions.
+  qi::phrase_parse(begin, end, *ascii::space, skipper);
+  if (begin!=end)
+    throw std::domain_error(std::string("Cannot parse lsystem completely, unexpected: ") + std::string(begin, end));
 }
 }
 
-- 
2.43.0


From 747d991be1931551fd93157df653051549e22855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 076/114] fix: the style of the l-system turtle is restored
 together with its state

---
 core/src/builders/generators/LSystemGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/builders/generators/LSystemGenerator.cpp b/core/src/builders/generators/LSystemGenerator.cpp
index 68c4ce0..ab29d5b 100644
--- a/core/src/builders/generators/LSystemGenerator.cpp
+++ b/core/src/builders/generators/LSystemGenerator.cpp
@@ -94,6 +94,11 @@ class DickTurtle : public Turtle3d {
     updateStyles();
   }
 
+  void restore() override {
+    Turtle3d::restore();
+    updateStyles();
+  }
+
  private:
   void addSphere() {
     icoSphereGenerator_
-- 
2.43.0


From b98aaec5b4f5d6eccda2548160f6911d8fb7723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 077/114] fix: pitch up turns the turtle towards its upper
 side, roll left lowers its left side

---
 core/src/lsys/Turtle3d.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/lsys/Turtle3d.cpp b/core/src/lsys/Turtle3d.cpp
index e1dba90..29983b5 100644
--- a/core/src/lsys/Turtle3d.cpp
+++ b/core/src/lsys/Turtle3d.cpp
@@ -33,19 +33,19 @@ void Turtle3d::turnAround() {
 }
 
 void Turtle3d::pitchUp() {
-  state_.direction = Quaternion::fromAngleAxis(angle_, state_.right)*state_.direction;
+  state_.direction = Quaternion::fromAngleAxis(-angle_, state_.right)*state_.direction;
 }
 
 void Turtle3d::pitchDown() {
-  state_.direction = Quaternion::fromAngleAxis(-angle_, state_.right)*state_.direction;
+  state_.direction = Quaternion::fromAngleAxis(angle_, state_.right)*state_.direction;
 }
 
 void Turtle3d::rollLeft() {
-  state_.right = Quaternion::fromAngleAxis(-angle_, state_.direction)*state_.right;
+  state_.right = Quaternion::fromAngleAxis(angle_, state_.direction)*state_.right;
 }
 
 void Turtle3d::rollRight() {
-  state_.right = Quaternion::fromAngleAxis(angle_, state_.direction)*state_.right;
+  state_.right = Quaternion::fromAngleAxis(-angle_, state_.direction)*state_.right;
 }
 
 void Turtle3d::increment() {
-- 
2.43.0


From beed95f4e91f4de1c83b49a48115ad320fbc2e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 078/114] fix: shapefile import delivers all parts of multipart
 lines, keeps rings by their direction, closes its handles and reports
 incomplete files

---
 core/src/formats/shape/ShapeDataVisitor.hpp |  11 +-
 core/src/formats/shape/ShapeParser.hpp      | 105 ++++++++++++--------
 2 files changed, 74 insertions(+), 42 deletions(-)

diff --git a/core/src/formats/shape/ShapeDataVisitor.hpp b/core/src/formats/shape/ShapeDataVisitor.hpp
index f39da0a..37332c8 100644
--- a/core/src/formats/shape/ShapeDataVisitor.hpp
+++ b/core/src/formats/shape/ShapeDataVisitor.hpp
@@ -12,6 +12,7 @@
 #include "formats/FormatTypes.hpp"
 #include "index/StringTable.hpp"
 #include "utils/ElementUtils.hpp"
+#include "utils/GeometryUtils.hpp"
 
 #include <algorithm>
 #include <functional>
@@ -53,6 +54,10 @@ struct ShapeDataVisitor final {
       utymap::entities::Area area;
       area.id = 0;
       area.coordinates = std::move(coordinates);
+      // NOTE area is not closed explicitly and has counter clockwise orientation.
+      area.coordinates.pop_back();
+      if (utymap::utils::isClockwise(area.coordinates))
+        std::reverse(area.coordinates.begin(), area.coordinates.end());
       utymap::utils::setTags(stringTable_, area, tags);
       if (add(area))
         areas++;
@@ -70,7 +75,7 @@ struct ShapeDataVisitor final {
     utymap::entities::Relation relation;
     relation.id = 0;
     utymap::utils::setTags(stringTable_, relation, tags);
-    for (const auto &member : members) {
+    for (auto &member : members) {
       if (member.coordinates.size()==1) {
         auto node = std::make_shared<utymap::entities::Node>();
         node->id = 0;
@@ -80,6 +85,10 @@ struct ShapeDataVisitor final {
         auto area = std::make_shared<utymap::entities::Area>();
         area->id = 0;
         area->coordinates = std::move(member.coordinates);
+        // NOTE outer rings of shape file are clockwise, inner ones are counter clockwise.
+        if (area->coordinates.front()==area->coordinates.back())
+          area->coordinates.pop_back();
+        std::reverse(area->coordinates.begin(), area->coordinates.end());
         relation.elements.push_back(area);
       } else {
         auto way = std::make_shared<utymap::entities::Way>();
diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index 914eb20..7020295 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -9,8 +9,10 @@
 #include "shapefile/shapefil.h"
 
 #include <iostream>
+#include <memory>
 #include <string>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace utymap {
@@ -21,37 +23,43 @@ class ShapeParser final {
  public:
 
   void parse(const std::string &path, Visitor &visitor) const {
-    SHPHandle shpFile = SHPOpen(path.c_str(), "rb");
-    if (shpFile==NULL)
+    std::shared_ptr<SHPInfo> shpFile(SHPOpen(path.c_str(), "rb"), [](SHPHandle handle) { if (handle!=NULL) SHPClose(handle); });
+    if (shpFile==nullptr)
       throw std::domain_error("Cannot open shp file.");
 
     int shapeType, entityCount;
     double adfMinBound[4], adfMaxBound[4];
-    SHPGetInfo(shpFile, &entityCount, &shapeType, adfMinBound, adfMaxBound);
+    SHPGetInfo(shpFile.get(), &entityCount, &shapeType, adfMinBound, adfMaxBound);
 
-    DBFHandle dbfFile = DBFOpen(path.c_str(), "rb");
-    if (dbfFile==NULL)
+    std::shared_ptr<DBFInfo> dbfFile(DBFOpen(path.c_str(), "rb"), [](DBFHandle handle) { if (handle!=NULL) DBFClose(handle); });
+    if (dbfFile==nullptr)
       throw std::domain_error("Cannot open dbf file.");
 
-    if (DBFGetFieldCount(dbfFile)==0)
+    int fieldCount = DBFGetFieldCount(dbfFile.get());
+    if (fieldCount==0)
       throw std::domain_error("There are no fields in dbf table.");
 
-    if (entityCount!=DBFGetRecordCount(dbfFile))
+    if (dbfFile->panFieldOffset[fieldCount - 1] + dbfFile->panFieldSize[fieldCount - 1] > dbfFile->nRecordLength)
+      throw std::domain_error("Fields do not fit into the record of dbf table.");
+
+    if (entityCount!=DBFGetRecordCount(dbfFile.get()))
       throw std::domain_error("dbf file has different entity count.");
 
+    // NOTE records are delivered only if all of them are valid.
+    std::vector<std::pair<std::shared_ptr<SHPObject>, Tags>> records;
     for (int k = 0; k < entityCount; k++) {
-      SHPObject *shape = SHPReadObject(shpFile, k);
-      if (shape==NULL)
+      std::shared_ptr<SHPObject> shape(SHPReadObject(shpFile.get(), k), [](SHPObject *object) { if (object!=NULL) SHPDestroyObject(object); });
+      if (shape==nullptr)
         throw std::domain_error("Unable to read shape:" + utymap::utils::toString(k));
 
-      Tags tags = parseTags(dbfFile, k);
-      visitShape(*shape, tags, visitor);
+      if (DBFReadTuple(dbfFile.get(), k)==NULL)
+        throw std::domain_error("Unable to read record of dbf table:" + utymap::utils::toString(k));
 
-      SHPDestroyObject(shape);
+      records.push_back(std::make_pair(shape, parseTags(dbfFile.get(), k)));
     }
 
-    DBFClose(dbfFile);
-    SHPClose(shpFile);
+    for (auto &record : records)
+      visitShape(*record.first, record.second, visitor);
   }
 
  private:
@@ -71,9 +79,9 @@ class ShapeParser final {
       tag.key = std::string(title);
       {
         switch (eType) {
-          case FTString:tag.value = DBFReadStringAttribute(dbfFile, k, i);
-            break;
-          case FTInteger:tag.value = utymap::utils::toString(DBFReadIntegerAttribute(dbfFile, k, i));
+          case FTString:
+          case FTLogical:
+          case FTInteger:tag.value = DBFReadStringAttribute(dbfFile, k, i);
             break;
           case FTDouble:tag.value = utymap::utils::toString(DBFReadDoubleAttribute(dbfFile, k, i));
             break;
@@ -110,45 +118,60 @@ class ShapeParser final {
   }
 
   void visitPoint(const SHPObject &shape, Tags &tags, Visitor &visitor) const {
+    if (shape.nVertices==0) return;
+
     utymap::GeoCoordinate coordinate(shape.padfY[0], shape.padfX[0]);
     visitor.visitNode(coordinate, tags);
   }
 
   void visitArc(const SHPObject &shape, Tags &tags, Visitor &visitor) const {
+    if (shape.nVertices==0) return;
+
+    // NOTE each part of arc is separate line
     if (shape.nParts > 1) {
-      std::cerr << "Arc type has more than one part.";
+      auto members = getMembers(shape);
+      for (auto &member : members)
+        member.isRing = isRing(member.coordinates);
+      visitor.visitRelation(members, tags);
       return;
     }
 
-    std::vector<utymap::GeoCoordinate> coordinates;
-    coordinates.reserve(static_cast<std::size_t>(shape.nVertices));
-    for (int i = 0; i < shape.nVertices; ++i) {
-      coordinates.push_back(utymap::GeoCoordinate(shape.padfY[i], shape.padfX[i]));
-    }
-
-    visitor.visitWay(coordinates, tags, coordinates[0]==coordinates[coordinates.size() - 1]);
+    auto coordinates = getCoordinates(shape, 0, shape.nVertices);
+    visitor.visitWay(coordinates, tags, isRing(coordinates));
   }
 
   void visitPolygon(const SHPObject &shape, Tags &tags, Visitor &visitor) const {
+    if (shape.nVertices==0 || shape.nParts==0) return;
+
+    auto members = getMembers(shape);
+    visitor.visitRelation(members, tags);
+  }
+
+  static bool isRing(const Coordinates &coordinates) {
+    return coordinates.size() > 3 && coordinates[0]==coordinates[coordinates.size() - 1];
+  }
+
+  static Coordinates getCoordinates(const SHPObject &shape, int startIndex, int endIndex) {
+    Coordinates coordinates;
+    coordinates.reserve(static_cast<std::size_t>(endIndex - startIndex));
+    for (int i = startIndex; i < endIndex; ++i)
+      coordinates.push_back(utymap::GeoCoordinate(shape.padfY[i], shape.padfX[i]));
+    return coordinates;
+  }
+
+  /// Gets parts of shape.
+  static PolygonMembers getMembers(const SHPObject &shape) {
     PolygonMembers members;
     members.reserve(static_cast<std::size_t>(shape.nParts));
-    std::size_t coordIndex = 0;
-    for (std::size_t i = 0, partNum = 0; i < shape.nVertices; ++i) {
-      int startIndex = shape.panPartStart[partNum];
-      if (partNum < shape.nParts && startIndex==i) {
-        coordIndex = static_cast<std::size_t>(partNum);
-        members.push_back(PolygonMember());
-        // TODO check inner/outer? Check whether this flag is true for closed polygon only
-        members[partNum].isRing = shape.panPartType[partNum]==SHPP_RING;
-        int endIndex = partNum==shape.nParts - 1
-                       ? shape.nVertices
-                       : shape.panPartStart[partNum + 1];
-        members[coordIndex].coordinates.reserve(static_cast<std::size_t>(endIndex - startIndex));
-        ++partNum;
-      }
-      members[coordIndex].coordinates.push_back(utymap::GeoCoordinate(shape.padfY[i], shape.padfX[i]));
+    for (int i = 0; i < shape.nParts; ++i) {
+      PolygonMember member;
+      // TODO check inner/outer? Check whether this flag is true for closed polygon only
+      member.isRing = shape.panPartType[i]==SHPP_RING;
+      member.coordinates = getCoordinates(shape, shape.panPartStart[i],
+                                          i==shape.nParts - 1 ? shape.nVertices : shape.panPartStart[i + 1]);
+      members.push_back(member);
     }
-    visitor.visitRelation(members, tags);
+    return members;
   }
 };
 
-- 
2.43.0


From 79ee4ec91abe1ad68c7165f8f3759197aa2829f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 079/114] fix: pbf parser checks sizes and indices found in the
 file

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 63 +++++++++++++++++------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index 89f502d..df0f139 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -68,9 +68,10 @@ class OsmPbfParser final {
     }
 
     // little endian to big endian
-    sz = (((sz & 0xff) << 24) + ((sz & 0xff00) << 8) + ((sz & 0xff0000) >> 8) + ((sz >> 24) & 0xff));
+    std::uint32_t usz = static_cast<std::uint32_t>(sz);
+    sz = static_cast<std::int32_t>((usz << 24) | ((usz & 0xff00) << 8) | ((usz & 0xff0000) >> 8) | (usz >> 24));
 
-    if (sz > MaxBlobHeaderSize)
+    if (sz < 0 || sz > MaxBlobHeaderSize)
       throw std::domain_error("Blob header size is bigger than allowed");
 
     stream.read(buffer_.data(), sz);
@@ -88,7 +89,7 @@ class OsmPbfParser final {
 
     std::int32_t sz = header.datasize();
 
-    if (sz > MaxUncompressedBlobSize)
+    if (sz < 0 || sz > MaxUncompressedBlobSize)
       throw std::domain_error("Blob size is bigger then allowed");
 
     if (!stream.read(buffer_.data(), sz))
@@ -99,6 +100,7 @@ class OsmPbfParser final {
 
     // uncompressed
     if (blob.has_raw()) {
+      // NOTE raw data is a part of the blob, so it fits into the buffer.
       sz = static_cast<std::int32_t>(blob.raw().size());
       memcpy(unpack_buffer_.data(), blob.raw().data(), sz);
       return sz;
@@ -107,6 +109,9 @@ class OsmPbfParser final {
     if (blob.has_zlib_data()) {
       sz = static_cast<std::int32_t>(blob.zlib_data().size());
 
+      if (blob.raw_size() < 0 || blob.raw_size() > MaxUncompressedBlobSize)
+        throw std::domain_error("Uncompressed blob size is bigger then allowed");
+
       z_stream z;
       z.next_in = (unsigned char *) blob.zlib_data().c_str();
       z.avail_in = sz;
@@ -119,8 +124,10 @@ class OsmPbfParser final {
       if (inflateInit(&z)!=Z_OK)
         throw std::domain_error("Failed to init zlib stream");
 
-      if (inflate(&z, Z_FINISH)!=Z_STREAM_END)
+      if (inflate(&z, Z_FINISH)!=Z_STREAM_END) {
+        inflateEnd(&z);
         throw std::domain_error("Failed to inflate zlib stream");
+      }
 
       if (inflateEnd(&z)!=Z_OK)
         throw std::domain_error("Failed to deinit zlib stream");
@@ -147,8 +154,8 @@ class OsmPbfParser final {
       for (int i = 0; i < pg.nodes_size(); ++i) {
         OSMPBF::Node n = pg.nodes(i);
         GeoCoordinate coordinate;
-        coordinate.latitude = 0.000000001*(primblock.lat_offset() + (primblock.granularity()*n.lat()));
-        coordinate.longitude = 0.000000001*(primblock.lon_offset() + (primblock.granularity()*n.lon()));
+        coordinate.latitude = toDegrees(primblock, primblock.lat_offset(), n.lat());
+        coordinate.longitude = toDegrees(primblock, primblock.lon_offset(), n.lon());
         std::uint64_t id = n.id();
         Tags tags;
         setTags(n, primblock, tags);
@@ -158,9 +165,13 @@ class OsmPbfParser final {
       // dense nodes
       if (pg.has_dense()) {
         OSMPBF::DenseNodes dn = pg.dense();
+        if (dn.lat_size()!=dn.id_size() || dn.lon_size()!=dn.id_size())
+          throw std::domain_error("Dense nodes have different amount of ids and coordinates");
+
+        // NOTE unsigned types are used as deltas might be arbitrary in invalid data.
         uint64_t id = 0;
-        std::int64_t lon = 0;
-        std::int64_t lat = 0;
+        std::uint64_t lon = 0;
+        std::uint64_t lat = 0;
 
         int current_kv = 0;
 
@@ -172,17 +183,20 @@ class OsmPbfParser final {
           Tags tags;
           tags.reserve(2);
           while (current_kv < dn.keys_vals_size() && dn.keys_vals(current_kv)!=0) {
+            if (current_kv + 1==dn.keys_vals_size())
+              throw std::domain_error("Dense node has key without value");
+
             auto key = dn.keys_vals(current_kv);
             auto val = dn.keys_vals(current_kv + 1);
             Tag tag;
-            tag.key = primblock.stringtable().s(key);
-            tag.value = primblock.stringtable().s(val);
+            tag.key = getString(primblock, key);
+            tag.value = getString(primblock, val);
             current_kv += 2;
             tags.push_back(tag);
           }
           ++current_kv;
-          GeoCoordinate coordinate(0.000000001*(primblock.lat_offset() + (primblock.granularity()*lat)),
-                                   0.000000001*(primblock.lon_offset() + (primblock.granularity()*lon)));
+          GeoCoordinate coordinate(toDegrees(primblock, primblock.lat_offset(), static_cast<std::int64_t>(lat)),
+                                   toDegrees(primblock, primblock.lon_offset(), static_cast<std::int64_t>(lon)));
           visitor.visitNode(id, coordinate, tags);
         }
       }
@@ -206,6 +220,9 @@ class OsmPbfParser final {
       for (int i = 0; i < pg.relations_size(); ++i) {
         OSMPBF::Relation rel = pg.relations(i);
         uint64_t id = 0;
+        if (rel.roles_sid_size()!=rel.memids_size() || rel.types_size()!=rel.memids_size())
+          throw std::domain_error("Relation has different amount of member ids, roles and types");
+
         RelationMembers refs;
         refs.reserve(rel.memids_size());
         for (int l = 0; l < rel.memids_size(); ++l) {
@@ -213,7 +230,7 @@ class OsmPbfParser final {
           RelationMember member;
           member.refId = id;
           member.type = parseType(rel, l);
-          member.role = primblock.stringtable().s(rel.roles_sid(l));
+          member.role = getString(primblock, rel.roles_sid(l));
           refs.push_back(member);
         }
 
@@ -236,16 +253,32 @@ class OsmPbfParser final {
 
   template<typename T>
   void setTags(const T &object, const OSMPBF::PrimitiveBlock &primblock, Tags &tags) {
+    if (object.vals_size()!=object.keys_size())
+      throw std::domain_error("Element has different amount of keys and values");
+
     tags.reserve(object.keys_size());
     for (int i = 0; i < object.keys_size(); ++i) {
       Tag tag;
       auto key = object.keys(i);
       auto val = object.vals(i);
-      tag.key = primblock.stringtable().s(key);
-      tag.value = primblock.stringtable().s(val);
+      tag.key = getString(primblock, key);
+      tag.value = getString(primblock, val);
       tags.push_back(tag);
     }
   }
+
+  /// Gets string from string table by its index.
+  static const std::string &getString(const OSMPBF::PrimitiveBlock &primblock, std::int64_t index) {
+    if (index < 0 || index >= primblock.stringtable().s_size())
+      throw std::domain_error("Invalid index of string table");
+
+    return primblock.stringtable().s(static_cast<int>(index));
+  }
+
+  /// Converts encoded coordinate to degrees.
+  static double toDegrees(const OSMPBF::PrimitiveBlock &primblock, std::int64_t offset, std::int64_t value) {
+    return 0.000000001*(static_cast<double>(offset) + static_cast<double>(primblock.granularity())*static_cast<double>(value));
+  }
 };
 
 }
-- 
2.43.0


From d44663b8d499d0bce6dbc4b78831caa3334afb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 080/114] fix: shapefile library rejects record sizes which
 overflow

---
 core/lib/shapefile/shpopen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/shapefile/shpopen.c b/core/lib/shapefile/shpopen.c
index ee9fce5..7ff7c02 100644
--- a/core/lib/shapefile/shpopen.c
+++ b/core/lib/shapefile/shpopen.c
@@ -1588,6 +1588,11 @@ SHPReadObject( SHPHandle psSHP, int hEntity )
 /* -------------------------------------------------------------------- */
 /*      Ensure our record buffer is large enough.                       */
 /* -------------------------------------------------------------------- */
+    if( psSHP->panRecSize[hEntity] > 0x7fffffff - 8 )
+    {
+        psSHP->sHooks.Error( "Corrupted .shx file : record is too big" );
+        return( NULL );
+    }
     nEntitySize = psSHP->panRecSize[hEntity]+8;
     if( nEntitySize > psSHP->nBufSize )
     {
-- 
2.43.0


From dfeb319b2b0e5ceb408dcd0b71f1454115399e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 081/114] fix: elements with impossible coordinates are
 rejected, import into a tile visits this tile only

---
 core/src/index/ElementGeometryVisitor.hpp | 22 +++++++++++++----
 core/src/index/ElementStore.cpp           | 29 +++++++++++++----------
 core/src/index/ElementStore.hpp           |  2 +-
 core/src/utils/GeoUtils.hpp               | 26 ++++++++++++++++----
 4 files changed, 56 insertions(+), 23 deletions(-)

diff --git a/core/src/index/ElementGeometryVisitor.hpp b/core/src/index/ElementGeometryVisitor.hpp
index aecf1fa..11da8e3 100644
--- a/core/src/index/ElementGeometryVisitor.hpp
+++ b/core/src/index/ElementGeometryVisitor.hpp
@@ -9,24 +9,30 @@
 #include "entities/Relation.hpp"
 #include "entities/ElementVisitor.hpp"
 
+#include <cmath>
+
 namespace utymap {
 namespace index {
 
-/// Creates bounding box of given element.
+/// Creates bounding box of given element and checks its coordinates.
 class ElementGeometryVisitor : public utymap::entities::ElementVisitor {
  public:
   utymap::BoundingBox boundingBox;
+  /// False if some coordinate is not a number or lies far outside of the earth.
+  bool hasValidCoordinates = true;
 
   void visitNode(const utymap::entities::Node &node) override {
-    boundingBox.expand(node.coordinate);
+    expand(node.coordinate);
   }
 
   void visitWay(const utymap::entities::Way &way) override {
-    boundingBox.expand(way.coordinates.cbegin(), way.coordinates.cend());
+    for (const auto &coordinate : way.coordinates)
+      expand(coordinate);
   }
 
   void visitArea(const utymap::entities::Area &area) override {
-    boundingBox.expand(area.coordinates.cbegin(), area.coordinates.cend());
+    for (const auto &coordinate : area.coordinates)
+      expand(coordinate);
   }
 
   void visitRelation(const utymap::entities::Relation &relation) override {
@@ -42,6 +48,14 @@ class ElementGeometryVisitor : public utymap::entities::ElementVisitor {
     element.accept(visitor);
     return bbox.intersects(visitor.boundingBox);
   }
+
+ private:
+  void expand(const utymap::GeoCoordinate &coordinate) {
+    // NOTE negative form is used to catch NaN.
+    if (!(std::abs(coordinate.latitude) <= 360 && std::abs(coordinate.longitude) <= 360))
+      hasValidCoordinates = false;
+    boundingBox.expand(coordinate);
+  }
 };
 
 }
diff --git a/core/src/index/ElementStore.cpp b/core/src/index/ElementStore.cpp
index 269c0c4..367b4f4 100644
--- a/core/src/index/ElementStore.cpp
+++ b/core/src/index/ElementStore.cpp
@@ -11,12 +11,16 @@
 #include "index/ElementStore.hpp"
 #include <mapcss/StyleConsts.hpp>
 
+#include <functional>
+#include <stdexcept>
+
 using namespace utymap;
 using namespace utymap::entities;
 using namespace utymap::formats;
 using namespace utymap::mapcss;
 
 namespace {
+ using TileVisitor = std::function<void(const QuadKey &, const BoundingBox &)>;
  const std::string TrueValue = "true";
 }
 
@@ -29,19 +33,17 @@ ElementStore::ElementStore(const StringTable &stringTable) :
 }
 
 bool ElementStore::store(const Element &element, const utymap::LodRange &range, const StyleProvider &styleProvider) {
-  return store(element, range, styleProvider, [&](const BoundingBox &, const BoundingBox &) {
-    return true;
+  return store(element, range, styleProvider, [](const BoundingBox &elementBbox, int lod, const TileVisitor &visitor) {
+    utymap::utils::GeoUtils::visitTileRange(elementBbox, lod, visitor);
   });
 }
 
 bool ElementStore::store(const Element &element, const QuadKey &quadKey, const StyleProvider &styleProvider) {
-  const BoundingBox expectedQuadKeyBbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
   return store(element,
                LodRange(quadKey.levelOfDetail, quadKey.levelOfDetail),
                styleProvider,
-               [&](const BoundingBox &elementBoundingBox, const BoundingBox &quadKeyBbox) {
-                 return elementBoundingBox.intersects(expectedQuadKeyBbox) &&
-                     expectedQuadKeyBbox.center()==quadKeyBbox.center();
+               [&](const BoundingBox &elementBbox, int, const TileVisitor &visitor) {
+                 utymap::utils::GeoUtils::visitTileInRange(elementBbox, quadKey, visitor);
                });
 }
 
@@ -52,8 +54,9 @@ bool ElementStore::store(const Element &element,
   return store(element,
                range,
                styleProvider,
-               [&](const BoundingBox &elementBoundingBox, const BoundingBox &quadKeyBbox) {
-                 return elementBoundingBox.intersects(bbox);
+               [&](const BoundingBox &elementBbox, int lod, const TileVisitor &visitor) {
+                 if (elementBbox.intersects(bbox))
+                   utymap::utils::GeoUtils::visitTileRange(elementBbox, lod, visitor);
                });
 }
 
@@ -61,7 +64,7 @@ template<typename Visitor>
 bool ElementStore::store(const Element &element,
                          const LodRange &range,
                          const StyleProvider &styleProvider,
-                         const Visitor &visitor) {
+                         const Visitor &visitTiles) {
   ElementGeometryVisitor bboxVisitor;
   using namespace std::placeholders;
   std::map<utymap::QuadKey, std::unique_ptr<ElementGeometryClipper>, utymap::QuadKey::Comparator> geometryClippers;
@@ -75,11 +78,11 @@ bool ElementStore::store(const Element &element,
     if (!bboxVisitor.boundingBox.isValid())
       element.accept(bboxVisitor);
 
-    utymap::utils::GeoUtils::visitTileRange(bboxVisitor.boundingBox, lod,
-      [&](const QuadKey &quadKey, const BoundingBox &quadKeyBbox) {
-        if (!visitor(bboxVisitor.boundingBox, quadKeyBbox))
-          return;
+    if (!bboxVisitor.hasValidCoordinates)
+      throw std::invalid_argument("Element has invalid coordinates.");
 
+    visitTiles(bboxVisitor.boundingBox, lod,
+      [&](const QuadKey &quadKey, const BoundingBox &quadKeyBbox) {
         if (style.has(clipKeyId_, TrueValue)) {
           auto geometryClipperEntry = geometryClippers.find(quadKey);
           if (geometryClipperEntry == geometryClippers.end()) {
diff --git a/core/src/index/ElementStore.hpp b/core/src/index/ElementStore.hpp
index 5c3faea..617e8f2 100644
--- a/core/src/index/ElementStore.hpp
+++ b/core/src/index/ElementStore.hpp
@@ -68,7 +68,7 @@ class ElementStore {
   bool store(const utymap::entities::Element &element,
              const utymap::LodRange &range,
              const utymap::mapcss::StyleProvider &styleProvider,
-             const Visitor &visitor);
+             const Visitor &visitTiles);
 
   const std::uint32_t clipKeyId_, skipKeyId_;
 };
diff --git a/core/src/utils/GeoUtils.hpp b/core/src/utils/GeoUtils.hpp
index ae3cfd4..c1dc612 100644
--- a/core/src/utils/GeoUtils.hpp
+++ b/core/src/utils/GeoUtils.hpp
@@ -78,15 +78,24 @@ class GeoUtils final {
 
     for (int y = end.tileY; y < start.tileY + 1; y++) {
       for (int x = start.tileX; x < end.tileX + 1; x++) {
-        const QuadKey currentQuadKey = {levelOfDetail, x, y};
-        const BoundingBox currentBbox = quadKeyToBoundingBox(currentQuadKey);
-        if (bbox.intersects(currentBbox)) {
-          visitor(currentQuadKey, currentBbox);
-        }
+        visitTile(bbox, {levelOfDetail, x, y}, visitor);
       }
     }
   }
 
+  /// Visits given tile only if it would be visited as part of tile range of given bounding box.
+  template<typename Visitor>
+  static void visitTileInRange(const BoundingBox &bbox, const QuadKey &quadKey, const Visitor &visitor) {
+    if (!bbox.isValid()) return;
+
+    QuadKey start = GeoCoordinateToQuadKey(bbox.minPoint, quadKey.levelOfDetail);
+    QuadKey end = GeoCoordinateToQuadKey(bbox.maxPoint, quadKey.levelOfDetail);
+
+    if (quadKey.tileX >= start.tileX && quadKey.tileX <= end.tileX &&
+        quadKey.tileY >= end.tileY && quadKey.tileY <= start.tileY)
+      visitTile(bbox, quadKey, visitor);
+  }
+
   /// Checks whether given point inside polygon.
   template<typename Iter>
   static bool isPointInPolygon(const GeoCoordinate &point, Iter begin, Iter end) {
@@ -141,6 +150,13 @@ class GeoUtils final {
 
  private:
 
+  template<typename Visitor>
+  static void visitTile(const BoundingBox &bbox, const QuadKey &quadKey, const Visitor &visitor) {
+    const BoundingBox quadKeyBbox = quadKeyToBoundingBox(quadKey);
+    if (bbox.intersects(quadKeyBbox))
+      visitor(quadKey, quadKeyBbox);
+  }
+
   static int lonToTileX(double lon, int levelOfDetail) {
     return static_cast<int>(std::floor((lon + 180.0)/360.0*pow(2.0, levelOfDetail)));
   }
-- 
2.43.0


From 21c668629df0442d1998e51a68978e733992141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 082/114] fix: exceptions of any type are reported through the
 error callback

---
 core/shared/Common.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/Common.hpp b/core/shared/Common.hpp
index 4c59d7e..f83dffe 100644
--- a/core/shared/Common.hpp
+++ b/core/shared/Common.hpp
@@ -66,6 +66,10 @@ inline void safeExecute(const std::function<void()> &action, OnError *errorCallb
   catch (std::exception &ex) {
     errorCallback(ex.what());
   }
+  // NOTE some third party code throws objects which are not exceptions.
+  catch (...) {
+    errorCallback("Unknown error.");
+  }
 }
 
 #endif // COMMON_H_DEFINED
-- 
2.43.0


From 691bca81b4c81e8b0a90cc3ff97dde50b16298c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 083/114] fix: deeply nested or cyclic osm relations are
 reported

---
 core/src/formats/osm/OsmDataVisitor.cpp | 28 ++++++++++++++++++++++---
 core/src/formats/osm/OsmDataVisitor.hpp |  6 ++++--
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index 25dd6fc..74f2bd1 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -8,8 +8,15 @@
 #include "formats/osm/OsmDataVisitor.hpp"
 #include "utils/GeometryUtils.hpp"
 
+#include <algorithm>
+#include <stdexcept>
 #include <unordered_set>
 
+namespace {
+/// Max nesting level of relations.
+const std::size_t MaxRelationNesting = 100;
+}
+
 using namespace utymap;
 using namespace utymap::formats;
 using namespace utymap::entities;
@@ -89,9 +96,13 @@ bool OsmDataVisitor::resolve(Relation &relation) {
   // already resolved or is being resolved (cyclic reference)
   auto statePair = resolvedRelations_.find(relation.id);
   if (statePair!=resolvedRelations_.end())
-    return statePair->second;
+    return statePair->second!=0;
+
+  // NOTE relations are processed recursively everywhere, so their nesting has to be limited.
+  if (++resolvingCount_ > MaxRelationNesting)
+    throw std::domain_error("Nesting of relations is too deep.");
 
-  resolvedRelations_[relation.id] = false;
+  resolvedRelations_[relation.id] = 0;
   auto membersPair = relationMembers_.find(relation.id);
   auto resolveFunc = std::bind(&OsmDataVisitor::resolve, this, std::placeholders::_1);
 
@@ -103,7 +114,18 @@ bool OsmDataVisitor::resolve(Relation &relation) {
     RelationProcessor(relation, membersPair->second, context_, relationMembers_, resolveFunc).process();
   }
 
-  resolvedRelations_[relation.id] = true;
+  std::size_t level = 1;
+  for (const auto &member : membersPair->second) {
+    if (member.type=="n" || member.type=="w") continue;
+    auto memberPair = resolvedRelations_.find(member.refId);
+    if (memberPair!=resolvedRelations_.end())
+      level = std::max(level, memberPair->second + 1);
+  }
+  if (level > MaxRelationNesting)
+    throw std::domain_error("Nesting of relations is too deep.");
+
+  --resolvingCount_;
+  resolvedRelations_[relation.id] = level;
   return true;
 }
 
diff --git a/core/src/formats/osm/OsmDataVisitor.hpp b/core/src/formats/osm/OsmDataVisitor.hpp
index 84b017d..6c938d2 100644
--- a/core/src/formats/osm/OsmDataVisitor.hpp
+++ b/core/src/formats/osm/OsmDataVisitor.hpp
@@ -50,8 +50,10 @@ class OsmDataVisitor final {
   utymap::formats::OsmDataContext context_;
   utymap::BoundingBox bbox_;
   std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> relationMembers_;
-  /// Holds state of visited relations: false means that relation is being resolved.
-  std::unordered_map<std::uint64_t, bool> resolvedRelations_;
+  /// Holds nesting level of visited relations: zero means that relation is being resolved.
+  std::unordered_map<std::uint64_t, std::size_t> resolvedRelations_;
+  /// Amount of relations which are being resolved.
+  std::size_t resolvingCount_ = 0;
 };
 
 }
-- 
2.43.0


From ea59c6d4816cadc69b44858af7ff3470d8e674d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 084/114] fix: insertion of a segment into triangulation
 recursed without limit when precision is lost

---
 core/lib/triangle/triangle.c | 83 ++++++++++++++++++++----------------
 1 file changed, 47 insertions(+), 36 deletions(-)

diff --git a/core/lib/triangle/triangle.c b/core/lib/triangle/triangle.c
index 8ffaf25..25c0e73 100644
--- a/core/lib/triangle/triangle.c
+++ b/core/lib/triangle/triangle.c
@@ -11858,47 +11858,58 @@ int newmark;
   enum finddirectionresult collinear;
   subseg sptr;                      /* Temporary variable used by tspivot(). */
 
-  collinear = finddirection(m, b, searchtri, endpoint2);
-  dest(*searchtri, rightvertex);
-  apex(*searchtri, leftvertex);
-  if (((leftvertex[0] == endpoint2[0]) && (leftvertex[1] == endpoint2[1])) ||
-      ((rightvertex[0] == endpoint2[0]) && (rightvertex[1] == endpoint2[1]))) {
-    /* The segment is already an edge in the mesh. */
-    if ((leftvertex[0] == endpoint2[0]) && (leftvertex[1] == endpoint2[1])) {
+  /* Each pass reaches another vertex or splits another subsegment: there are  */
+  /*   no more passes than vertices and subsegments unless precision is lost.  */
+  long passes = m->vertices.items + m->subsegs.items;
+
+  for (; passes >= 0; passes--) {
+    collinear = finddirection(m, b, searchtri, endpoint2);
+    dest(*searchtri, rightvertex);
+    apex(*searchtri, leftvertex);
+    if (((leftvertex[0] == endpoint2[0]) && (leftvertex[1] == endpoint2[1])) ||
+        ((rightvertex[0] == endpoint2[0]) && (rightvertex[1] == endpoint2[1]))) {
+      /* The segment is already an edge in the mesh. */
+      if ((leftvertex[0] == endpoint2[0]) && (leftvertex[1] == endpoint2[1])) {
+        lprevself(*searchtri);
+      }
+      /* Insert a subsegment, if there isn't already one there. */
+      insertsubseg(m, b, searchtri, newmark);
+      return 1;
+    } else if (collinear == LEFTCOLLINEAR) {
+      /* We've collided with a vertex between the segment's endpoints. */
+      /* Make the collinear vertex be the triangle's origin. */
       lprevself(*searchtri);
-    }
-    /* Insert a subsegment, if there isn't already one there. */
-    insertsubseg(m, b, searchtri, newmark);
-    return 1;
-  } else if (collinear == LEFTCOLLINEAR) {
-    /* We've collided with a vertex between the segment's endpoints. */
-    /* Make the collinear vertex be the triangle's origin. */
-    lprevself(*searchtri);
-    insertsubseg(m, b, searchtri, newmark);
-    /* Insert the remainder of the segment. */
-    return scoutsegment(m, b, searchtri, endpoint2, newmark);
-  } else if (collinear == RIGHTCOLLINEAR) {
-    /* We've collided with a vertex between the segment's endpoints. */
-    insertsubseg(m, b, searchtri, newmark);
-    /* Make the collinear vertex be the triangle's origin. */
-    lnextself(*searchtri);
-    /* Insert the remainder of the segment. */
-    return scoutsegment(m, b, searchtri, endpoint2, newmark);
-  } else {
-    lnext(*searchtri, crosstri);
-    tspivot(crosstri, crosssubseg);
-    /* Check for a crossing segment. */
-    if (crosssubseg.ss == m->dummysub) {
-      return 0;
-    } else {
-      /* Insert a vertex at the intersection. */
-      segmentintersection(m, b, &crosstri, &crosssubseg, endpoint2);
-      otricopy(crosstri, *searchtri);
       insertsubseg(m, b, searchtri, newmark);
       /* Insert the remainder of the segment. */
-      return scoutsegment(m, b, searchtri, endpoint2, newmark);
+      continue;
+    } else if (collinear == RIGHTCOLLINEAR) {
+      /* We've collided with a vertex between the segment's endpoints. */
+      insertsubseg(m, b, searchtri, newmark);
+      /* Make the collinear vertex be the triangle's origin. */
+      lnextself(*searchtri);
+      /* Insert the remainder of the segment. */
+      continue;
+    } else {
+      lnext(*searchtri, crosstri);
+      tspivot(crosstri, crosssubseg);
+      /* Check for a crossing segment. */
+      if (crosssubseg.ss == m->dummysub) {
+        return 0;
+      } else {
+        /* Insert a vertex at the intersection. */
+        segmentintersection(m, b, &crosstri, &crosssubseg, endpoint2);
+        otricopy(crosstri, *searchtri);
+        insertsubseg(m, b, searchtri, newmark);
+        /* Insert the remainder of the segment. */
+        continue;
+      }
     }
   }
+
+  printf("Internal error in scoutsegment():\n");
+  printf("  Segment cannot be inserted.\n");
+  internalerror();
+  return 0;
 }
 
 /*****************************************************************************/
-- 
2.43.0


From ba73175a540e86cd85c9d73c834b32d332c1ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 085/114] fix: tiles which do not exist and boxes which are not
 numbers were accepted by the library entry points

---
 core/shared/Common.hpp  | 23 +++++++++++++++++++++++
 core/shared/Search.hpp  |  7 +++----
 core/shared/Storage.hpp |  7 +++----
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/core/shared/Common.hpp b/core/shared/Common.hpp
index f83dffe..65071d1 100644
--- a/core/shared/Common.hpp
+++ b/core/shared/Common.hpp
@@ -1,13 +1,18 @@
 #ifndef COMMON_H_DEFINED
 #define COMMON_H_DEFINED
 
+#include "BoundingBox.hpp"
+#include "LodRange.hpp"
+#include "QuadKey.hpp"
 #include "builders/QuadKeyBuilder.hpp"
 #include "heightmap/ElevationProvider.hpp"
 #include "index/GeoStore.hpp"
 
+#include <cmath>
 #include <cstdint>
 #include <exception>
 #include <functional>
+#include <stdexcept>
 
 /// Callback which is called when directory should be created.
 /// NOTE with C++11, directory cannot be created with header only libs.
@@ -58,6 +63,24 @@ struct Context {
   ElevationProviderGetter getElevationProvider;
 };
 
+/// Gets quad key and throws if there is no such tile.
+inline utymap::QuadKey getQuadKey(int tileX, int tileY, int levelOfDetail) {
+  utymap::LodRange lodRange(levelOfDetail, levelOfDetail);
+  int tileCount = 1 << levelOfDetail;
+  if (tileX < 0 || tileX >= tileCount || tileY < 0 || tileY >= tileCount)
+    throw std::invalid_argument("Invalid tile.");
+  return utymap::QuadKey(levelOfDetail, tileX, tileY);
+}
+
+/// Gets bounding box and throws if it is not specified by numbers.
+inline utymap::BoundingBox getBoundingBox(double minLat, double minLon, double maxLat, double maxLon) {
+  for (double value : {minLat, minLon, maxLat, maxLon}) {
+    if (!std::isfinite(value))
+      throw std::invalid_argument("Invalid bounding box.");
+  }
+  return utymap::BoundingBox(utymap::GeoCoordinate(minLat, minLon), utymap::GeoCoordinate(maxLat, maxLon));
+}
+
 /// Executes function and catches exception if it occurs.
 inline void safeExecute(const std::function<void()> &action, OnError *errorCallback) {
   try {
diff --git a/core/shared/Search.hpp b/core/shared/Search.hpp
index 5ab213d..34d5ffe 100644
--- a/core/shared/Search.hpp
+++ b/core/shared/Search.hpp
@@ -29,8 +29,7 @@ public:
                      OnError *errorCallback,                   // error callback
                      utymap::CancellationToken *cancellationToken) {
     ::safeExecute([&]() {
-      utymap::BoundingBox bbox(utymap::GeoCoordinate(minLatitude, minLongitude),
-                               utymap::GeoCoordinate(maxLatitude, maxLongitude));
+      utymap::BoundingBox bbox = ::getBoundingBox(minLatitude, minLongitude, maxLatitude, maxLongitude);
       utymap::LodRange lodRange(startLod, endLod);
       ExportElementVisitor elementVisitor(tag, context_.stringTable, elementCallback);
       context_.geoStore.search(notTerms, andTerms, orTerms, bbox, lodRange, elementVisitor, *cancellationToken);
@@ -46,9 +45,9 @@ public:
                         OnElementLoaded *elementCallback,        // element callback
                         OnError *errorCallback,                  // error callback
                         utymap::CancellationToken *cancellationToken) {
-    utymap::QuadKey quadKey(levelOfDetail, tileX, tileY);
     auto eleProviderType = static_cast<ElevationDataType>(eleDataType);
     ::safeExecute([&]() {
+      utymap::QuadKey quadKey = ::getQuadKey(tileX, tileY, levelOfDetail);
       auto &styleProvider = context_.getStyleProvider(styleFile);
       auto &eleProvider = context_.getElevationProvider(quadKey, eleProviderType);
       ExportElementVisitor elementVisitor(tag, quadKey, context_.stringTable, styleProvider, eleProvider, elementCallback);
@@ -74,7 +73,7 @@ public:
   double getElevationByQuadKey(int tileX, int tileY, int levelOfDetail, // quadkey info
                                int eleDataType,                         // elevation data type
                                double latitude, double longitude) const {
-    utymap::QuadKey quadKey(levelOfDetail, tileX, tileY);
+    utymap::QuadKey quadKey = ::getQuadKey(tileX, tileY, levelOfDetail);
     auto eleProviderType = static_cast<ElevationDataType>(eleDataType);
     utymap::GeoCoordinate coordinate(latitude, longitude);
     return context_.getElevationProvider(quadKey, eleProviderType).getElevation(quadKey, coordinate);
diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index b2d3330..a421657 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -18,8 +18,8 @@ public:
                   int levelOfDetail,         // level of detail
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancelToken) {
-    utymap::QuadKey quadKey(levelOfDetail, tileX, tileY);
     ::safeExecute([&]() {
+      utymap::QuadKey quadKey = ::getQuadKey(tileX, tileY, levelOfDetail);
       context_.geoStore.add(key, path, quadKey, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
   }
@@ -37,8 +37,7 @@ public:
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancelToken) {
     ::safeExecute([&]() {
-      utymap::BoundingBox bbox(utymap::GeoCoordinate(minLat, minLon),
-                               utymap::GeoCoordinate(maxLat, maxLon));
+      utymap::BoundingBox bbox = ::getBoundingBox(minLat, minLon, maxLat, maxLon);
       utymap::LodRange lodRange(startLod, endLod);
       context_.geoStore.add(key, path, bbox, lodRange, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
@@ -124,7 +123,7 @@ public:
 
   /// Checks whether data is present in any registered stores for given quad key.
   bool hasData(int tileX, int tileY, int levelOfDetail) const {
-    return context_.geoStore.hasData(utymap::QuadKey(levelOfDetail, tileX, tileY));
+    return context_.geoStore.hasData(::getQuadKey(tileX, tileY, levelOfDetail));
   }
 
 private:
-- 
2.43.0


From f428c65307a071cea0f58e335f794f2eaaedd599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 086/114] fix: deeply nested json overflowed the stack

---
 core/src/formats/osm/json/OsmJsonParser.hpp | 32 ++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/core/src/formats/osm/json/OsmJsonParser.hpp b/core/src/formats/osm/json/OsmJsonParser.hpp
index 18d4710..d077287 100644
--- a/core/src/formats/osm/json/OsmJsonParser.hpp
+++ b/core/src/formats/osm/json/OsmJsonParser.hpp
@@ -11,6 +11,11 @@
 #include <boost/property_tree/json_parser.hpp>
 #include <boost/property_tree/ptree.hpp>
 
+#include <iterator>
+#include <sstream>
+#include <stdexcept>
+#include <string>
+
 namespace utymap {
 namespace formats {
 
@@ -18,6 +23,7 @@ template<typename Visitor>
 class OsmJsonParser {
   const std::string IdAttributeName = "id";
   const std::string FeatureAttributeName = "feature";
+  static const int MaxNesting = 256;
   using ptree = boost::property_tree::ptree;
 
   struct FoldRelation final : public utymap::entities::ElementVisitor {
@@ -51,8 +57,12 @@ class OsmJsonParser {
   /// Parses osm json data from stream calling visitor.
   void parse(std::istream &istream, Visitor &visitor) const {
     istream.unsetf(std::ios::skipws);
+    std::string text((std::istreambuf_iterator<char>(istream)), std::istreambuf_iterator<char>());
+    ensureNesting(text);
+
     ptree pt;
-    read_json(istream, pt);
+    std::istringstream stream(text);
+    read_json(stream, pt);
 
     // NOTE features are delivered only if all of them are valid.
     Collector collector;
@@ -74,6 +84,26 @@ class OsmJsonParser {
     }
   };
 
+  /// Ensures that nesting is not too deep for json parser which is recursive.
+  static void ensureNesting(const std::string &text) {
+    int nesting = 0;
+    bool isString = false;
+    for (std::size_t i = 0; i < text.size(); ++i) {
+      char symbol = text[i];
+      if (isString) {
+        if (symbol=='\\') ++i;
+        else if (symbol=='"') isString = false;
+      } else if (symbol=='"') {
+        isString = true;
+      } else if (symbol=='{' || symbol=='[') {
+        if (++nesting > MaxNesting)
+          throw std::domain_error("Nesting of json is too deep.");
+      } else if (symbol=='}' || symbol==']') {
+        --nesting;
+      }
+    }
+  }
+
   void parse(const ptree &pt, Collector &visitor) const {
     for (const ptree::value_type &feature : pt) {
       std::string featureName = feature.first;
-- 
2.43.0


From 4adb2e6649ade31136d556fd238bfac2bdde11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 087/114] fix: damaged element data were read as garbage or
 exhausted memory

---
 core/src/index/ElementStream.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/core/src/index/ElementStream.cpp b/core/src/index/ElementStream.cpp
index 94af185..fb65051 100644
--- a/core/src/index/ElementStream.cpp
+++ b/core/src/index/ElementStream.cpp
@@ -6,6 +6,9 @@
 #include "index/ElementStream.hpp"
 #include "utils/CoreUtils.hpp"
 
+#include <cmath>
+#include <stdexcept>
+
 using namespace utymap;
 using namespace utymap::entities;
 using namespace utymap::index;
@@ -29,6 +32,12 @@ void writeSize(std::ostream &stream, std::size_t value) {
   }
 }
 
+/// Ensures that stream had the data which were read.
+void ensureRead(const std::istream &stream) {
+  if (!stream)
+    throw std::domain_error("Element data are incomplete.");
+}
+
 std::uint32_t readSize(std::istream &stream) {
   std::uint16_t size = 0;
   stream.read(reinterpret_cast<char *>(&size), sizeof(size));
@@ -61,6 +70,9 @@ std::ostream &operator<<(std::ostream &stream, const utymap::GeoCoordinate &coor
 std::istream &operator>>(std::istream &stream, utymap::GeoCoordinate &coordinate) {
   stream.read(reinterpret_cast<char *>(&coordinate.latitude), sizeof(coordinate.latitude));
   stream.read(reinterpret_cast<char *>(&coordinate.longitude), sizeof(coordinate.longitude));
+  // NOTE such coordinates cannot be stored. Negation catches NaN too.
+  if (!(std::abs(coordinate.latitude) <= 360 && std::abs(coordinate.longitude) <= 360))
+    throw std::domain_error("Element data are damaged.");
   return stream;
 }
 
@@ -75,9 +87,13 @@ std::ostream &operator<<(std::ostream &stream, const std::vector<T> &data) {
 template<typename T>
 std::istream &operator>>(std::istream &stream, std::vector<T> &data) {
   std::uint32_t size = readSize(stream);
-  data.resize(size);
-  for (size_t i = 0; i < size; ++i)
-    stream >> data[i];
+  // NOTE size is not trusted as data can be damaged.
+  for (std::uint32_t i = 0; i < size; ++i) {
+    T item;
+    stream >> item;
+    ensureRead(stream);
+    data.push_back(item);
+  }
   return stream;
 }
 
@@ -116,8 +132,9 @@ class ElementReader final {
   }
 
   std::unique_ptr<Element> read() const {
-    char elementType;
+    char elementType = 0;
     stream_ >> elementType;
+    ensureRead(stream_);
 
     switch (elementType) {
       case NodeType:return readNode();
@@ -132,6 +149,7 @@ class ElementReader final {
   std::unique_ptr<Node> readNode() const {
     auto node = utymap::utils::make_unique<Node>();
     stream_ >> node->tags >> node->coordinate;
+    ensureRead(stream_);
     return std::move(node);
   }
 
@@ -154,7 +172,7 @@ class ElementReader final {
     std::uint32_t elementSize = readSize(stream_);
 
     for (std::uint32_t i = 0; i < elementSize; ++i) {
-      std::uint64_t id;
+      std::uint64_t id = 0;
       stream_.read(reinterpret_cast<char *>(&id), sizeof(id));
       auto element = read();
       element->id = id;
-- 
2.43.0


From 169fb1dbf8ad1a7c2bbd51a251bfc96eba77f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 088/114] fix: elevation outside of the world was converted to
 an undefined tile

---
 core/src/heightmap/SrtmElevationProvider.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 831ef0f..129a37f 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -73,6 +73,10 @@ class SrtmElevationProvider final : public ElevationProvider {
   }
 
   double getElevationImpl(double latitude, double longitude) const {
+    // NOTE negation catches NaN too.
+    if (!(std::abs(latitude) <= 90 && std::abs(longitude) <= 360))
+      throw std::invalid_argument("Cannot get elevation outside of the world.");
+
     int latDec = static_cast<int>(std::floor(latitude));
     int lonDec = static_cast<int>(std::floor(longitude));
 
-- 
2.43.0


From 8385c5ef6cc97e79f1a4c479c23cbe3cc650362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 089/114] fix: lsystem productions with invalid probabilities
 were accepted and read past the end

---
 core/src/lsys/LSystemParser.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/core/src/lsys/LSystemParser.cpp b/core/src/lsys/LSystemParser.cpp
index 519f652..ba78dac 100644
--- a/core/src/lsys/LSystemParser.cpp
+++ b/core/src/lsys/LSystemParser.cpp
@@ -2,6 +2,7 @@
 
 #define BOOST_SPIRIT_USE_PHOENIX_V3
 #include <boost/bind.hpp>
+#include <cmath>
 #include <boost/spirit/include/qi.hpp>
 #include <boost/spirit/include/phoenix_operator.hpp>
 #include <boost/spirit/include/phoenix_object.hpp>
@@ -162,6 +163,22 @@ struct LSystemGrammar : qi::grammar<Iterator, LSystem(), CommentSkipper<Iterator
   qi::rule<Iterator, LSystem(), CommentSkipper<Iterator>> start;
 };
 
+/// Ensures that one of alternative productions can be selected.
+void ensureProbabilities(const LSystem::Productions &productions) {
+  if (productions.size() < 2) return;
+
+  double sum = 0;
+  bool isValid = true;
+  for (const auto &production : productions) {
+    isValid &= production.first >= 0;
+    sum += production.first;
+  }
+
+  // NOTE sum can be infinite if one of them is huge.
+  if (!isValid || !(sum > 0) || !std::isfinite(sum))
+    throw std::domain_error("Cannot parse lsystem: invalid probabilities of production.");
+}
+
 template<typename Iterator>
 void parse(Iterator begin, Iterator end, LSystem &lsystem) {
   LSystemGrammar<Iterator> grammar;
@@ -174,6 +191,9 @@ void parse(Iterator begin, Iterator end, LSystem &lsystem) {
   qi::phrase_parse(begin, end, *ascii::space, skipper);
   if (begin!=end)
     throw std::domain_error(std::string("Cannot parse lsystem completely, unexpected: ") + std::string(begin, end));
+
+  for (const auto &pair : lsystem.productions)
+    ensureProbabilities(pair.second);
 }
 }
 
-- 
2.43.0


From a616f8c976310cce7865a1e0d988b6c0e2d0bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 090/114] fix: noise of huge coordinates overflowed integers

---
 core/src/utils/NoiseUtils.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/core/src/utils/NoiseUtils.cpp b/core/src/utils/NoiseUtils.cpp
index f6827d0..8bf5571 100644
--- a/core/src/utils/NoiseUtils.cpp
+++ b/core/src/utils/NoiseUtils.cpp
@@ -1,10 +1,20 @@
 #include "utils/NoiseUtils.hpp"
 
+#include <cmath>
+#include <limits>
+
 using namespace utymap::math;
 using namespace utymap::utils;
 
 const double Sqr2 = std::sqrt(2);
 
+namespace {
+/// Checks whether the value fits lattice of noise.
+bool isSupported(double value) {
+  return std::abs(value) < std::numeric_limits<int>::max() - 1;
+}
+}
+
 const int NoiseUtils::Hash[] =
     {
         151, 160, 137, 91, 90, 15, 131, 13, 201, 95, 96, 53, 194, 233, 7, 225,
@@ -77,6 +87,7 @@ double NoiseUtils::perlin2D(double x, double y, double frequency) {
   if (frequency < 1E-5) return 0;
 
   Vector2 point(x*frequency, y*frequency);
+  if (!isSupported(point.x) || !isSupported(point.y)) return 0;
 
   int ix0 = static_cast<int>(std::floor(point.x));
   int iy0 = static_cast<int>(std::floor(point.y));
@@ -116,6 +127,8 @@ double NoiseUtils::perlin3D(double x, double y, double z, double frequency) {
   if (frequency < 1E-5) return 0;
 
   Vector3 point(x*frequency, y*frequency, z*frequency);
+  if (!isSupported(point.x) || !isSupported(point.y) || !isSupported(point.z)) return 0;
+
   int ix0 = static_cast<int>(std::floor(point.x));
   int iy0 = static_cast<int>(std::floor(point.y));
   int iz0 = static_cast<int>(std::floor(point.z));
-- 
2.43.0


From a7fef97fb185212ac5ba2bf43596f3522e7b15d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 091/114] fix: addition of an empty contour to polygon read out
 of bounds

---
 core/src/math/Polygon.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/math/Polygon.hpp b/core/src/math/Polygon.hpp
index a74c289..270094d 100644
--- a/core/src/math/Polygon.hpp
+++ b/core/src/math/Polygon.hpp
@@ -42,6 +42,9 @@ class Polygon final {
 
  private:
   void addContour(const std::vector<Vector2> &contour, bool isHole) {
+    if (contour.empty())
+      return;
+
     auto count = contour.size();
     if (contour[0]==contour[count - 1])
       count--;
-- 
2.43.0


From eeb6d650867ed26cd8e6867ab78d4de6bddb5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 092/114] fix: step of repeated objects which is zero or not a
 number hung or overflowed

---
 core/src/builders/generators/WallGenerator.hpp |  3 ++-
 core/src/builders/misc/LampBuilder.cpp         |  4 ++--
 core/src/builders/poi/TreeBuilder.cpp          |  2 +-
 core/src/utils/MeshUtils.hpp                   | 13 ++++++++++++-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/core/src/builders/generators/WallGenerator.hpp b/core/src/builders/generators/WallGenerator.hpp
index 0a4be41..2e2ef07 100644
--- a/core/src/builders/generators/WallGenerator.hpp
+++ b/core/src/builders/generators/WallGenerator.hpp
@@ -4,6 +4,7 @@
 #include "GeoCoordinate.hpp"
 #include "builders/generators/AbstractGenerator.hpp"
 #include "utils/GeoUtils.hpp"
+#include "utils/MeshUtils.hpp"
 
 #include <algorithm>
 #include <vector>
@@ -65,7 +66,7 @@ class WallGenerator : public AbstractGenerator {
       const auto &p1 = *(begin_ + i + 1);
 
       double distanceInMeters = utymap::utils::GeoUtils::distance(p0, p1);
-      int count = std::max(static_cast<int>(distanceInMeters/fullLength), 1);
+      int count = std::max(utymap::utils::getStepCount(distanceInMeters, fullLength), 1);
 
       auto start = p0;
       for (int j = 1; j <= count; ++j) {
diff --git a/core/src/builders/misc/LampBuilder.cpp b/core/src/builders/misc/LampBuilder.cpp
index db01c32..32fcf37 100644
--- a/core/src/builders/misc/LampBuilder.cpp
+++ b/core/src/builders/misc/LampBuilder.cpp
@@ -44,12 +44,12 @@ void LampBuilder::visitWay(const utymap::entities::Way &way) {
 
   LSystemGenerator::generate(context_, style, lampMesh, center, 0);
 
-  for (std::size_t i = 0; i < way.coordinates.size() - 1; ++i) {
+  for (std::size_t i = 0; i + 1 < way.coordinates.size(); ++i) {
     const auto &p0 = way.coordinates[i];
     const auto &p1 = way.coordinates[i + 1];
 
     double distanceInMeters = GeoUtils::distance(p0, p1);
-    int count = static_cast<int>(distanceInMeters/stepInMeters);
+    int count = utymap::utils::getStepCount(distanceInMeters, stepInMeters);
     if (count==0) continue;
 
     // way is transformed to area with offsetting.
diff --git a/core/src/builders/poi/TreeBuilder.cpp b/core/src/builders/poi/TreeBuilder.cpp
index b4b797e..3514b3d 100644
--- a/core/src/builders/poi/TreeBuilder.cpp
+++ b/core/src/builders/poi/TreeBuilder.cpp
@@ -43,7 +43,7 @@ void TreeBuilder::visitWay(const utymap::entities::Way &way) {
 
   double treeStepInMeters = style.getValue(TreeStepKey);
 
-  for (std::size_t i = 0; i < way.coordinates.size() - 1; ++i) {
+  for (std::size_t i = 0; i + 1 < way.coordinates.size(); ++i) {
     const auto &p0 = way.coordinates[i];
     const auto &p1 = way.coordinates[i + 1];
     utymap::utils::copyMeshAlong(context_.quadKey,
diff --git a/core/src/utils/MeshUtils.hpp b/core/src/utils/MeshUtils.hpp
index 5140a7c..3ac1022 100644
--- a/core/src/utils/MeshUtils.hpp
+++ b/core/src/utils/MeshUtils.hpp
@@ -4,6 +4,8 @@
 #include "math/Mesh.hpp"
 #include "math/Vector3.hpp"
 
+#include <stdexcept>
+
 namespace utymap {
 namespace utils {
 
@@ -41,13 +43,22 @@ inline void copyMesh(const utymap::math::Vector3 &offset,
   }
 }
 
+/// Gets amount of steps which fit the distance.
+inline int getStepCount(double distanceInMeters, double stepInMeters) {
+  double count = distanceInMeters/stepInMeters;
+  // NOTE negation catches NaN too.
+  if (!(count >= 0 && count < 1000000))
+    throw std::domain_error("Cannot cover distance by given step.");
+  return static_cast<int>(count);
+}
+
 /// Copies mesh along two coordinates.
 inline void copyMeshAlong(const utymap::QuadKey &quadKey, const utymap::GeoCoordinate &position,
                           const utymap::GeoCoordinate &p1, const utymap::GeoCoordinate &p2,
                           const utymap::math::Mesh &source, utymap::math::Mesh &destination, double stepInMeters,
                           const utymap::heightmap::ElevationProvider &eleProvider) {
   double distanceInMeters = GeoUtils::distance(p1, p2);
-  int count = static_cast<int>(distanceInMeters/stepInMeters);
+  int count = getStepCount(distanceInMeters, stepInMeters);
 
   for (int j = 0; j < count; ++j) {
     GeoCoordinate newPosition = GeoUtils::newPoint(p1, p2, static_cast<double>(j)/count);
-- 
2.43.0


From 070bb450359c131e070986e6f9a5fab9755c0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 093/114] fix: frequency of forest which does not fit integer
 was converted with undefined behaviour

---
 core/src/builders/terrain/TerraExtras.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/terrain/TerraExtras.cpp b/core/src/builders/terrain/TerraExtras.cpp
index d828cc2..20c634b 100644
--- a/core/src/builders/terrain/TerraExtras.cpp
+++ b/core/src/builders/terrain/TerraExtras.cpp
@@ -2,6 +2,8 @@
 #include "builders/generators/LSystemGenerator.hpp"
 #include "utils/MeshUtils.hpp"
 
+#include <algorithm>
+
 using namespace utymap::builders;
 using namespace utymap::mapcss;
 using namespace utymap::math;
@@ -9,6 +11,11 @@ using namespace utymap::math;
 namespace {
 const std::string TreeFrequencyKey = "tree-" + StyleConsts::FrequencyKey();
 const std::string TreeChunkSize = "tree-chunk-size";
+
+/// Gets value as count which is in range [1, max].
+double getCount(double value, double max) {
+  return std::max(1., std::min(value, max));
+}
 }
 
 void TerraExtras::addForest(const BuilderContext &builderContext, TerraExtras::Context &extrasContext) {
@@ -23,8 +30,10 @@ void TerraExtras::addForest(const BuilderContext &builderContext, TerraExtras::C
   auto forestMesh = builderContext.meshPool.getLarge("forest");
 
   // go through mesh region triangles and insert copy of the tree
-  std::size_t step = 3*static_cast<std::size_t>(std::max(extrasContext.style.getValue(TreeFrequencyKey), 1.));
-  int chunkSize = static_cast<int>(std::max(extrasContext.style.getValue(TreeChunkSize), 1.));
+  // NOTE there are no more trees than triangles.
+  auto triangleCount = static_cast<double>(extrasContext.mesh.triangles.size()/3 + 1);
+  std::size_t step = 3*static_cast<std::size_t>(getCount(extrasContext.style.getValue(TreeFrequencyKey), triangleCount));
+  int chunkSize = static_cast<int>(getCount(extrasContext.style.getValue(TreeChunkSize), triangleCount));
   int treesProcessed = 0;
   for (auto i = extrasContext.startTriangle; i < extrasContext.mesh.triangles.size(); i += step) {
     double centroidX = 0;
-- 
2.43.0


From e55a81e1174813fe4cd0cca87e21714bc82aa9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 094/114] fix: color which is out of range was converted with
 undefined behaviour

---
 core/src/mapcss/Color.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/src/mapcss/Color.hpp b/core/src/mapcss/Color.hpp
index 046454f..e2e5071 100644
--- a/core/src/mapcss/Color.hpp
+++ b/core/src/mapcss/Color.hpp
@@ -37,10 +37,12 @@ struct Color final {
   }
 
   Color operator*(double f) const {
-    return Color(static_cast<int>(r*f),
-                 static_cast<int>(g*f),
-                 static_cast<int>(b*f),
-                 static_cast<int>(a*f));
+    return Color(multiply(r, f), multiply(g, f), multiply(b, f), multiply(a, f));
+  }
+
+ private:
+  static int multiply(unsigned char value, double f) {
+    return static_cast<int>(std::max(-255., std::min(value*f, 255.)));
   }
 };
 
-- 
2.43.0


From 0fff2dd2cb3b817766f2954f37ef0fa677dfd9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:36 +0000
Subject: [PATCH 095/114] fix: numbers of styles, atlases and heights which do
 not fit integers were converted with undefined behaviour

---
 core/src/builders/MeshContext.hpp             |  3 +-
 .../builders/generators/CylinderGenerator.hpp |  6 +++-
 core/src/builders/terrain/RegionTypes.hpp     |  4 ++-
 core/src/builders/terrain/TerraBuilder.cpp    | 29 ++++++++++---------
 core/src/mapcss/StyleSheet.hpp                | 11 +++----
 core/src/mapcss/TextureAtlasParser.cpp        | 11 +++----
 core/src/utils/CoreUtils.hpp                  | 12 ++++++++
 7 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/core/src/builders/MeshContext.hpp b/core/src/builders/MeshContext.hpp
index cb43bdc..0b0a478 100644
--- a/core/src/builders/MeshContext.hpp
+++ b/core/src/builders/MeshContext.hpp
@@ -6,6 +6,7 @@
 #include "mapcss/Style.hpp"
 #include "mapcss/StyleConsts.hpp"
 #include "utils/GradientUtils.hpp"
+#include "utils/CoreUtils.hpp"
 
 namespace utymap {
 namespace builders {
@@ -55,7 +56,7 @@ struct MeshContext {
                             const std::string &textureTypeKey,
                             const std::string &textureScaleKey,
                             std::uint64_t seed = 0) {
-    auto textureIndex = static_cast<std::uint16_t>(style.getValue(textureIndexKey));
+    auto textureIndex = utymap::utils::toInteger<std::uint16_t>(style.getValue(textureIndexKey));
     MeshContext meshContext(mesh,
                             style,
                             utymap::utils::GradientUtils::evaluateGradient(styleProvider, style, colorKey),
diff --git a/core/src/builders/generators/CylinderGenerator.hpp b/core/src/builders/generators/CylinderGenerator.hpp
index 0b565aa..e627949 100644
--- a/core/src/builders/generators/CylinderGenerator.hpp
+++ b/core/src/builders/generators/CylinderGenerator.hpp
@@ -4,6 +4,7 @@
 #include "builders/generators/AbstractGenerator.hpp"
 #include "math/Quaternion.hpp"
 #include "utils/MathUtils.hpp"
+#include "utils/CoreUtils.hpp"
 
 namespace utymap {
 namespace builders {
@@ -58,7 +59,10 @@ class CylinderGenerator : public AbstractGenerator {
   }
 
   void generate() override {
-    int heightSegments = maxSegmentHeight_!=0 ? static_cast<int>(std::ceil(size1_.y/maxSegmentHeight_)) : 1;
+    // NOTE amount of segments is limited as height can be specified by map data.
+    int heightSegments = maxSegmentHeight_!=0
+                         ? utymap::utils::toInteger<int>(std::min(std::ceil(size1_.y/maxSegmentHeight_), 1000.))
+                         : 1;
     double heightStep = size1_.y/heightSegments;
     double angleStep = 2*pi/radialSegments_;
 
diff --git a/core/src/builders/terrain/RegionTypes.hpp b/core/src/builders/terrain/RegionTypes.hpp
index 2c10acf..2f568f8 100644
--- a/core/src/builders/terrain/RegionTypes.hpp
+++ b/core/src/builders/terrain/RegionTypes.hpp
@@ -5,6 +5,7 @@
 #include "mapcss/Style.hpp"
 #include "mapcss/StyleConsts.hpp"
 #include "math/PolyClip.hpp"
+#include "utils/CoreUtils.hpp"
 
 #include <memory>
 
@@ -46,7 +47,8 @@ struct RegionContext final {
         1      // no new vertices on boundaries
     );
 
-    auto textureIndex = static_cast<std::uint16_t>(style.getValue(prefix + StyleConsts::TextureIndexKey()));
+    auto textureIndex = utymap::utils::toInteger<std::uint16_t>(
+        style.getValue(prefix + StyleConsts::TextureIndexKey()));
     const auto &textureRegion = context.styleProvider
         .getTexture(textureIndex, style.getString(prefix + StyleConsts::TextureTypeKey()))
         .random(0);   // TODO use seed for randomization
diff --git a/core/src/builders/terrain/TerraBuilder.cpp b/core/src/builders/terrain/TerraBuilder.cpp
index 1341734..6d3feec 100644
--- a/core/src/builders/terrain/TerraBuilder.cpp
+++ b/core/src/builders/terrain/TerraBuilder.cpp
@@ -8,6 +8,7 @@
 #include "entities/Area.hpp"
 #include "entities/Relation.hpp"
 #include "utils/GeometryUtils.hpp"
+#include "utils/CoreUtils.hpp"
 
 #include <numeric>
 
@@ -132,9 +133,7 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
     clipper_.removeSubject();
 
     region->geometry = solution;
-    std::string type = region->isLayer()
-                       ? style.getString(StyleConsts::TerrainLayerKey())
-                       : "";
+    std::string type = region->isLayer() ? getLayer(style) : "";
 
     addRegion(type, way, style, region);
   }
@@ -142,9 +141,7 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
   void visitArea(const utymap::entities::Area &area) override {
     Style style = context_.styleProvider.forElement(area, context_.quadKey.levelOfDetail);
     auto region = createRegion(style, area.coordinates);
-    std::string type = region->isLayer()
-                       ? style.getString(StyleConsts::TerrainLayerKey())
-                       : "";
+    std::string type = region->isLayer() ? getLayer(style) : "";
 
     addRegion(type, area, style, region);
   }
@@ -168,12 +165,10 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
 
     if (!region->geometry.empty()) {
       Style style = context_.styleProvider.forElement(rel, context_.quadKey.levelOfDetail);
-      if (!style.has(context_.stringTable.getId(StyleConsts::TerrainLayerKey())))
+      if (getLayer(style).empty())
         region->context = utymap::utils::make_unique<RegionContext>(RegionContext::create(context_, style, ""));
 
-      std::string type = region->isLayer()
-                         ? style.getString(StyleConsts::TerrainLayerKey())
-                         : "";
+      std::string type = region->isLayer() ? getLayer(style) : "";
 
       addRegion(type, rel, style, region);
     }
@@ -190,7 +185,8 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
       // named layer has to merge all regions inside
       if (!layerPair.first.empty()) {
         auto stylePrefix = layerPair.first + "-";
-        layerPair.second.sortOrder = static_cast<int>(style_.getValue(stylePrefix + StyleConsts::SortOrderKey()));
+        layerPair.second.sortOrder = utymap::utils::toInteger<int>(
+            style_.getValue(stylePrefix + StyleConsts::SortOrderKey()));
         mergeRegions(layerPair.second, std::make_shared<RegionContext>(
             RegionContext::create(context_, style_, stylePrefix)));
       } else
@@ -242,13 +238,20 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
 
     region->geometry.push_back(path);
 
-    if (!style.has(context_.stringTable.getId(StyleConsts::TerrainLayerKey())))
+    if (getLayer(style).empty())
       region->context = std::make_shared<RegionContext>(RegionContext::create(context_, style, ""));
 
-    region->level = static_cast<int>(style.getValue(StyleConsts::LevelKey()));
+    region->level = utymap::utils::toInteger<int>(style.getValue(StyleConsts::LevelKey()));
     return region;
   }
 
+  /// Gets name of layer, empty if region has its own appearance.
+  std::string getLayer(const Style &style) const {
+    return style.has(context_.stringTable.getId(StyleConsts::TerrainLayerKey()))
+           ? style.getString(StyleConsts::TerrainLayerKey())
+           : "";
+  }
+
   /// Merges regions into one taking into account level difference.
   void mergeRegions(Layer &layer, const std::shared_ptr<const RegionContext> &regionContext) const {
     std::unordered_map<int, std::pair<std::shared_ptr<Region>, std::shared_ptr<Clipper>>> regionMap;
diff --git a/core/src/mapcss/StyleSheet.hpp b/core/src/mapcss/StyleSheet.hpp
index 7dbe98b..d4909b5 100644
--- a/core/src/mapcss/StyleSheet.hpp
+++ b/core/src/mapcss/StyleSheet.hpp
@@ -3,6 +3,7 @@
 
 #include "math/Rectangle.hpp"
 #include "lsys/LSystem.hpp"
+#include "utils/CoreUtils.hpp"
 
 #include <cstdint>
 #include <string>
@@ -40,10 +41,10 @@ struct TextureGroup final {
     regions_.emplace_back(
         width,
         height,
-        static_cast<std::uint16_t>(rect.xMin),
-        static_cast<std::uint16_t>(rect.yMin),
-        static_cast<std::uint16_t>(rect.width()),
-        static_cast<std::uint16_t>(rect.height()));
+        utymap::utils::toInteger<std::uint16_t>(rect.xMin),
+        utymap::utils::toInteger<std::uint16_t>(rect.yMin),
+        utymap::utils::toInteger<std::uint16_t>(rect.width()),
+        utymap::utils::toInteger<std::uint16_t>(rect.height()));
   }
 
   /// Returns pseudo random region.
@@ -66,7 +67,7 @@ struct TextureAtlas final {
       index_(index),
       textureGroups_(std::move(textureGroups)),
       emptyGroup_() {
-    emptyGroup_.add(0, 0, utymap::math::Rectangle());
+    emptyGroup_.add(0, 0, utymap::math::Rectangle(0, 0, 0, 0));
   }
 
   /// Returns name of atlas.
diff --git a/core/src/mapcss/TextureAtlasParser.cpp b/core/src/mapcss/TextureAtlasParser.cpp
index 67c59c3..2f646ad 100644
--- a/core/src/mapcss/TextureAtlasParser.cpp
+++ b/core/src/mapcss/TextureAtlasParser.cpp
@@ -1,5 +1,6 @@
 #include "Exceptions.hpp"
 #include "mapcss/TextureAtlasParser.hpp"
+#include "utils/CoreUtils.hpp"
 
 #define BOOST_SPIRIT_USE_PHOENIX_V3
 #include <boost/bind.hpp>
@@ -90,15 +91,15 @@ TextureAtlas parse(Iterator begin, Iterator end) {
   std::unordered_map<std::string, TextureGroup> groups;
   for (const auto &region : atlas.regions) {
     groups[region.groupName].add(
-        static_cast<std::uint16_t>(atlas.width),
-        static_cast<std::uint16_t>(atlas.height),
+        utymap::utils::toInteger<std::uint16_t>(atlas.width),
+        utymap::utils::toInteger<std::uint16_t>(atlas.height),
         utymap::math::Rectangle(region.x,
                                 region.y,
-                                region.x + region.width,
-                                region.y + region.height));
+                                static_cast<double>(region.x) + region.width,
+                                static_cast<double>(region.y) + region.height));
   }
 
-  return TextureAtlas(static_cast<std::uint16_t>(atlas.id), groups);
+  return TextureAtlas(utymap::utils::toInteger<std::uint16_t>(atlas.id), groups);
 }
 
 TextureAtlas TextureAtlasParser::parse(const std::string &content) const {
diff --git a/core/src/utils/CoreUtils.hpp b/core/src/utils/CoreUtils.hpp
index 7bc7832..b19281a 100644
--- a/core/src/utils/CoreUtils.hpp
+++ b/core/src/utils/CoreUtils.hpp
@@ -2,6 +2,8 @@
 #define UTILS_COREUTILS_HPP_DEFINED
 
 #include <chrono>
+#include <limits>
+#include <stdexcept>
 #include <string>
 #include <sstream>
 #include <memory>
@@ -46,6 +48,16 @@ T lexicalCast(const std::string &value) {
   return boost::lexical_cast<T>(value);
 }
 
+/// Converts double to integer, throws if the value does not fit.
+template<typename T>
+T toInteger(double value) {
+  // NOTE negation catches NaN too.
+  if (!(value > static_cast<double>(std::numeric_limits<T>::min()) - 1 &&
+        value < static_cast<double>(std::numeric_limits<T>::max()) + 1))
+    throw std::domain_error("Value is out of range.");
+  return static_cast<T>(value);
+}
+
 inline bool endsWith(std::string const &value, std::string const &ending) {
   if (ending.size() > value.size())
     return false;
-- 
2.43.0


From 1ba38e6a3271632a382496a1e5109f7ce4915dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 096/114] fix: wall without length had undefined geometry

---
 core/src/builders/generators/WallGenerator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/generators/WallGenerator.hpp b/core/src/builders/generators/WallGenerator.hpp
index 2e2ef07..318cace 100644
--- a/core/src/builders/generators/WallGenerator.hpp
+++ b/core/src/builders/generators/WallGenerator.hpp
@@ -60,13 +60,15 @@ class WallGenerator : public AbstractGenerator {
 
     auto size = static_cast<std::size_t>(std::distance(begin_, end_) - 1);
     auto fullLength = length_ + gap_;
-    auto ratio = length_/fullLength;
+    // NOTE wall is not divided if length is not specified.
+    bool isDivided = fullLength > 0;
+    auto ratio = isDivided ? length_/fullLength : 1;
     for (std::size_t i = 0; i < size; ++i) {
       const auto &p0 = *(begin_ + i);
       const auto &p1 = *(begin_ + i + 1);
 
       double distanceInMeters = utymap::utils::GeoUtils::distance(p0, p1);
-      int count = std::max(utymap::utils::getStepCount(distanceInMeters, fullLength), 1);
+      int count = isDivided ? std::max(utymap::utils::getStepCount(distanceInMeters, fullLength), 1) : 1;
 
       auto start = p0;
       for (int j = 1; j <= count; ++j) {
-- 
2.43.0


From 6781cad47b533d0bda0e6e1b6529b2c0b562e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 097/114] fix: element without coordinate could not be read
 back from the cache

---
 core/src/index/ElementStream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/index/ElementStream.cpp b/core/src/index/ElementStream.cpp
index fb65051..70ad51f 100644
--- a/core/src/index/ElementStream.cpp
+++ b/core/src/index/ElementStream.cpp
@@ -38,6 +38,11 @@ void ensureRead(const std::istream &stream) {
     throw std::domain_error("Element data are incomplete.");
 }
 
+/// Checks whether the value can be a part of stored coordinate. Infinity means that coordinate is not set.
+bool isStorable(double value) {
+  return std::abs(value) <= 360 || std::isinf(value);
+}
+
 std::uint32_t readSize(std::istream &stream) {
   std::uint16_t size = 0;
   stream.read(reinterpret_cast<char *>(&size), sizeof(size));
@@ -70,8 +75,7 @@ std::ostream &operator<<(std::ostream &stream, const utymap::GeoCoordinate &coor
 std::istream &operator>>(std::istream &stream, utymap::GeoCoordinate &coordinate) {
   stream.read(reinterpret_cast<char *>(&coordinate.latitude), sizeof(coordinate.latitude));
   stream.read(reinterpret_cast<char *>(&coordinate.longitude), sizeof(coordinate.longitude));
-  // NOTE such coordinates cannot be stored. Negation catches NaN too.
-  if (!(std::abs(coordinate.latitude) <= 360 && std::abs(coordinate.longitude) <= 360))
+  if (!isStorable(coordinate.latitude) || !isStorable(coordinate.longitude))
     throw std::domain_error("Element data are damaged.");
   return stream;
 }
-- 
2.43.0


From dd8d037c00f569a8f6759c7ca589fd8994510b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 098/114] fix: bounds of a rectangle are found at negative
 coordinates

---
 core/src/math/Rectangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/math/Rectangle.hpp b/core/src/math/Rectangle.hpp
index 1550dd7..26fc82d 100644
--- a/core/src/math/Rectangle.hpp
+++ b/core/src/math/Rectangle.hpp
@@ -19,8 +19,8 @@ struct Rectangle final {
   Rectangle()
       : Rectangle(std::numeric_limits<double>::max(),
                   std::numeric_limits<double>::max(),
-                  std::numeric_limits<double>::min(),
-                  std::numeric_limits<double>::min()) {
+                  std::numeric_limits<double>::lowest(),
+                  std::numeric_limits<double>::lowest()) {
   }
 
   Rectangle(double xMin, double yMin, double xMax, double yMax) :
-- 
2.43.0


From e8903d7dbd26f8a1597ae8d2495a0d5e22f2a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 099/114] fix: mansard roof joins each corner with its own
 inner corner

---
 .../buildings/roofs/MansardRoofBuilder.hpp    | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
index 2babcd0..6b04375 100644
--- a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
@@ -22,6 +22,11 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
   }
 
   void build(utymap::math::Polygon &polygon) override {
+    // NOTE: algorithm below supports only one contour, fallback to flat roof.
+    if (polygon.outers.size()!=1 || !polygon.inners.empty()) {
+      return FlatRoofBuilder::build(polygon);
+    }
+
     utymap::math::ClipperOffset offset;
     utymap::math::IntPath path;
     path.reserve(polygon.points.size()/2);
@@ -51,14 +56,13 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
       return FlatRoofBuilder::build(polygon);
     }
 
-    build(polygon, solution[0], findFirstIndex(solution[0][0], polygon));
+    build(polygon, solution[0]);
   }
 
  private:
 
   void build(const utymap::math::Polygon &polygon,
-             utymap::math::IntPath &offsetShape,
-             std::size_t index) {
+             utymap::math::IntPath &offsetShape) {
     if (!utymap::math::getOrientation(offsetShape))
       std::reverse(offsetShape.begin(), offsetShape.end());
 
@@ -90,6 +94,7 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
 
     double topHeight = minHeight_ + height_;
     auto size = polygon.points.size();
+    auto index = findFirstIndex(topShape, polygon);
     for (std::size_t i = 0; i < size; i += 2) {
       auto topIndex = i;
       auto bottomIndex = (index + i)%size;
@@ -115,17 +120,21 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
     }
   }
 
-  std::size_t findFirstIndex(const utymap::math::IntPoint &p,
-                             const utymap::math::Polygon &polygon) const {
-    utymap::math::Vector2 point(p.X/Scale, p.Y/Scale);
-
-    std::size_t index = 0, size = polygon.points.size()/2;
+  /// Finds index of polygon's point which corresponds to the first point of the top shape.
+  static std::size_t findFirstIndex(const utymap::math::Polygon &topShape,
+                                    const utymap::math::Polygon &polygon) {
+    std::size_t index = 0, size = polygon.points.size();
     double minDistance = std::numeric_limits<double>::max();
 
     for (std::size_t i = 0; i < size; i += 2) {
-      double distance = utymap::math::Vector2::distance(point,
-                                                        utymap::math::Vector2(polygon.points[i],
-                                                                              polygon.points[i + 1]));
+      double distance = 0;
+      for (std::size_t j = 0; j < size; j += 2) {
+        auto k = (i + j)%size;
+        distance += utymap::math::Vector2::distance(
+            utymap::math::Vector2(topShape.points[j], topShape.points[j + 1]),
+            utymap::math::Vector2(polygon.points[k], polygon.points[k + 1]));
+      }
+
       if (distance < minDistance) {
         minDistance = distance;
         index = i;
-- 
2.43.0


From 441915bc5e373328469628ee19e3ac8f4bcda3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 100/114] fix: round roof is built for four corners only

---
 core/src/builders/buildings/roofs/RoundRoofBuilder.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp b/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
index 22a1c3c..57f845f 100644
--- a/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/RoundRoofBuilder.hpp
@@ -45,6 +45,12 @@ class RoundRoofBuilder : public FlatRoofBuilder {
     if (!polygon.inners.empty())
       return false;
 
+    // NOTE only four corners are supported
+    for (const auto &range : polygon.outers) {
+      if (range.second - range.first != 8)
+        return false;
+    }
+
     for (const auto range : polygon.outers) {
       // detect side with maximum length
       double maxSideLength = 0;
-- 
2.43.0


From ca03430c7a2725d50d83eb1601ef4ef64f3d2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 101/114] fix: elevation is added once to each pillar of a
 barrier

---
 core/src/builders/misc/BarrierBuilder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/misc/BarrierBuilder.cpp b/core/src/builders/misc/BarrierBuilder.cpp
index 081898b..21319e2 100644
--- a/core/src/builders/misc/BarrierBuilder.cpp
+++ b/core/src/builders/misc/BarrierBuilder.cpp
@@ -96,12 +96,13 @@ void BarrierBuilder::buildPillar(const T &element, Iterator begin, Iterator end,
   auto radius = utymap::utils::getSize(context_.boundingBox, meshContext.style, StyleConsts::RadiusKey());
   auto height = meshContext.style.getValue(StyleConsts::HeightKey());
 
+  // NOTE elevation is added for every copy when pillar is replicated
+  double elevation = size==1 ? context_.eleProvider.getElevation(context_.quadKey, *begin) : 0;
+
   Mesh mesh(utymap::utils::getMeshName(MeshNamePrefix, element));
   CylinderGenerator generator(context_, meshContext);
   generator
-      .setCenter(Vector3(begin->longitude,
-                         context_.eleProvider.getElevation(context_.quadKey, *begin),
-                         begin->latitude))
+      .setCenter(Vector3(begin->longitude, elevation, begin->latitude))
       .setSize(Vector3(radius.x, height, radius.z))
       .setMaxSegmentHeight(5)
       .setRadialSegments(7)
-- 
2.43.0


From d85141c9efae03908dbc85ee937e518479dd764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 102/114] fix: box of geocoder's search was not passed to the
 server

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 6698658..8c8ab4a 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -77,8 +77,8 @@ namespace UtyMap.Unity.Geocoding
             sb.Append(_searchPath);
             if (area != null)
             {
-                sb.Append(Uri.EscapeDataString(String.Format(CultureInfo.InvariantCulture,
-                    "viewbox={0:f4},{1:f4},{2:f4},{3:f4}&",
+                sb.AppendFormat("viewbox={0}&", Uri.EscapeDataString(String.Format(CultureInfo.InvariantCulture,
+                    "{0:f4},{1:f4},{2:f4},{3:f4}",
                     area.MinPoint.Longitude,
                     area.MinPoint.Latitude,
                     area.MaxPoint.Longitude,
-- 
2.43.0


From b3fa5200df185d320e0f3487d8b74b3fc0a7f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 103/114] fix: bounding box of geocoder's result was ignored

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 8c8ab4a..029db4c 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -111,11 +111,11 @@ namespace UtyMap.Unity.Geocoding
         private GeocoderResult ParseGeocoderResult(JSONNode resultNode)
         {
             BoundingBox bbox = null;
-            string[] bboxArray = resultNode["boundingbox"].Value.Split(',');
-            if (bboxArray.Length == 4)
+            var bboxArray = resultNode["boundingbox"].AsArray;
+            if (bboxArray != null && bboxArray.Count == 4)
             {
-                bbox = new BoundingBox(ParseGeoCoordinate(bboxArray[0], bboxArray[2]),
-                    ParseGeoCoordinate(bboxArray[1], bboxArray[3]));
+                bbox = new BoundingBox(ParseGeoCoordinate(bboxArray[0].Value, bboxArray[2].Value),
+                    ParseGeoCoordinate(bboxArray[1].Value, bboxArray[3].Value));
             }
 
             var id = long.Parse(resultNode["osm_id"].Value);
-- 
2.43.0


From bf01477f26ddea9275060a2ac4898c2b0f89ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 104/114] fix: geocoder depended on the culture of the user

---
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 029db4c..82395be 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -98,7 +98,7 @@ namespace UtyMap.Unity.Geocoding
         public void OnNext(Tuple<GeoCoordinate, float> value)
         {
             var coordinate = value.Item1;
-            var url = String.Format("{0}format=json&lat={1}&lon={2}",
+            var url = String.Format(CultureInfo.InvariantCulture, "{0}format=json&lat={1}&lon={2}",
                 _reverseSearchPath, coordinate.Latitude, coordinate.Longitude);
 
             _networkService
@@ -132,7 +132,8 @@ namespace UtyMap.Unity.Geocoding
         private static GeoCoordinate ParseGeoCoordinate(string latStr, string lonStr)
         {
             double latitude, longitude;
-            if (double.TryParse(latStr, out latitude) && double.TryParse(lonStr, out longitude))
+            if (double.TryParse(latStr, NumberStyles.Float, CultureInfo.InvariantCulture, out latitude) &&
+                double.TryParse(lonStr, NumberStyles.Float, CultureInfo.InvariantCulture, out longitude))
                 return new GeoCoordinate(latitude, longitude);
             return default(GeoCoordinate);
         }
-- 
2.43.0


From c8ac6c10c963e4f0e8e0a99325655cf52bad4925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 105/114] fix: bounds of a range tree ignored long ranges

---
 .../Infrastructure/Primitives/RangeTree.cs    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
index 274119e..967550f 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
@@ -292,11 +292,12 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         {
             get
             {
-                if (_rightNode != null)
-                    return _rightNode.Max;
-                if (_items != null)
-                    return _items.Max(i => i.To);
-                return default(TKey);
+                if (_items == null)
+                    return _rightNode != null ? _rightNode.Max : default(TKey);
+
+                // NOTE item of this node might reach beyond all items of the right one
+                var max = _items.Max(i => i.To);
+                return _rightNode != null && _comparer.Compare(_rightNode.Max, max) > 0 ? _rightNode.Max : max;
             }
         }
 
@@ -304,11 +305,12 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         {
             get
             {
-                if (_leftNode != null)
-                    return _leftNode.Min;
-                if (_items != null)
-                    return _items.Min(i => i.From);
-                return default(TKey);
+                if (_items == null)
+                    return _leftNode != null ? _leftNode.Min : default(TKey);
+
+                // NOTE item of this node might reach beyond all items of the left one
+                var min = _items.Min(i => i.From);
+                return _leftNode != null && _comparer.Compare(_leftNode.Min, min) < 0 ? _leftNode.Min : min;
             }
         }
 
-- 
2.43.0


From a34f6b99b183fc7daf3b45f335cb5b1b47a77f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 106/114] fix: tiles of a bounding box were wrong for even
 amount of columns or rows

---
 unity/library/UtyMap.Unity/Utils/GeoUtils.cs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Utils/GeoUtils.cs b/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
index 97bc854..160c0c1 100644
--- a/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
+++ b/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
@@ -151,12 +151,16 @@ namespace UtyMap.Unity.Utils
             var yBase = maxQuadKey.TileY + halfHeight;
 
             int x = 0, y = 0, dx = 0, dy = -1;
-            int t = Math.Max(width, height);
+            // NOTE one more as center is in the middle only if amount of tiles is odd
+            int t = Math.Max(width, height) + 1;
             int maxI = t*t;
             for (int i = 0; i < maxI; i++)
             {
-                if ((-halfWidth <= x) && (x <= halfWidth) && (-halfHeight <= y) && (y <= halfHeight))
-                    yield return new QuadKey(xBase + x, yBase - y, levelOfDetails);
+                var tileX = xBase + x;
+                var tileY = yBase - y;
+                if ((minQuadKey.TileX <= tileX) && (tileX <= maxQuadKey.TileX) &&
+                    (maxQuadKey.TileY <= tileY) && (tileY <= minQuadKey.TileY))
+                    yield return new QuadKey(tileX, tileY, levelOfDetails);
 
                 if ((x == y) || ((x < 0) && (x == -y)) || ((x > 0) && (x == 1 - y)))
                 {
-- 
2.43.0


From 8d65d4f69aa0f18c215ea6d5f16d7ec65ea4d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 107/114] fix: wrong srtm cell for southern and western
 hemispheres and wrong file name

---
 .../Providers/Elevation/SrtmElevationDataProvider.cs     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
index fe22b65..38e7596 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
@@ -79,7 +79,7 @@ namespace UtyMap.Unity.Data.Providers.Elevation
         protected override string GetFilePath(QuadKey quadKey)
         {
             var prefix = GetFileNamePrefix(GeoUtils.QuadKeyToBoundingBox(quadKey).Center());
-            return Path.Combine(_elePath, prefix);
+            return Path.Combine(_elePath, prefix + ".hgt");
         }
 
         /// <inheritdoc />
@@ -92,9 +92,12 @@ namespace UtyMap.Unity.Data.Providers.Elevation
 
         private string GetFileNamePrefix(GeoCoordinate coordinate)
         {
+            // NOTE name of the cell is its south west corner
+            var latitude = (int)Math.Floor(coordinate.Latitude);
+            var longitude = (int)Math.Floor(coordinate.Longitude);
             return String.Format("{0}{1:00}{2}{3:000}",
-                coordinate.Latitude > 0 ? 'N' : 'S', Math.Abs((int)coordinate.Latitude),
-                coordinate.Longitude > 0 ? 'E' : 'W', Math.Abs((int)coordinate.Longitude));
+                latitude >= 0 ? 'N' : 'S', Math.Abs(latitude),
+                longitude >= 0 ? 'E' : 'W', Math.Abs(longitude));
         }
     }
 }
-- 
2.43.0


From df431c9593b4d7ba1f7c7bc4ee240d7f2df49ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 108/114] fix: polyline with backslash was not escaped in the
 payload

---
 .../Data/Providers/Elevation/MapzenElevationDataProvider.cs    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
index 806ed72..bacca26 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/MapzenElevationDataProvider.cs
@@ -62,8 +62,9 @@ namespace UtyMap.Unity.Data.Providers.Elevation
 
         private string GetJsonPayload(QuadKey quadkey)
         {
+            // NOTE alphabet of the encoding includes backslash
             return String.Format("{{\"range\":false,\"encoded_polyline\":\"{0}\"}}",
-                EncodePolyline(CreatePolyline(quadkey)));
+                EncodePolyline(CreatePolyline(quadkey)).Replace("\\", "\\\\"));
         }
 
         private IEnumerable<GeoCoordinate> CreatePolyline(QuadKey quadkey)
-- 
2.43.0


From 9e7e2022ab0c3fe45538b49694dbd40159160c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 109/114] fix: observers were not notified about tiles whose
 data was downloaded

---
 unity/library/UtyMap.Unity/Data/MapDataStore.cs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataStore.cs b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
index 2b1fad6..4fddda2 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataStore.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
@@ -63,16 +63,22 @@ namespace UtyMap.Unity.Data
                 {
                     // We have map data in store.
                     if (String.IsNullOrEmpty(value.Item2))
-                        _mapDataLibrary
-                            .Get(value.Item1, _dataObservers)
-                            .Subscribe(_ => _tileObservers.ForEach(t => t.OnNext(value.Item1)));
+                        LoadTile(value.Item1);
                     else
                         // NOTE store data in the first registered store
                         AddTo(_storageKeys.First(), value.Item2, value.Item1.Stylesheet, value.Item1.QuadKey, value.Item1.CancelationToken)
-                            .Subscribe(progress => { }, () => _mapDataLibrary.Get(value.Item1, _dataObservers));
+                            .Subscribe(progress => { }, () => LoadTile(value.Item1));
                 });
         }
 
+        /// <summary> Loads tile from stores and notifies observers once it is loaded. </summary>
+        private void LoadTile(Tile tile)
+        {
+            _mapDataLibrary
+                .Get(tile, _dataObservers)
+                .Subscribe(_ => _tileObservers.ForEach(t => t.OnNext(tile)));
+        }
+
         #region Interface implementations
 
         /// <inheritdoc />
-- 
2.43.0


From b106c40da012a870e82bcfeaacb2c2288e7970d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 110/114] fix: tile requested from several threads at once was
 stored several times

---
 unity/library/UtyMap.Unity/Data/MapDataStore.cs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataStore.cs b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
index 4fddda2..c782af0 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataStore.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
@@ -43,6 +43,7 @@ namespace UtyMap.Unity.Data
     /// <summary> Default implementation of map data store. </summary>
     internal class MapDataStore : IMapDataStore, IDisposable, IConfigurable
     {
+        private readonly object _lockObj = new object();
         private readonly IMapDataProvider _mapDataProvider;
         private readonly IMapDataLibrary _mapDataLibrary;
 
@@ -104,9 +105,13 @@ namespace UtyMap.Unity.Data
         /// <inheritdoc />
         public IObservable<int> AddTo(string storageKey, string dataPath, Stylesheet stylesheet, QuadKey quadKey, CancellationToken cancellationToken)
         {
-            return _mapDataLibrary.Exists(quadKey)
-                ? Observable.Return<int>(100)
-                : _mapDataLibrary.AddTo(storageKey, dataPath, stylesheet, quadKey, cancellationToken);
+            // NOTE the same tile might be requested from different threads
+            lock (_lockObj)
+            {
+                return _mapDataLibrary.Exists(quadKey)
+                    ? Observable.Return<int>(100)
+                    : _mapDataLibrary.AddTo(storageKey, dataPath, stylesheet, quadKey, cancellationToken);
+            }
         }
 
         /// <inheritdoc />
-- 
2.43.0


From 028d02ba48a9fae711f05a82b6286138e4af8c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 111/114] fix: set of registered stylesheets is guarded

---
 unity/library/UtyMap.Unity/Data/MapDataLibrary.cs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index 52d0ace..645ffd6 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -306,11 +306,15 @@ namespace UtyMap.Unity.Data
         {
             var stylePath = _pathResolver.Resolve(stylesheet.Path);
 
-            if (_stylePaths.Contains(stylePath))
-                return stylePath;
+            // NOTE tiles might be requested from different threads
+            lock (_stylePaths)
+            {
+                if (_stylePaths.Contains(stylePath))
+                    return stylePath;
 
-            _stylePaths.Add(stylePath);
-            registerStylesheet(stylePath, CreateDirectory);
+                _stylePaths.Add(stylePath);
+                registerStylesheet(stylePath, CreateDirectory);
+            }
 
             return stylePath;
         }
-- 
2.43.0


From 5d9ed396d47dd0bf166b27dedbe6e34fca34b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 112/114] fix: barriers of closed ways miss their last side

---
 core/src/builders/misc/BarrierBuilder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/misc/BarrierBuilder.cpp b/core/src/builders/misc/BarrierBuilder.cpp
index 21319e2..e20d695 100644
--- a/core/src/builders/misc/BarrierBuilder.cpp
+++ b/core/src/builders/misc/BarrierBuilder.cpp
@@ -30,7 +30,11 @@ void BarrierBuilder::visitWay(const Way &way) {
 }
 
 void BarrierBuilder::visitArea(const Area &area) {
-  build(area, area.coordinates.begin(), area.coordinates.end());
+  // NOTE coordinates of area do not include closing point.
+  std::vector<GeoCoordinate> geometry(area.coordinates);
+  if (!geometry.empty() && !(geometry.front()==geometry.back()))
+    geometry.push_back(geometry.front());
+  build(area, geometry.begin(), geometry.end());
 }
 
 void BarrierBuilder::visitRelation(const Relation &relation) {
-- 
2.43.0


From fa514d4325ef4c99a721978aec54ffb1e9403a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 113/114] fix: animation stops before its target is applied

---
 unity/library/UtyMap.Unity/Animations/TransformAnimation.cs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs b/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs
index e3ef70e..e8e2e86 100644
--- a/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs
+++ b/unity/library/UtyMap.Unity/Animations/TransformAnimation.cs
@@ -50,6 +50,8 @@ namespace UtyMap.Unity.Animations
                     _time = 0;
                 else
                 {
+                    // NOTE last frame usually does not hit the end exactly.
+                    UpdateTransform(_transform, _timeInterpolator.GetTime(1));
                     Stop();
                     return;
                 }
-- 
2.43.0


From 5c785db4f49434a69b77b5c81d7e2479b0d9c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 114/114] fix: composite animation does not raise Finished

---
 unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs b/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs
index 3508654..5ab4453 100644
--- a/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs
+++ b/unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs
@@ -26,6 +26,8 @@ namespace UtyMap.Unity.Animations
         {
             foreach (var animation in _animations)
                 animation.Stop();
+
+            base.OnStopped(e);
         }
 
         /// <inheritdoc />
-- 
2.43.0

