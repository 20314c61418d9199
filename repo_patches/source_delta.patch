From 5c13828b46794d56c2f3f7833a5fdc3ad0abde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 01/52] fix: update structure coordinates after a line
 structure is added or modified

IsUpdated() was true when only the alignment points were current, so
structure coordinates queried before the edit were returned (or indexed out
of range) after it.
---
 src/transmissionline/transmission_line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 9bda5d8..b57febe 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -619,7 +619,7 @@ void TransmissionLine::DeleteInvalidLineStructures() {
 
 bool TransmissionLine::IsUpdated() const {
   return (is_updated_points_xyz_alignment_ == true)
-      || (is_updated_points_xyz_structures_ == true);
+      && (is_updated_points_xyz_structures_ == true);
 }
 
 bool TransmissionLine::IsValidLineCableIndex(const int& index) const {
-- 
2.43.0


From b631f42489af0102b4fc0459128b72eab1e87190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 02/52] fix: copy the cached coordinates together with their
 update flags

A copy of a line that had been queried claimed to be updated but had no
points, so coordinate queries on the copy returned nothing or threw.
---
 src/transmissionline/transmission_line.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index b57febe..e076c21 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -23,6 +23,8 @@ TransmissionLine& TransmissionLine::operator=(const TransmissionLine& that) {
   this->line_cables_ = that.line_cables_;
   this->line_structures_ = that.line_structures_;
   this->origin_ = that.origin_;
+  this->points_xyz_alignment_ = that.points_xyz_alignment_;
+  this->points_xyz_structures_ = that.points_xyz_structures_;
 
   // adjusts the new line cable connections to reference the new line structures
   for (auto iter_cable = line_cables_.begin(); iter_cable != line_cables_.end();
-- 
2.43.0


From 4ee7f0dad34f2b207a30767ed9c6500e0a3357b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 03/52] fix: sort line cables by starting structure and then by
 attachment

The sorting test required both a smaller-or-equal structure index and a
smaller attachment index, so a cable starting at an earlier structure on a
higher attachment was placed after cables of later structures.
---
 src/transmissionline/transmission_line.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index e076c21..e82f39b 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -100,8 +100,9 @@ int TransmissionLine::AddLineCable(const LineCable& line_cable) {
     const int index_attachment_list = connection_list.index_attachment;
 
     // checks if list connection indexes are larger than new connection indexes
-    if ((index_structure <= index_structure_list)
-         && (index_attachment < index_attachment_list)) {
+    if ((index_structure < index_structure_list)
+         || ((index_structure == index_structure_list)
+             && (index_attachment < index_attachment_list))) {
       // position is found
       break;
     }
-- 
2.43.0


From fb417e6bc21aea2837936970e00ab861ba8da933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 04/52] fix: keep a modified line structure within the
 alignment

The first and last structures could be moved up to one unit beyond the ends
of the alignment.
---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index e82f39b..655f826 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -328,6 +328,11 @@ bool TransmissionLine::ModifyLineStructure(const int& index,
     station_ahead = structure_ahead->station();
   }
 
+  // checks if structure is within alignment
+  if (alignment_.IsValidStation(structure.station()) == false) {
+    return false;
+  }
+
   // checks if structure is within station boundaries
   // moving position within the structure list is restricted to keep the
   // order line cable connections
-- 
2.43.0


From 3dce6d0c4a7bf4e49ccefa74c57d20f65f32194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 05/52] fix: no station is valid on an alignment without points

IsValidStation() (and through it IndexSegment() and adding a line structure)
read the front and back of an empty list.
---
 src/transmissionline/alignment.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index a712692..e34d91f 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -122,6 +122,11 @@ int Alignment::IndexSegment(const double& station) const {
 }
 
 bool Alignment::IsValidStation(const double& station) const {
+  // checks for an alignment with no points
+  if (points_.empty() == true) {
+    return false;
+  }
+
   // gets the first and last alignment points
   const AlignmentPoint& point_front = points_.front();
   const AlignmentPoint& point_back = points_.back();
-- 
2.43.0


From e8889e2e9398b621db27a22ddd755ddd22597986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 06/52] fix: removing the last alignment point removes all line
 structures

The cleanup of structures read the front and back of the empty point list.
---
 src/transmissionline/transmission_line.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 655f826..a74db4a 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -605,15 +605,11 @@ void TransmissionLine::DeleteInvalidLineCables() {
 }
 
 void TransmissionLine::DeleteInvalidLineStructures() {
-  const double station_min = alignment_.points()->front().station;
-  const double station_max = alignment_.points()->back().station;
-
   // clears line structures outside of alignment
   auto iter = line_structures_.cbegin();
   while (iter != line_structures_.cend()) {
     const LineStructure& line_structure = *iter;
-    const double station = line_structure.station();
-    if ((station < station_min) || (station_max < station)) {
+    if (alignment_.IsValidStation(line_structure.station()) == false) {
       // clears any references to the structure and deletes
       const int index = std::distance(line_structures_.cbegin(), iter);
       DeleteConnectionsFromStructure(index);
-- 
2.43.0


From 228201b673613cf7a4a0fa674e2d9f7ddd418411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 07/52] fix: solve structure coordinates on an alignment with a
 single point

The segment ahead of the only point was read, which threw out_of_range from
every coordinate query and from validation.
---
 src/transmissionline/transmission_line.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index a74db4a..91a8797 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -644,19 +644,18 @@ Point3d<double> TransmissionLine::PointXyzAlignmentFromStation(
     return Point3d<double>();
   }
 
-  // gets the back and ahead xyz points
+  // gets the back xyz and alignment points
   const Point3d<double>& point_xyz_back =
       points_xyz_alignment_.at(index_segment);
-  const Point3d<double>& point_xyz_ahead =
-      points_xyz_alignment_.at(index_segment + 1);
-
-  // gets back and ahead alignment points
   const AlignmentPoint& point_align_back =
       *std::next(alignment_.points()->cbegin(), index_segment);
   if (station == point_align_back.station) {
     return point_xyz_back;
   }
 
+  // gets the ahead xyz and alignment points
+  const Point3d<double>& point_xyz_ahead =
+      points_xyz_alignment_.at(index_segment + 1);
   const AlignmentPoint& point_align_ahead =
       *std::next(alignment_.points()->cbegin(), index_segment + 1);
   if (station == point_align_ahead.station) {
@@ -803,6 +802,13 @@ Vector2d TransmissionLine::VectorXyAlignmentStructure(const int& index) const {
   const std::list<AlignmentPoint>* points = alignment_.points();
   const int index_segment = alignment_.IndexSegment(line_structure.station());
 
+  // checks if there is only one alignment point, and no segments
+  if (points->size() == 1) {
+    Vector2d vector(1, 0);
+    vector.Rotate(points->front().rotation);
+    return vector;
+  }
+
   // checks if line structure station matches first or last alignment point
   // these are the only points where there isn't two alignment vectors to
   // average
-- 
2.43.0


From 00d7d1446b3198724ef517943150d56db7d52a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 08/52] fix: a line cable connection on missing or wrong
 hardware is invalid

The wrong hardware type was reported in the messages but the connection was
still accepted, so lines kept cables whose terminating connections had become
invalid; missing hardware or an attachment out of range crashed.
---
 src/transmissionline/line_cable.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index f971f74..43dbf59 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -261,12 +261,29 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
          iter++) {
       const LineCableConnection* connection = &(*iter);
       const LineStructure* structure = connection->line_structure;
-      const Hardware* hardware =
-          structure->hardwares()->at(connection->index_attachment);
+
+      // checks that attachment exists and has hardware
+      const int kSizeHardwares = structure->hardwares()->size();
+      const Hardware* hardware = nullptr;
+      if ((0 <= connection->index_attachment)
+          && (connection->index_attachment < kSizeHardwares)) {
+        hardware = structure->hardwares()->at(connection->index_attachment);
+      }
+
+      if (hardware == nullptr) {
+        is_valid = false;
+        message.description = "Line cable connection does not have hardware";
+        if (messages != nullptr) {
+          messages->push_back(message);
+        }
+        continue;
+      }
+
       if ((connection == &connections_.front())
           || (connection == &connections_.back())) {
         // checks for dead-end hardware at start and end connections
         if (hardware->type != Hardware::HardwareType::kDeadEnd) {
+          is_valid = false;
           message.description = "Terminal line cable connection does not have "
                                 "dead-end type hardware";
           if (messages != nullptr) {
@@ -276,6 +293,7 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
       } else {
         // checks for suspension hardware at all middle connections
         if (hardware->type != Hardware::HardwareType::kSuspension) {
+          is_valid = false;
           message.description = "Interior line cable connection does not have "
                                 "suspension type hardware";
           if (messages != nullptr) {
-- 
2.43.0


From 29f011e8c68bea2628d67fdbcb9e1a5e794695d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 09/52] fix: line cable validation accounts for its connections

The result of validating the connections was ignored.
---
 src/transmissionline/line_cable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index 43dbf59..0445441 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -235,7 +235,9 @@ bool LineCable::Validate(const bool& is_included_warnings,
   }
 
   // validates connections
-  ValidateConnections(is_included_warnings, messages);
+  if (ValidateConnections(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // returns validation status
   return is_valid;
-- 
2.43.0


From 7b9e92bd6fc13e4ff0e33c1b521aa7c1bab24be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 10/52] fix: an invalid line structure index has no connection

HasConnection() advanced past the end of the list and dereferenced it.
---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 91a8797..8658c09 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -205,6 +205,11 @@ bool TransmissionLine::DeleteLineStructure(const int& index) {
 
 bool TransmissionLine::HasConnection(const int& index_structure,
                                      const int& index_attachment) const {
+  // checks if index is valid
+  if (IsValidLineStructureIndex(index_structure) == false) {
+    return false;
+  }
+
   // gets line structure
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
-- 
2.43.0


From 22969d6a3212331d354fae2cd88eb9c6eff59d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 11/52] fix: modify a line cable from a reference into the same
 line

The argument was read after the cable it referred to was deleted.
---
 src/transmissionline/transmission_line.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 8658c09..1931de7 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -292,13 +292,16 @@ int TransmissionLine::ModifyLineCable(const int& index,
   auto iter = std::next(line_cables_.begin(), index);
   const LineCable line_cable_cache = *iter;
 
+  // copies new line cable, as it might reference the one being deleted
+  const LineCable line_cable_new = line_cable;
+
   // deletes and then adds back
   bool status = DeleteLineCable(index);
   if (status == false) {
     return -1;
   }
 
-  const int index_new = AddLineCable(line_cable);
+  const int index_new = AddLineCable(line_cable_new);
   if (index_new == -1) {
     // adds back original line cable
     AddLineCable(line_cable_cache);
-- 
2.43.0


From b99916d4ff1e6fdea362eee353c38477fae93fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 12/52] fix: modify an alignment point from a reference into
 the same alignment

The argument was read after the point it referred to was deleted.
---
 src/transmissionline/alignment.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index e34d91f..0524e3c 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -143,11 +143,14 @@ int Alignment::ModifyPoint(const int& index, const AlignmentPoint& point) {
 
   // caches specified point in case something goes wrong
   AlignmentPoint point_cache = *std::next(points_.cbegin(), index);
+
+  // copies new point, as it might reference the one being deleted
+  const AlignmentPoint point_new = point;
   if (DeletePoint(index) == false) {
     return -1;
   }
 
-  const int status = AddPoint(point);
+  const int status = AddPoint(point_new);
   if (status == -1) {
     // resets cached point
     AddPoint(point_cache);
-- 
2.43.0


From edeeadafa8ada7d7abad1ffc4b49cf0e6905ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 13/52] fix: modify a line cable connection from a reference
 into the same cable

The argument was read after the connection it referred to was deleted.
---
 src/transmissionline/line_cable.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index 0445441..ade6cb9 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -130,11 +130,14 @@ int LineCable::ModifyConnection(const int& index,
   // caches specified connection in case something goes wrong
   LineCableConnection connection_cache = *std::next(connections_.cbegin(),
                                                     index);
+
+  // copies new connection, as it might reference the one being deleted
+  const LineCableConnection connection_new = connection;
   if (DeleteConnection(index) == false) {
     return -1;
   }
 
-  const int status = AddConnection(connection);
+  const int status = AddConnection(connection_new);
   if (status == -1) {
     // resets cached connection
     AddConnection(connection_cache);
-- 
2.43.0


From 965df86292d3eb0e062c711a0874b35b1cbb0761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 14/52] fix: handle line structures that have no structure
 defined

Asking for an attachment point, or modifying a line structure to have no
structure, dereferenced a null pointer.
---
 src/transmissionline/transmission_line.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 1931de7..d20c077 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -423,6 +423,11 @@ Point3d<double> TransmissionLine::PointXyzLineStructureAttachment(
   const LineStructure& line_structure = *std::next(line_structures_.cbegin(),
                                                    index_structure);
 
+  // checks if structure is defined
+  if (line_structure.structure() == nullptr) {
+    return Point3d<double>();
+  }
+
   // checks if attachment index is valid
   const int kSizeAttachments = line_structure.structure()->attachments.size();
   if ((index_attachment < 0) || (kSizeAttachments <= index_attachment)) {
@@ -571,7 +576,7 @@ void TransmissionLine::DeleteInvalidConnectionsFromStructure(
   // gets line structure and attachment count
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
-  const int kSizeAttachments = line_structure->structure()->attachments.size();
+  const int kSizeAttachments = line_structure->hardwares()->size();
 
   // searches line cables
   for (auto iter_cable = line_cables_.begin();
-- 
2.43.0


From ee8d463b06cfc1edd81fbebfff1ee33d5d7faab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 15/52] fix: CompareStrings orders a proper prefix before the
 longer string

---
 src/base/helper.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/base/helper.cc b/src/base/helper.cc
index 2b34627..bacfe7e 100644
--- a/src/base/helper.cc
+++ b/src/base/helper.cc
@@ -22,7 +22,13 @@ int CompareStrings(const std::string& str1, const std::string& str2) {
   }
 
   // an end of a string is reached
-  return str1.length() > str2.length();
+  if (str1.length() < str2.length()) {
+    return -1;
+  } else if (str1.length() > str2.length()) {
+    return 1;
+  }
+
+  return 0;
 }
 
 std::string DoubleToString(const double& value,
-- 
2.43.0


From 15c82fa315af8b668c78b28ea267bfe7ba4d1baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 16/52] fix: Polynomial copies do not share or leak the owned
 derivative; coefficients initialised

---
 include/models/base/polynomial.h | 11 +++++++++++
 src/base/polynomial.cc           | 20 ++++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/models/base/polynomial.h b/include/models/base/polynomial.h
index e98feae..001beec 100644
--- a/include/models/base/polynomial.h
+++ b/include/models/base/polynomial.h
@@ -27,9 +27,20 @@ class Polynomial {
   ///   A list of coefficients.
   explicit Polynomial(const std::vector<double>* coefficients);
 
+  /// \brief Copy constructor.
+  /// \param[in] polynomial
+  ///   The source object.
+  Polynomial(const Polynomial& polynomial);
+
   /// \brief Destructor.
   ~Polynomial();
 
+  /// \brief Copy assignment operator.
+  /// \param[in] polynomial
+  ///   The source object.
+  /// \return This object.
+  Polynomial& operator=(const Polynomial& polynomial);
+
   /// \brief Gets the derivative of the polynomial.
   /// \return A polynomial with derivative coefficients.
   Polynomial Derivative() const;
diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 45aecaa..7491f27 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -8,6 +8,7 @@
 #include "models/base/point.h"
 
 Polynomial::Polynomial() {
+  coefficients_ = nullptr;
   derivative_ = nullptr;
   is_updated_derivative_ = false;
 }
@@ -18,10 +19,23 @@ Polynomial::Polynomial(const std::vector<double>* coefficients) {
   is_updated_derivative_ = false;
 }
 
+Polynomial::Polynomial(const Polynomial& polynomial) {
+  // the derivative is owned, so it is not copied, but solved again when needed
+  coefficients_ = polynomial.coefficients_;
+  derivative_ = nullptr;
+  is_updated_derivative_ = false;
+}
+
 Polynomial::~Polynomial() {
   delete derivative_;
 }
 
+Polynomial& Polynomial::operator=(const Polynomial& polynomial) {
+  // the derivative is owned, so it is not copied, but solved again when needed
+  set_coefficients(polynomial.coefficients_);
+  return *this;
+}
+
 Polynomial Polynomial::Derivative() const {
   Polynomial derivative;
 
@@ -71,8 +85,10 @@ bool Polynomial::Validate(const bool& /*is_included_warnings*/,
   // validates update process
   is_valid = Update();
   if (is_valid == false) {
-    message.description = "Error solving derivative coefficients";
-    messages->push_back(message);
+    if (messages != nullptr) {
+      message.description = "Error solving derivative coefficients";
+      messages->push_back(message);
+    }
   }
 
   return is_valid;
-- 
2.43.0


From c4e717ac7bbf6f54dc599e20d137041fb5c919d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:14 +0000
Subject: [PATCH 17/52] fix: CatenarySolver keeps reporting failure when the
 solved catenary is invalid

---
 src/transmissionline/catenary_solver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 1270204..44409e9 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -484,7 +484,8 @@ bool CatenarySolver::Update() const {
   }
 
   // validates catenary to make sure that H/w is valid
-  if (catenary_.Validate(false, nullptr) == false) {
+  is_updated_ = catenary_.Validate(false, nullptr);
+  if (is_updated_ == false) {
     return false;
   }
 
-- 
2.43.0


From b08b9e83292f9302677328f32e3a71efd8defe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:17 +0000
Subject: [PATCH 18/52] fix: CatenarySolver does not fail on a target it hits
 exactly or approaches from one side

---
 src/transmissionline/catenary_solver.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 44409e9..1c43f74 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -243,6 +243,8 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
   unsigned int iter = 0;
   const int iter_max = 100;
   while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
+    const double x_previous = point_current.x;
+
     // gets current point x value using left and right points
     // calculates tangent line between points, extrapolates using line
     double slope_line = (point_right.y - point_left.y)
@@ -254,6 +256,12 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
     // gets current point y value
     point_current.y = UpdateCatenaryLength(point_current.x);
 
+    // stops if the current point has settled, the left and right points might
+    // not approach it from both sides
+    if (std::abs(point_current.x - x_previous) < 0.0001) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -324,6 +332,8 @@ bool CatenarySolver::SolveHorizontalTensionFromSag() const {
   unsigned int iter = 0;
   const int iter_max = 100;
   while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
+    const double x_previous = point_current.x;
+
     // gets current point x value using left and right points
     // calculates tangent line between points, extrapolates using line
     double slope_line = (point_right.y - point_left.y)
@@ -335,6 +345,12 @@ bool CatenarySolver::SolveHorizontalTensionFromSag() const {
     // gets current point y value
     point_current.y = UpdateCatenarySag(point_current.x, position_target_);
 
+    // stops if the current point has settled, the left and right points might
+    // not approach it from both sides
+    if (std::abs(point_current.x - x_previous) < 0.0001) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -406,6 +422,8 @@ bool CatenarySolver::SolveHorizontalTensionFromTension() const {
   unsigned int iter = 0;
   const int iter_max = 100;
   while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
+    const double x_previous = point_current.x;
+
     // gets current point x value using left and right points
     // calculates tangent line between points, extrapolates using line
     double slope_line = (point_right.y - point_left.y)
@@ -417,6 +435,12 @@ bool CatenarySolver::SolveHorizontalTensionFromTension() const {
     // gets current point y value
     point_current.y = UpdateCatenaryTension(point_current.x, position_target_);
 
+    // stops if the current point has settled, the left and right points might
+    // not approach it from both sides
+    if (std::abs(point_current.x - x_previous) < 0.0001) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0


From b7ea338e3ed006a50a2fb10eac856a9075cbecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 19/52] fix: CablePositionLocator has one span less than
 connections

---
 src/transmissionline/cable_position_locator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 55d387b..69a306e 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -33,7 +33,7 @@ std::list<Point3d<double>> CablePositionLocator::PointsCable(
   }
 
   // determines if span index is valid
-  if ((index_span < 0) || (size_connections_ - 1 < index_span)) {
+  if ((index_span < 0) || (size_connections_ - 1 <= index_span)) {
     return points;
   }
 
-- 
2.43.0


From 8a11772618aafbb89dada461e802219047d2f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:57 +0000
Subject: [PATCH 20/52] fix: CablePositionLocator handles a missing line, cable
 or unit weight

---
 src/transmissionline/cable_position_locator.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 69a306e..c0991b4 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -281,7 +281,16 @@ bool CablePositionLocator::InitializeConnectionData() const {
 
 bool CablePositionLocator::InitializeContainers() const {
   // gets the line cable
+  if (line_ == nullptr) {
+    return false;
+  }
+
   const std::list<LineCable>* line_cables = line_->line_cables();
+  const int kSizeLineCables = line_cables->size();
+  if ((index_cable_ < 0) || (kSizeLineCables <= index_cable_)) {
+    return false;
+  }
+
   const LineCable& line_cable = *std::next(line_cables->cbegin(), index_cable_);
 
   // caches the number of connections
@@ -394,7 +403,7 @@ bool CablePositionLocator::Update() const {
   }
 
   // solves for the cable position
-  is_updated_ = SolveCablePosition();
+  is_updated_ = (weight_unit_ != nullptr) && (SolveCablePosition() == true);
   if (is_updated_ == false) {
     return false;
   }
-- 
2.43.0


From a418d9d1052ea9214ebd69e0d7ec3179596e61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:50 +0000
Subject: [PATCH 21/52] fix: CablePositionLocator swings hardware to the
 correct side at any heading and line angle

---
 .../cable_position_locator.cc                 | 49 ++++++++++++-------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index c0991b4..cac7a40 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -330,7 +330,6 @@ bool CablePositionLocator::InitializePointsHardware() const {
     const Point3d<double>& point_ahead = points_structure_[index + 1];
 
     // creates unit vectors from current point to back and ahead points
-    // adds the unit vectors together to get the bisect orientation
     Vector2d vector_back;
     vector_back.set_x(point_back.x - point_current.x);
     vector_back.set_y(point_back.y - point_current.y);
@@ -341,9 +340,20 @@ bool CablePositionLocator::InitializePointsHardware() const {
     vector_ahead.set_y(point_ahead.y - point_current.y);
     vector_ahead.Scale(1 / vector_ahead.Magnitude());
 
+    // the hardware swings in the plane that bisects the spans, which is
+    // perpendicular to the direction from the back to the ahead point
+    // the orientation points to the inside of the line angle
     Vector2d vector_combined;
-    vector_combined.set_x(vector_back.x() + vector_ahead.x());
-    vector_combined.set_y(vector_back.y() + vector_ahead.y());
+    vector_combined.set_x(vector_ahead.x() - vector_back.x());
+    vector_combined.set_y(vector_ahead.y() - vector_back.y());
+
+    const double turn = vector_back.y() * vector_ahead.x()
+                        - vector_back.x() * vector_ahead.y();
+    if (0 <= turn) {
+      vector_combined.Rotate(90);
+    } else {
+      vector_combined.Rotate(-90);
+    }
 
     // gets the hardware assembly at the connection
     const Hardware* hardware = hardwares_[index];
@@ -494,34 +504,37 @@ double CablePositionLocator::UpdatePointsHardware() const {
 
     catenary_ahead.set_spacing_endpoints(spacing);
 
-    // creates unit vectors from current point to back and ahead points
-    // finds the difference between the angles
+    // finds the line angle between the back and ahead spans, which is positive
+    // for a left turn
     Vector2d vector_back;
-    vector_back.set_x(point_back.x - point_current.x);
-    vector_back.set_y(point_back.y - point_current.y);
-    const double angle_back = vector_back.Angle();
+    vector_back.set_x(point_current.x - point_back.x);
+    vector_back.set_y(point_current.y - point_back.y);
 
     Vector2d vector_ahead;
     vector_ahead.set_x(point_ahead.x - point_current.x);
     vector_ahead.set_y(point_ahead.y - point_current.y);
-    vector_ahead.Scale(1 / vector_ahead.Magnitude());
-    const double angle_ahead = vector_ahead.Angle();
+    vector_ahead.Rotate(-1 * vector_back.Angle());
+    const double angle_line = vector_ahead.Angle(true);
 
-    const double angle_catenaries = std::abs(angle_ahead - angle_back);
+    // gets the hardware point
+    SphericalPoint3d<double>& point_hardware = points_hardware_[index];
+
+    // determines which side of the line the hardware orientation is on and
+    // solves the angle between the catenaries on that side
+    Vector2d vector_hardware(1, 0);
+    vector_hardware.Rotate(point_hardware.angle_x - vector_back.Angle()
+                           - angle_line / 2);
 
-    // determines the direction of the line angle
     AxisDirectionType direction_line_angle;
-    vector_back.Rotate(180);
-    const double angle_diff_xy = std::abs(angle_ahead - angle_back);
-    if (angle_diff_xy <= 180) {
+    double angle_catenaries = 180;
+    if (0 <= vector_hardware.y()) {
       direction_line_angle = AxisDirectionType::kPositive;
+      angle_catenaries = 180 - angle_line;
     } else {
       direction_line_angle = AxisDirectionType::kNegative;
+      angle_catenaries = 180 + angle_line;
     }
 
-    // gets the hardware point
-    SphericalPoint3d<double>& point_hardware = points_hardware_[index];
-
     // updates the equilibrium solver
     solver_equilibrium.set_angle_catenaries(angle_catenaries);
     solver_equilibrium.set_angle_hardware(point_hardware.angle_z);
-- 
2.43.0


From f39118dd0d52904f9fcd03707e7c6dbff96dc80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:32 +0000
Subject: [PATCH 22/52] fix: convert loads to polynomial loads when solving a
 component's strain

---
 src/sagtension/cable_component_elongation_model.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index ab4ff25..76d29a3 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -521,8 +521,9 @@ double CableComponentElongationModel::StrainPolynomial(
     const double& strain_thermal,
     const double& load) const {
   // gets strain from polynomial
+  // removes scaling to convert load to polynomial load
   const double strain_polynomial = polynomial.X(
-      load,  // target value
+      load / *component_->scale_polynomial_y(),  // target value
       2,     // precision
       0.1);  // initial guess
 
-- 
2.43.0


From 2bd1bf1483a0efb98dec2f835636fb1d17bedbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:54 +0000
Subject: [PATCH 23/52] fix: recompute a component's stretch when its state
 changes

---
 src/sagtension/cable_component_elongation_model.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 76d29a3..e3600ed 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -218,6 +218,7 @@ void CableComponentElongationModel::set_component_cable(
 void CableComponentElongationModel::set_state(const CableState* state) {
   state_ = state;
 
+  is_updated_stretch_ = false;
   is_updated_state_ = false;
 }
 
-- 
2.43.0


From d968d7dd29d0facf81e64450842af415468fe6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 24/52] fix: validating a cable elongation model no longer
 replaces its stretch

---
 src/sagtension/cable_elongation_model.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index de4ba5d..c7cc3b5 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -611,7 +611,7 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // determines if this check is necessary, both core and shell must be enabled
   if ((cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)
-      || (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)) {
+      || (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == false)) {
     return is_valid;
   }
 
@@ -657,10 +657,10 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // restores component states
   model_core_.set_state(&state_);
-  model_core_.set_state_stretch(&state_stretch_);
+  model_core_.set_state_stretch(&state_stretch_core_);
 
   model_shell_.set_state(&state_);
-  model_shell_.set_state_stretch(&state_stretch_);
+  model_shell_.set_state_stretch(&state_stretch_shell_);
 
   return is_valid;
 }
-- 
2.43.0


From 8b2daa0c7a1d0b9507f6c1aa20fe45e6e9a70870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 25/52] fix: a cable elongation model without cable or
 components fails instead of reading out of range

---
 src/sagtension/cable_elongation_model.cc | 7 +++++++
 src/sagtension/sag_tension_cable.cc      | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index c7cc3b5..eaefb3c 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -405,6 +405,13 @@ double CableElongationModel::StrainShell(const double& load) const {
 }
 
 bool CableElongationModel::Update() const {
+  // checks that there is a cable with at least one component
+  if ((cable_ == nullptr)
+      || (cable_->IsEnabled(SagTensionCable::ComponentType::kCombined)
+          == false)) {
+    return false;
+  }
+
   // updates stretch
   if (is_updated_stretch_ == false) {
     is_updated_stretch_ = UpdateComponentsStretch();
diff --git a/src/sagtension/sag_tension_cable.cc b/src/sagtension/sag_tension_cable.cc
index cbb84b0..92e3fe6 100644
--- a/src/sagtension/sag_tension_cable.cc
+++ b/src/sagtension/sag_tension_cable.cc
@@ -5,6 +5,7 @@
 
 SagTensionCableComponent::SagTensionCableComponent() {
   component_base_ = nullptr;
+  is_enabled_ = false;
 }
 
 SagTensionCableComponent::~SagTensionCableComponent() {
-- 
2.43.0


From ee49a9f83b8989c30141b3b441a32af421c5e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 26/52] fix: a cable elongation model extends into compression
 when a component can be compressed

---
 src/sagtension/cable_elongation_model.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index eaefb3c..f765ef1 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -292,10 +292,12 @@ double CableElongationModel::StrainCombined(
   // load is less than all points in the sorted collection
   if (load <= point_regions_min.y) {
     // determines if core and/or shell can be compressed
-    bool is_compressible_core =
-        cable_->component_core()->modulus_compression_elastic_area() == 0;
-    bool is_compressible_shell =
-        cable_->component_shell()->modulus_compression_elastic_area() == 0;
+    const bool is_compressible_core =
+        (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == true)
+        && (0 < *cable_->component_core()->modulus_compression_elastic_area());
+    const bool is_compressible_shell =
+        (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == true)
+        && (0 < *cable_->component_shell()->modulus_compression_elastic_area());
 
     if ((is_compressible_core == false) && (is_compressible_shell == false)) {
       // cable has no compressive ability, returns minimum value
-- 
2.43.0


From 03f7b671df8eedfb40e318920782765253fa424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 27/52] fix: a component in compression when the cable is
 stretched is not stretched

---
 src/sagtension/cable_elongation_model.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index f765ef1..574f217 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -488,13 +488,14 @@ bool CableElongationModel::UpdateComponentsStretch() const {
   point_stretch.x = StrainCombined(point_stretch.y);
 
   // updates component stretch loads
+  // a component that is compressed is not stretched
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == true) {
-    state_stretch_core_.load = LoadCore(point_stretch.x);
+    state_stretch_core_.load = std::max(0.0, LoadCore(point_stretch.x));
     model_core_.set_state_stretch(&state_stretch_core_);
   }
 
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == true) {
-    state_stretch_shell_.load = LoadShell(point_stretch.x);
+    state_stretch_shell_.load = std::max(0.0, LoadShell(point_stretch.x));
     model_shell_.set_state_stretch(&state_stretch_shell_);
   }
 
-- 
2.43.0


From 334821c63e44e83a0036e300cc414cb23a4be06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:17 +0000
Subject: [PATCH 28/52] fix: copies of a cable elongation model do not refer to
 the states of the original

---
 .../sagtension/cable_elongation_model.h       | 11 ++++++++++
 src/sagtension/cable_elongation_model.cc      | 21 +++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/include/models/sagtension/cable_elongation_model.h b/include/models/sagtension/cable_elongation_model.h
index 364af76..bbe3762 100644
--- a/include/models/sagtension/cable_elongation_model.h
+++ b/include/models/sagtension/cable_elongation_model.h
@@ -73,9 +73,20 @@ class CableElongationModel {
   /// \brief Default constructor.
   CableElongationModel();
 
+  /// \brief Copy constructor.
+  /// \param[in] cable_model
+  ///   The cable elongation model to copy.
+  CableElongationModel(const CableElongationModel& cable_model);
+
   /// \brief Destructor.
   ~CableElongationModel();
 
+  /// \brief Copy assignment operator.
+  /// \param[in] cable_model
+  ///   The cable elongation model to copy.
+  /// \return A reference to this cable elongation model.
+  CableElongationModel& operator=(const CableElongationModel& cable_model);
+
   /// \brief Gets the load.
   /// \param[in] type_component
   ///   The model component type.
diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 574f217..7a6d254 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -31,9 +31,30 @@ CableElongationModel::CableElongationModel() {
   is_updated_stretch_ = false;
 }
 
+CableElongationModel::CableElongationModel(
+    const CableElongationModel& cable_model) {
+  *this = cable_model;
+}
+
 CableElongationModel::~CableElongationModel() {
 }
 
+/// The component models reference the states that are stored in this class, so
+/// they are updated again instead of being taken over as they are.
+CableElongationModel& CableElongationModel::operator=(
+    const CableElongationModel& cable_model) {
+  cable_ = cable_model.cable_;
+  model_core_ = cable_model.model_core_;
+  model_shell_ = cable_model.model_shell_;
+  state_ = cable_model.state_;
+  state_stretch_ = cable_model.state_stretch_;
+
+  is_updated_stretch_ = false;
+  is_updated_state_ = false;
+
+  return *this;
+}
+
 double CableElongationModel::Load(
     const CableElongationModel::ComponentType& type_component,
     const double& strain) const {
-- 
2.43.0


From 5383a33433cfe66b67788f432163d97a71fa4f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:36 +0000
Subject: [PATCH 29/52] fix: copies of a line cable loader do not refer to the
 cable of the original

---
 include/models/sagtension/line_cable_loader_base.h | 11 +++++++++++
 src/sagtension/line_cable_loader_base.cc           | 13 +++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/models/sagtension/line_cable_loader_base.h b/include/models/sagtension/line_cable_loader_base.h
index fb03abc..caff806 100644
--- a/include/models/sagtension/line_cable_loader_base.h
+++ b/include/models/sagtension/line_cable_loader_base.h
@@ -35,9 +35,20 @@ class LineCableLoaderBase {
   /// \brief Default constructor.
   LineCableLoaderBase();
 
+  /// \brief Copy constructor.
+  /// \param[in] loader
+  ///   The line cable loader to copy.
+  LineCableLoaderBase(const LineCableLoaderBase& loader);
+
   /// \brief Destructor.
   ~LineCableLoaderBase();
 
+  /// \brief Copy assignment operator.
+  /// \param[in] loader
+  ///   The line cable loader to copy.
+  /// \return A reference to this line cable loader.
+  LineCableLoaderBase& operator=(const LineCableLoaderBase& loader);
+
   /// \brief Gets the stretch state for the creep condition.
   /// \return The stretch state for the creep condition.
   CableStretchState StretchStateCreep() const;
diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 27b718e..a25ac7e 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -15,9 +15,22 @@ LineCableLoaderBase::LineCableLoaderBase() {
   is_updated_stretch_ = false;
 }
 
+LineCableLoaderBase::LineCableLoaderBase(const LineCableLoaderBase& loader) {
+  set_line_cable(loader.line_cable_);
+}
+
 LineCableLoaderBase::~LineCableLoaderBase() {
 }
 
+/// The cable models reference the cable that is stored in this class, so they
+/// are updated again instead of being taken over as they are.
+LineCableLoaderBase& LineCableLoaderBase::operator=(
+    const LineCableLoaderBase& loader) {
+  set_line_cable(loader.line_cable_);
+
+  return *this;
+}
+
 CableStretchState LineCableLoaderBase::StretchStateCreep() const {
   // updates class if necessary
   if ((IsUpdated() == false) && (Update() == false)) {
-- 
2.43.0


From 1d6a25abad48ee8077fdb5d9de71ae956e2f0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:37 +0000
Subject: [PATCH 30/52] fix: validating a cable strainer without models reports
 them instead of crashing

---
 src/sagtension/cable_strainer.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sagtension/cable_strainer.cc b/src/sagtension/cable_strainer.cc
index e00f55b..3bf4ba6 100644
--- a/src/sagtension/cable_strainer.cc
+++ b/src/sagtension/cable_strainer.cc
@@ -75,6 +75,24 @@ bool CableStrainer::Validate(const bool& is_included_warnings,
     }
   }
 
+  // validates model-elongation-start
+  if (model_elongation_start_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid start elongation model";
+      messages->push_back(message);
+    }
+  }
+
+  // validates model-elongation-finish
+  if (model_elongation_finish_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid finish elongation model";
+      messages->push_back(message);
+    }
+  }
+
   // returns if errors are present
   if (is_valid == false) {
     return is_valid;
-- 
2.43.0


From 23c9521fc9e9cf669be12a342331f5fe153ddc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:37 +0000
Subject: [PATCH 31/52] fix: a catenary cable unloader can be given no catenary

---
 src/sagtension/catenary_cable_unloader.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/catenary_cable_unloader.cc b/src/sagtension/catenary_cable_unloader.cc
index 4a5b564..ae7142f 100644
--- a/src/sagtension/catenary_cable_unloader.cc
+++ b/src/sagtension/catenary_cable_unloader.cc
@@ -60,8 +60,13 @@ const CableElongationModel* CatenaryCableUnloader::model_unloaded() const {
 void CatenaryCableUnloader::set_catenary(const Catenary3d* catenary) {
   catenary_ = catenary;
 
-  strainer_.set_length_start(catenary_->Length());
-  strainer_.set_load_start(catenary_->TensionAverage());
+  if (catenary_ == nullptr) {
+    strainer_.set_length_start(-999999);
+    strainer_.set_load_start(-999999);
+  } else {
+    strainer_.set_length_start(catenary_->Length());
+    strainer_.set_load_start(catenary_->TensionAverage());
+  }
 }
 
 void CatenaryCableUnloader::set_model_reference(
-- 
2.43.0


From da3f5c9b071e590e1c10b3fd0e945ee4853deee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:37 +0000
Subject: [PATCH 32/52] fix: a catenary reloader fails when the catenary is
 shorter than the cable

---
 src/sagtension/catenary_cable_reloader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sagtension/catenary_cable_reloader.cc b/src/sagtension/catenary_cable_reloader.cc
index f90455f..a9c77ab 100644
--- a/src/sagtension/catenary_cable_reloader.cc
+++ b/src/sagtension/catenary_cable_reloader.cc
@@ -317,7 +317,7 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
   // returns success status
   if (iter < iter_max) {
     // does one last sanity check to see if lengths match
-    return point_current.y < 0.1;
+    return std::abs(point_current.y) < 0.1;
   } else {
     return false;
   }
-- 
2.43.0


From 449e69fc16ed4c3f0a2625839519cadf9e73dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:38 +0000
Subject: [PATCH 33/52] fix: a cable elongation model finds the strain where
 the curve is flat

---
 src/sagtension/cable_elongation_model.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 7a6d254..ff60c00 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -366,9 +366,15 @@ double CableElongationModel::StrainCombined(
   while ((precision < std::abs(point_current.y - load)) && (iter < 100)) {
     // calculates new strain value by using tangent line between points,
     // extrapolates using line
+    // switches to the middle of the range if the tangent line converges slowly,
+    // which happens where the curve is bent
     slope_line = (point_right.y - point_left.y)
                   / (point_right.x - point_left.x);
-    point_current.x = point_left.x + ((load - point_left.y) / slope_line);
+    if ((50 < iter) && (point_left.y < load) && (load < point_right.y)) {
+      point_current.x = (point_left.x + point_right.x) / 2;
+    } else {
+      point_current.x = point_left.x + ((load - point_left.y) / slope_line);
+    }
 
     // gets current point load
     point_current.y = LoadCombined(point_current.x);
-- 
2.43.0


From f63c207f458ddc6afe652ad41dd080ddc8864901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:44 +0000
Subject: [PATCH 34/52] fix: a catenary reloader accepts a trial tension that
 is the exact solution

---
 src/sagtension/catenary_cable_reloader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/catenary_cable_reloader.cc b/src/sagtension/catenary_cable_reloader.cc
index a9c77ab..5e6ce47 100644
--- a/src/sagtension/catenary_cable_reloader.cc
+++ b/src/sagtension/catenary_cable_reloader.cc
@@ -284,6 +284,11 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
     // gets current point length difference
     point_current.y = LengthDifference(point_current.x);
 
+    // current point is the exact solution
+    if (point_current.y == target_solution) {
+      break;
+    }
+
     // current point is left of left/right points
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0


From b967972929d23b2b67c83ecd1136da3558a42242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:33 +0000
Subject: [PATCH 35/52] fix: cable resistance uses the resistance points that
 bound the temperature

---
 src/thermalrating/thermal_rating_cable.cc | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/thermalrating/thermal_rating_cable.cc b/src/thermalrating/thermal_rating_cable.cc
index 980974b..a782d29 100644
--- a/src/thermalrating/thermal_rating_cable.cc
+++ b/src/thermalrating/thermal_rating_cable.cc
@@ -84,19 +84,14 @@ double ThermalRatingCable::Resistance(const double& temperature) const {
   // searches list of points for the closest ones to target temp, starting
   // from the lowest
   while (true) {
-    // stops searching if resistance points bound the target temp
-    if ((point_low->temperature < temperature)
-         && (temperature < point_high->temperature)) {
-      break;
-    }
-
-    // stops searching if both resistance points are greater than target temp
-    if ((point_low->temperature < temperature)
-         && (point_high->temperature < temperature)) {
+    // stops searching if target temp isn't above the high resistance point
+    // the first points are used if the target temp is below all points
+    if (temperature <= point_high->temperature) {
       break;
     }
 
     // increments and stops searching if the end is found
+    // the last points are used if the target temp is above all points
     iter++;
     if (iter == resistances.cend()) {
       break;
-- 
2.43.0


From b3faebef92df452bcfce74950bf9bcd602a3134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:57 +0000
Subject: [PATCH 36/52] fix: convection of a cable that is colder than the air

---
 .../cable_heat_transfer_solver.cc              | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/thermalrating/cable_heat_transfer_solver.cc b/src/thermalrating/cable_heat_transfer_solver.cc
index a96ab1a..a8b7984 100644
--- a/src/thermalrating/cable_heat_transfer_solver.cc
+++ b/src/thermalrating/cable_heat_transfer_solver.cc
@@ -78,7 +78,7 @@ double CableHeatTransferSolver::HeatConvection(
 
   // determines which method of convection is highest and saves it
   // switches sign to indicate that heat is removed
-  if (heat_convection_natural < heat_convection_forced) {
+  if (std::abs(heat_convection_natural) < std::abs(heat_convection_forced)) {
     return -1 * heat_convection_forced;
   } else {
     return -1 * heat_convection_natural;
@@ -231,7 +231,8 @@ double CableHeatTransferSolver::HeatConvectionForced(
       * (temperature_cable - weather_->temperature_air);
 
   // returns the highest forced convection value
-  if (heat_convection_forced_1 <= heat_convection_forced_2) {
+  if (std::abs(heat_convection_forced_1)
+      <= std::abs(heat_convection_forced_2)) {
     return heat_convection_forced_2;
   } else {
     return heat_convection_forced_1;
@@ -252,7 +253,16 @@ double CableHeatTransferSolver::HeatConvectionNatural(
   }
 
   // calculates
-  return k * std::pow(density_air, 0.5)
+  // a cable that is colder than the air gains the heat instead of losing it
+  const double temperature_delta = temperature_cable
+                                   - weather_->temperature_air;
+  const double heat_convection =
+      k * std::pow(density_air, 0.5)
       * std::pow(*cable_->diameter(), 0.75)
-      * std::pow(temperature_cable - weather_->temperature_air, 1.25);
+      * std::pow(std::abs(temperature_delta), 1.25);
+  if (temperature_delta < 0) {
+    return -1 * heat_convection;
+  } else {
+    return heat_convection;
+  }
 }
-- 
2.43.0


From 4cb80f7cd5f25651c8f17961d06b8a2426ac4885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:22 +0000
Subject: [PATCH 37/52] fix: steady cable solvers follow changes of weather and
 units

---
 src/thermalrating/steady_cable_current_solver.cc     | 2 ++
 src/thermalrating/steady_cable_temperature_solver.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/thermalrating/steady_cable_current_solver.cc b/src/thermalrating/steady_cable_current_solver.cc
index a6fb3a2..85ef28b 100644
--- a/src/thermalrating/steady_cable_current_solver.cc
+++ b/src/thermalrating/steady_cable_current_solver.cc
@@ -124,11 +124,13 @@ void SteadyCableCurrentSolver::set_temperature_cable(
 
 void SteadyCableCurrentSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableCurrentSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 double SteadyCableCurrentSolver::temperature_cable() const {
diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5ff38a7..5cff6ae 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -127,11 +127,13 @@ void SteadyCableTemperatureSolver::set_current(const double& current) {
 
 void SteadyCableTemperatureSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableTemperatureSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 units::UnitSystem SteadyCableTemperatureSolver::units() const {
-- 
2.43.0


From 449eb330009d10cf79174aa84a71723ead68b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:41 +0000
Subject: [PATCH 38/52] fix: steady cable temperature is found for every
 current

---
 .../steady_cable_temperature_solver.cc        | 111 ++++++++++--------
 1 file changed, 63 insertions(+), 48 deletions(-)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5cff6ae..c0f5a1e 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -149,87 +149,102 @@ bool SteadyCableTemperatureSolver::IsUpdated() const {
 }
 
 bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
+  // initializes results
+  state_ = CableHeatTransferState();
+  temperature_cable_ = -999999;
+
+  // checks that weather is available to start solving from
+  if (weather_ == nullptr) {
+    return false;
+  }
+
   // creates a steady-state cable current solver
   SteadyCableCurrentSolver solver;
   solver.set_cable(cable_);
   solver.set_units(units_);
   solver.set_weather(weather_);
+  solver.set_temperature_cable(weather_->temperature_air);
+  if (solver.Validate(false, nullptr) == false) {
+    return false;
+  }
 
   // x = cable temperature
   // y = current
 
   // initializes target
-  double target_solution = current_;
+  const double target_solution = current_;
 
   // declares and initializes left point
-  solver.set_temperature_cable(weather_->temperature_air);
-
   Point2d<double> point_left;
   point_left.x = solver.temperature_cable();
   point_left.y = solver.Current();
 
   // declares and initializes right point
-  solver.set_temperature_cable(weather_->temperature_air + 10);
+  double delta = 10;
 
   Point2d<double> point_right;
-  point_right.x = solver.temperature_cable();
+  point_right.x = point_left.x + delta;
+  solver.set_temperature_cable(point_right.x);
   point_right.y = solver.Current();
 
-  // declares current point
-  Point2d<double> point_current;
-
-  // iterates
+  // shifts the points until they bound the solution
+  // the steady-state current increases with cable temperature
   unsigned int iter = 0;
-  const int iter_max = 100;
-  while (0.1 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
-    // gets current point x value using left and right points
-    // calculates tangent line between points, extrapolates using line
-    double slope_line = (point_right.y - point_left.y)
-                        / (point_right.x - point_left.x);
-
-    point_current.x = point_left.x
-                      + ((target_solution - point_left.y) / slope_line);
+  const unsigned int iter_max = 100;
+  while ((target_solution < point_left.y) && (iter < iter_max)) {
+    point_right = point_left;
+    delta = delta * 2;
+    point_left.x = point_right.x - delta;
+    solver.set_temperature_cable(point_left.x);
+    point_left.y = solver.Current();
+    iter++;
+  }
+  while ((point_right.y < target_solution) && (iter < iter_max)) {
+    point_left = point_right;
+    delta = delta * 2;
+    point_right.x = point_left.x + delta;
+    solver.set_temperature_cable(point_right.x);
+    point_right.y = solver.Current();
+    iter++;
+  }
 
-    // gets current point y value
+  // narrows the points
+  while ((0.1 < point_right.x - point_left.x) && (iter < iter_max)) {
+    // gets current point between left and right points
+    Point2d<double> point_current;
+    point_current.x = (point_left.x + point_right.x) / 2;
     solver.set_temperature_cable(point_current.x);
     point_current.y = solver.Current();
 
     // updates either left or right point based on current point
-    if (point_current.x < point_left.x) {
-      point_right.x = point_left.x;
-      point_right.y = point_left.y;
-      point_left.x = point_current.x;
-      point_left.y = point_current.y;
-
-    } else if ((point_left.x < point_current.x)
-        && (point_current.x < point_right.x)) {
-      if (point_current.y < target_solution) {
-        point_right.x = point_current.x;
-        point_right.y = point_current.y;
-      } else if (target_solution < point_current.y) {
-        point_left.x = point_current.x;
-        point_left.y = point_current.y;
-      }
-
-    } else if (point_right.x < point_current.x) {
-      point_left.x = point_right.x;
-      point_left.y = point_right.y;
-      point_right.x = point_current.x;
-      point_right.y = point_current.y;
+    if (point_current.y < target_solution) {
+      point_left = point_current;
+    } else {
+      point_right = point_current;
     }
     iter++;
   }
 
-  // caches results and returns success status
-  if (iter < iter_max) {
-    state_ = solver.StateHeatTransfer();
-    temperature_cable_ = point_current.x;
-    return true;
-  } else {
-    state_ = CableHeatTransferState();
-    temperature_cable_ = -999999;
+  // checks that the points bound the solution
+  if (iter == iter_max || !(point_left.y <= target_solution)
+      || !(target_solution <= point_right.y)) {
     return false;
   }
+
+  // calculates a tangent line between points and solves for temperature
+  double temperature = point_left.x;
+  if (point_left.y < point_right.y) {
+    temperature += (point_right.x - point_left.x)
+                   * (target_solution - point_left.y)
+                   / (point_right.y - point_left.y);
+  }
+
+  // caches results
+  solver.set_temperature_cable(temperature);
+  state_ = solver.StateHeatTransfer();
+  temperature_cable_ = temperature;
+
+  return true;
 }
 
 bool SteadyCableTemperatureSolver::Update() const {
-- 
2.43.0


From 7335c784a6e80311852634feaa3f472871dabe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:45 +0000
Subject: [PATCH 39/52] fix: transient temperatures fail without a steady
 temperature to start from

---
 src/thermalrating/transient_cable_temperature_solver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thermalrating/transient_cable_temperature_solver.cc b/src/thermalrating/transient_cable_temperature_solver.cc
index 122d9de..264edfc 100644
--- a/src/thermalrating/transient_cable_temperature_solver.cc
+++ b/src/thermalrating/transient_cable_temperature_solver.cc
@@ -241,6 +241,9 @@ bool TransientCableTemperatureSolver::UpdateTemperaturePoints() const {
     if (time == 0) {
       // calculates steady-state temperature
       point.temperature = TemperatureSteady(current_steady_);
+      if (point.temperature == -999999) {
+        return false;
+      }
     } else {
       // solves for the heat transfer state
       CableHeatTransferState state = HeatTransferState(current_step_,
-- 
2.43.0


From d20f345886ad28cdf02bcb41b2731feda09a1c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:47 +0000
Subject: [PATCH 40/52] fix: no solar radiation when the sun is below the
 horizon

---
 src/thermalrating/solar_radiation_solver.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index 43dc20d..647dfca 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -334,8 +334,18 @@ bool SolarRadiationSolver::SolveRadiation() const {
   // calculates the radiation using a polynomial
   // this is the radiation at sea level (elevation = 0)
   Polynomial polynomial;
+  // there is no radiation if the sun isn't above the horizon
   polynomial.set_coefficients(&coefficients_atmosphere_);
-  radiation_ = polynomial.Y(altitude_sun_);
+  if (0 < altitude_sun_) {
+    radiation_ = polynomial.Y(altitude_sun_);
+  } else {
+    radiation_ = 0;
+  }
+
+  // the polynomial is negative when the sun is close to the horizon
+  if (radiation_ < 0) {
+    radiation_ = 0;
+  }
 
   // adjusts radiation based on incidence angle and elevation
   const double angle_incidence = AngleIncidence();
-- 
2.43.0


From 64780a44a08ba9fcc54e85c3eb7791ed972ae5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:38 +0000
Subject: [PATCH 41/52] fix: stretch state validation ignored its temperature
 and polynomial type

---
 src/sagtension/cable_state.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_state.cc b/src/sagtension/cable_state.cc
index 5d274b3..faad420 100644
--- a/src/sagtension/cable_state.cc
+++ b/src/sagtension/cable_state.cc
@@ -54,7 +54,9 @@ bool CableStretchState::Validate(const bool& is_included_warnings,
   message.title = "CABLE STRETCH STATE";
 
   // validates parent struct
-  CableState::Validate(is_included_warnings, messages);
+  if (CableState::Validate(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // validates load
   if (load < 0) {
-- 
2.43.0


From d8f67e7d9ee113fae064e52b3992af3096fc6772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:03 +0000
Subject: [PATCH 42/52] fix: structure validation ignored the result of
 validating its attachments

---
 src/transmissionline/structure.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/structure.cc b/src/transmissionline/structure.cc
index c94a8d3..2978f08 100644
--- a/src/transmissionline/structure.cc
+++ b/src/transmissionline/structure.cc
@@ -59,7 +59,9 @@ bool Structure::Validate(
   } else {
     for (auto iter = attachments.cbegin(); iter != attachments.cend(); iter++) {
       const StructureAttachment& attachment = *iter;
-      attachment.Validate(is_included_warnings, messages);
+      if (attachment.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From 888021a4f474bc121e8dd1bd80f7302252eb915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:30 +0000
Subject: [PATCH 43/52] fix: equilibrium solver validation dereferenced missing
 catenaries

---
 src/transmissionline/cable_attachment_equilibrium_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index 73296df..ac528e5 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -98,6 +98,11 @@ bool CableAttachmentEquilibriumSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From 15ba7cb3b214460893d3e951d9e42e87760bf245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:58 +0000
Subject: [PATCH 44/52] fix: line cable reloader validation dereferenced a
 missing weathercase

---
 src/sagtension/line_cable_reloader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/line_cable_reloader.cc b/src/sagtension/line_cable_reloader.cc
index 3ca7d06..55c5950 100644
--- a/src/sagtension/line_cable_reloader.cc
+++ b/src/sagtension/line_cable_reloader.cc
@@ -201,6 +201,11 @@ bool LineCableReloader::Update() const {
 }
 
 bool LineCableReloader::UpdateReloadedCableModel() const {
+  // checks if the reloaded weathercase is defined
+  if (weathercase_reloaded_ == nullptr) {
+    return false;
+  }
+
   // builds cable states based on reloaded weathercase and stretch
   CableState state;
   state.temperature = weathercase_reloaded_->temperature_cable;
-- 
2.43.0


From b8913519be7d0e99f941bdd389a225aefb905d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:48 +0000
Subject: [PATCH 45/52] fix: line cable sagger validation dereferenced missing
 design constraints

---
 src/sagtension/line_cable_sagger.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 3d721ec..2ddba3c 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -96,11 +96,19 @@ bool LineCableSagger::Validate(const bool& is_included_warnings,
   message.title = "LINE CABLE SAGGER";
 
   // validates constraints-design
-  for (auto iter = constraints_design_->cbegin();
-       iter != constraints_design_->cend(); iter++) {
-    const CableConstraint& constraint = *iter;
-    if (constraint.Validate(is_included_warnings, messages) == false) {
-      is_valid = false;
+  if (constraints_design_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid design constraints";
+      messages->push_back(message);
+    }
+  } else {
+    for (auto iter = constraints_design_->cbegin();
+         iter != constraints_design_->cend(); iter++) {
+      const CableConstraint& constraint = *iter;
+      if (constraint.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From 03087ceb632c6c7344eb9cd92b39238ab9ffd87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:49 +0000
Subject: [PATCH 46/52] fix: sag position corrector validation solved with
 invalid inputs

---
 src/sagging/cable_sag_position_corrector.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 3c1894e..5648fcd 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -135,9 +135,18 @@ bool CableSagPositionCorrector::Validate(
   } else {
     if (points_attachment_->size() <= 1) {
       is_valid = false;
+      if (messages != nullptr) {
+        message.description = "Invalid attachment point count";
+        messages->push_back(message);
+      }
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From dab7e64b2f1ea3a38b5bd288b91b4f3e214b3a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:51 +0000
Subject: [PATCH 47/52] fix: stopwatch validation accepted a missing unit
 system

---
 src/sagging/stopwatch_sagger.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sagging/stopwatch_sagger.cc b/src/sagging/stopwatch_sagger.cc
index 5db62e6..5874897 100644
--- a/src/sagging/stopwatch_sagger.cc
+++ b/src/sagging/stopwatch_sagger.cc
@@ -39,6 +39,15 @@ bool StopwatchSagger::Validate(const bool& is_included_warnings,
     is_valid = false;
   }
 
+  // validates units
+  if (units_ == units::UnitSystem::kNull) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid unit system";
+      messages->push_back(message);
+    }
+  }
+
   return is_valid;
 }
 
-- 
2.43.0


From 6d86ac0d6d6ff0ca37c4878ba2551ab527de105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:01 +0000
Subject: [PATCH 48/52] fix: derivative of a polynomial referred to the
 coefficients of the original, also after its destruction

---
 include/models/base/polynomial.h |  5 +++++
 src/base/polynomial.cc           | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/models/base/polynomial.h b/include/models/base/polynomial.h
index 001beec..d1b732e 100644
--- a/include/models/base/polynomial.h
+++ b/include/models/base/polynomial.h
@@ -116,6 +116,11 @@ class Polynomial {
   ///   polynomial.
   mutable std::vector<double> coefficients_derivative_;
 
+  /// \var coefficients_owned_
+  ///   The coefficients, if this polynomial is a derivative that was provided
+  ///   by another polynomial.
+  std::vector<double> coefficients_owned_;
+
   /// \var derivative_
   ///   The derivative of the polynomial. The derivate polynomial contains y
   ///   values that correspond to the slop of the polynomial.
diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 7491f27..1db67e8 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -20,10 +20,8 @@ Polynomial::Polynomial(const std::vector<double>* coefficients) {
 }
 
 Polynomial::Polynomial(const Polynomial& polynomial) {
-  // the derivative is owned, so it is not copied, but solved again when needed
-  coefficients_ = polynomial.coefficients_;
   derivative_ = nullptr;
-  is_updated_derivative_ = false;
+  *this = polynomial;
 }
 
 Polynomial::~Polynomial() {
@@ -32,7 +30,13 @@ Polynomial::~Polynomial() {
 
 Polynomial& Polynomial::operator=(const Polynomial& polynomial) {
   // the derivative is owned, so it is not copied, but solved again when needed
-  set_coefficients(polynomial.coefficients_);
+  if (polynomial.coefficients_ == &polynomial.coefficients_owned_) {
+    coefficients_owned_ = polynomial.coefficients_owned_;
+    set_coefficients(&coefficients_owned_);
+  } else {
+    set_coefficients(polynomial.coefficients_);
+  }
+
   return *this;
 }
 
@@ -44,7 +48,10 @@ Polynomial Polynomial::Derivative() const {
     return derivative;
   }
 
-  derivative = *derivative_;
+  // the coefficients are handed over, so that the derivative stays valid when
+  // this polynomial changes or is destroyed
+  derivative.coefficients_owned_ = coefficients_derivative_;
+  derivative.set_coefficients(&derivative.coefficients_owned_);
   return derivative;
 }
 
-- 
2.43.0


From e23207673a5225e315e49fcc9552182f55e00f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:02 +0000
Subject: [PATCH 49/52] fix: transit sagger read out of range when no sight
 angle could be calculated

---
 src/sagging/transit_sagger.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sagging/transit_sagger.cc b/src/sagging/transit_sagger.cc
index 620ce87..5107caa 100644
--- a/src/sagging/transit_sagger.cc
+++ b/src/sagging/transit_sagger.cc
@@ -215,6 +215,11 @@ double TransitSagger::PositionCatenaryLowAngle(
     }
   }
 
+  // checks if none of the angles could be calculated
+  if (index_low == -9999) {
+    return -999999;
+  }
+
   return positions[index_low];
 }
 
@@ -256,6 +261,9 @@ bool TransitSagger::UpdatePointCatenaryLow() const {
     // calculates a new position
     position = PositionCatenaryLowAngle(position_back, position_ahead,
                                         kNumPoints);
+    if (position == -999999) {
+      return false;
+    }
 
     // calculates the solution tolerance
     tolerance = (position_ahead - position_back) / (kNumPoints - 1);
-- 
2.43.0


From d03401194ae6ac3a80ed926a0319b8aaadf974ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:05 +0000
Subject: [PATCH 50/52] fix: component elongation model dereferenced a missing
 polynomial for an invalid state

---
 src/sagtension/cable_component_elongation_model.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index e3600ed..0edc042 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -621,6 +621,8 @@ bool CableComponentElongationModel::UpdateState(const CableState& state) const {
   } else if (state_->type_polynomial ==
       SagTensionCableComponent::PolynomialType::kLoadStrain) {
     polynomial = &polynomial_loadstrain_;
+  } else {
+    return false;
   }
 
   // updates points
-- 
2.43.0


From 1a3f5606b63195ea7f82eb31971cd4e37ee3060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:02 +0000
Subject: [PATCH 51/52] fix: line cable sagger threw an exception when no
 design constraint was controlling

---
 src/sagtension/line_cable_sagger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 2ddba3c..3e8c969 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -244,7 +244,7 @@ bool LineCableSagger::UpdateControllingConstraintIndex() const {
     }
   }
 
-  return true;
+  return index_constraint_controlling_ != -9999;
 }
 
 /// This function reloads the controlling design constraint at the line cable
-- 
2.43.0


From 933bc609cc6b1fc12641ba2a82a01240a61870ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:12 +0000
Subject: [PATCH 52/52] fix: validation of the line cable loaders gave a
 message without description

---
 src/sagtension/line_cable_loader_base.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index a25ac7e..d79e5cc 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -88,7 +88,7 @@ bool LineCableLoaderBase::Validate(
   if (Update() == false) {
     is_valid = false;
     if (messages != nullptr) {
-      message.description = "";
+      message.description = "Error updating class.";
       if (is_updated_catenary_constraint_ == false) {
         message.description = "Error updating class. Could not solve for "
                               "constraint catenary.";
-- 
2.43.0

