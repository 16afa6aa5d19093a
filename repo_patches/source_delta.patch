From 297ef213aa3d653602e5a24879f5a8181262b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 01/53] fix: keep output string and step function when cloning
 or merging features

---
 lib/Feature/FeatureModel.cpp            | 12 ++++++++----
 lib/Feature/FeatureModelTransaction.cpp |  9 +++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 56a1040..7b1be35 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -62,14 +62,18 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
     case Feature::FeatureKind::FK_BINARY:
       if (auto *F = llvm::dyn_cast<BinaryFeature>(KV.getValue().get()); F) {
         FMB.makeFeature<BinaryFeature>(F->getName().str(), F->isOptional(),
-                                       std::move(SourceRanges));
+                                       std::move(SourceRanges),
+                                       F->getOutputString().str());
       }
       break;
     case Feature::FeatureKind::FK_NUMERIC:
       if (auto *F = llvm::dyn_cast<NumericFeature>(KV.getValue().get()); F) {
-        FMB.makeFeature<NumericFeature>(F->getName().str(), F->getValues(),
-                                        F->isOptional(),
-                                        std::move(SourceRanges));
+        FMB.makeFeature<NumericFeature>(
+            F->getName().str(), F->getValues(), F->isOptional(),
+            std::move(SourceRanges), F->getOutputString().str(),
+            F->getStepFunction()
+                ? std::make_unique<StepFunction>(*F->getStepFunction())
+                : nullptr);
       }
       break;
     }
diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 3e005f5..dd89229 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -208,13 +208,18 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     return std::make_unique<BinaryFeature>(
         F.getName().str(), F.isOptional(),
         std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                        F.getLocationsEnd()));
+                                        F.getLocationsEnd()),
+        F.getOutputString().str());
   case Feature::FeatureKind::FK_NUMERIC:
     if (auto *NF = llvm::dyn_cast<NumericFeature>(&F)) {
       return std::make_unique<NumericFeature>(
           F.getName().str(), NF->getValues(), F.isOptional(),
           std::vector<FeatureSourceRange>(F.getLocationsBegin(),
-                                          F.getLocationsEnd()));
+                                          F.getLocationsEnd()),
+          F.getOutputString().str(),
+          NF->getStepFunction()
+              ? std::make_unique<StepFunction>(*NF->getStepFunction())
+              : nullptr);
     }
     break;
   case Feature::FeatureKind::FK_ROOT:
-- 
2.43.0


From 5ac5fe964d913bf8151d0339aa85fa252cdfb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 02/53] fix: keep source locations of the root feature when
 cloning a model

---
 lib/Feature/FeatureModel.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 7b1be35..7fede34 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -113,6 +113,12 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
   //  valid.
   auto FM = FMB.buildFeatureModel();
   assert(FM);
+  // Locations of the root cannot be passed on construction.
+  if (FM && Root && FM->getRoot()) {
+    for (const auto &Location : Root->getLocations()) {
+      FM->getRoot()->addLocation(Location);
+    }
+  }
   return FM;
 }
 
-- 
2.43.0


From 65171471f7a33548cca0cf21308349a0f2b2ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 03/53] fix: reject a relationship whose parent is missing
 instead of crashing

---
 include/vara/Feature/FeatureModelTransaction.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 1946bc1..5d65baa 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -402,18 +402,21 @@ public:
   }
 
   Result<FTErrorCode, Relationship *> operator()(FeatureModel &FM) {
-    auto *InsertedRelationship =
-        addRelationship(FM, std::make_unique<Relationship>(Kind));
-    if (!InsertedRelationship) {
-      return ERROR;
-    }
-
     auto *P = std::visit(
         Overloaded{
             [&FM](const std::string &Name) { return FM.getFeature(Name); },
             [](Feature *Ptr) { return Ptr; },
         },
         Parent);
+    if (!P) {
+      return MISSING_PARENT;
+    }
+
+    auto *InsertedRelationship =
+        addRelationship(FM, std::make_unique<Relationship>(Kind));
+    if (!InsertedRelationship) {
+      return ERROR;
+    }
 
     setParent(*InsertedRelationship, *P);
     addEdge(*P, *InsertedRelationship);
-- 
2.43.0


From 906a0721bbe20836d981355382ab2f98cb2a4bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 04/53] fix: reject location changes of a missing feature
 instead of crashing

---
 .../vara/Feature/FeatureModelTransaction.h    | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 5d65baa..ec0e80b 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -504,14 +504,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    addLocation(*std::visit(Overloaded{
-                                [&FM](const std::string &Name) {
-                                  return FM.getFeature(Name);
-                                },
-                                [](Feature *Ptr) { return Ptr; },
-                            },
-                            F),
-                FSR);
+    auto *Target = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!Target) {
+      return MISSING_FEATURE;
+    }
+    addLocation(*Target, FSR);
     return Ok();
   }
 
@@ -539,14 +541,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    removeLocation(*std::visit(Overloaded{
-                                   [&FM](const std::string &Name) {
-                                     return FM.getFeature(Name);
-                                   },
-                                   [](Feature *Ptr) { return Ptr; },
-                               },
-                               F),
-                   FSR);
+    auto *Target = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!Target) {
+      return MISSING_FEATURE;
+    }
+    removeLocation(*Target, FSR);
     return Ok();
   }
 
-- 
2.43.0


From 22c21fe58f09e9ff2466a6bba5548c705a660cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 05/53] fix: reject removal of a relationship that does not
 exist

---
 include/vara/Feature/FeatureModelTransaction.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index ec0e80b..d79974e 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -467,6 +467,9 @@ public:
     }
 
     auto Relationships = P->getChildren<Relationship>();
+    if (Relationships.empty()) {
+      return MISSING_CHILD;
+    }
     Relationship *R = *Relationships.begin();
 
     removeEdge(*P, *R);
-- 
2.43.0


From 8818071f600736564f022d113cb25ad693823997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 06/53] fix: reject removal of the root feature instead of
 crashing

---
 include/vara/Feature/FeatureModelTransaction.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index d79974e..2f715bf 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -353,6 +353,10 @@ public:
     if (!F) {
       return MISSING_FEATURE;
     }
+    if (!F->getParent()) {
+      // the root cannot be removed
+      return MISSING_PARENT;
+    }
 
     if (Recursive) {
       for (auto *C : F->getChildren<Feature>()) {
-- 
2.43.0


From ab586287a65994d41321a9b5e9ea42585155152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 07/53] fix: report missing features in copy transactions
 instead of crashing

---
 include/vara/Feature/FeatureModelTransaction.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 2f715bf..b9dffeb 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -852,7 +852,7 @@ protected:
       // To correctly add a parent, we need to translate it to a Feature in
       // our copied FeatureModel
       return FeatureModelModification::makeModification<AddFeatureToModel>(
-          std::move(NewFeature), translateFeature(*Parent))(*FM);
+          std::move(NewFeature), translateFeature(Parent))(*FM);
     }
 
     return FeatureModelModification::makeModification<AddFeatureToModel>(
@@ -863,7 +863,7 @@ protected:
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveFeatureFromModel>(
-        translateFeature(*std::visit(Overloaded{
+        translateFeature(std::visit(Overloaded{
                                          [this](const std::string &Name) {
                                            return FM->getFeature(Name);
                                          },
@@ -881,7 +881,7 @@ protected:
     }
 
     return FeatureModelModification::makeModification<AddRelationshipToModel>(
-        Kind, translateFeature(*std::visit(Overloaded{
+        Kind, translateFeature(std::visit(Overloaded{
                                                [this](const std::string &Name) {
                                                  return FM->getFeature(Name);
                                                },
@@ -894,7 +894,7 @@ protected:
     assert(FM && "Feature model is null.");
 
     FeatureModelModification::makeModification<RemoveRelationshipFromModel>(
-        translateFeature(*std::visit(Overloaded{
+        translateFeature(std::visit(Overloaded{
                                          [this](const std::string &Name) {
                                            return FM->getFeature(Name);
                                          },
@@ -907,7 +907,7 @@ protected:
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<AddLocationToFeature>(
-        translateFeature(*std::visit(Overloaded{
+        translateFeature(std::visit(Overloaded{
                                          [this](const std::string &Name) {
                                            return FM->getFeature(Name);
                                          },
@@ -921,7 +921,7 @@ protected:
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveLocationFromFeature>(
-        translateFeature(*std::visit(Overloaded{
+        translateFeature(std::visit(Overloaded{
                                          [this](const std::string &Name) {
                                            return FM->getFeature(Name);
                                          },
@@ -978,8 +978,8 @@ protected:
 
 private:
   bool Continue{true};
-  [[nodiscard]] Feature *translateFeature(Feature &F) {
-    return FM->getFeature(F.getName());
+  [[nodiscard]] Feature *translateFeature(const Feature *F) {
+    return F ? FM->getFeature(F->getName()) : nullptr;
   }
 
   std::unique_ptr<FeatureModel> FM;
-- 
2.43.0


From 496c9d536ae427f9f395d85b4ed98326b1a5d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 08/53] fix: apply addChild in copy transactions

---
 .../vara/Feature/FeatureModelTransaction.h    | 40 +++++++++++++++++--
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index b9dffeb..7dc38d6 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -971,9 +971,14 @@ protected:
         *FM);
   }
 
-  static void addChildImpl(const FeatureTreeNodeVariantTy &Parent,
-                           const FeatureTreeNodeVariantTy &Child) {
-    FeatureModelModification::makeModification<AddChild>(Parent, Child);
+  Result<FTErrorCode> addChildImpl(const FeatureTreeNodeVariantTy &Parent,
+                                   const FeatureTreeNodeVariantTy &Child) {
+    if (!FM) {
+      return ERROR;
+    }
+
+    return FeatureModelModification::makeModification<AddChild>(
+        translateNode(Parent), translateNode(Child))(*FM);
   }
 
 private:
@@ -982,6 +987,35 @@ private:
     return F ? FM->getFeature(F->getName()) : nullptr;
   }
 
+  /// Translate a node of the original model to its counterpart in our copied
+  /// FeatureModel.
+  [[nodiscard]] FeatureTreeNode *
+  translateNode(const FeatureTreeNodeVariantTy &Node) {
+    return std::visit(
+        Overloaded{
+            [this](const std::string &Name) -> FeatureTreeNode * {
+              return FM->getFeature(Name);
+            },
+            [this](FeatureTreeNode *Ptr) -> FeatureTreeNode * {
+              if (auto *F = llvm::dyn_cast_or_null<Feature>(Ptr)) {
+                return translateFeature(F);
+              }
+              // a Relationship is identified by the Feature owning the group
+              auto *Owner = Ptr ? llvm::dyn_cast_or_null<Feature>(
+                                      Ptr->getParent())
+                                : nullptr;
+              if (auto *P = translateFeature(Owner)) {
+                auto Groups = P->getChildren<Relationship>();
+                if (!Groups.empty()) {
+                  return *Groups.begin();
+                }
+              }
+              return nullptr;
+            },
+        },
+        Node);
+  }
+
   std::unique_ptr<FeatureModel> FM;
 };
 
-- 
2.43.0


From d5ef92745765337ffc57b4eb63935dccd1bdbce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 09/53] fix: only move direct children into a new relationship

---
 include/vara/Feature/FeatureModelTransaction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 7dc38d6..3b557e9 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -425,7 +425,7 @@ public:
     setParent(*InsertedRelationship, *P);
     addEdge(*P, *InsertedRelationship);
 
-    for (auto *C : P->getChildren<Feature>()) {
+    for (auto *C : P->getChildren<Feature>(1)) {
       assert(P->hasEdgeTo(*C) && C->hasEdgeFrom(*P));
       removeEdge(*P, *C);
       addEdge(*InsertedRelationship, *C);
-- 
2.43.0


From 3fb6959b2ffaca2ae5f38cd9f72de2abd4ca02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 10/53] fix: report a missing parent when adding a feature in
 copy transactions

---
 include/vara/Feature/FeatureModelTransaction.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 3b557e9..f02e331 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -851,8 +851,12 @@ protected:
     if (Parent) {
       // To correctly add a parent, we need to translate it to a Feature in
       // our copied FeatureModel
+      auto *TranslatedParent = translateFeature(Parent);
+      if (!TranslatedParent) {
+        return MISSING_PARENT;
+      }
       return FeatureModelModification::makeModification<AddFeatureToModel>(
-          std::move(NewFeature), translateFeature(Parent))(*FM);
+          std::move(NewFeature), TranslatedParent)(*FM);
     }
 
     return FeatureModelModification::makeModification<AddFeatureToModel>(
-- 
2.43.0


From a09b31cb497f28fc5b1fa620fa11ae481d0668dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 11/53] fix: reject child edges that would close a cycle

---
 include/vara/Feature/FeatureModelTransaction.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index f02e331..a63844f 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -797,8 +797,11 @@ public:
       return MISSING_PARENT;
     }
 
-    if (C == P) {
-      return RECURSIVE_EDGE;
+    // neither the child itself nor one of its descendants can be its parent
+    for (auto *Ancestor = P; Ancestor; Ancestor = Ancestor->getParent()) {
+      if (Ancestor == C) {
+        return RECURSIVE_EDGE;
+      }
     }
 
     if (C->getParent()) {
-- 
2.43.0


From 473cb6156ddcf2706a5d10df4ac6b9178e52250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 12/53] fix: ignore removal of a location the feature does not
 have

---
 include/vara/Feature/Feature.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/Feature.h b/include/vara/Feature/Feature.h
index d44e9ec..5e7a68a 100644
--- a/include/vara/Feature/Feature.h
+++ b/include/vara/Feature/Feature.h
@@ -99,7 +99,8 @@ public:
 
   std::vector<FeatureSourceRange>::iterator
   removeLocation(const FeatureSourceRange &Fsr) {
-    return Locations.erase(std::find(Locations.begin(), Locations.end(), Fsr));
+    auto Loc = std::find(Locations.begin(), Locations.end(), Fsr);
+    return Loc == Locations.end() ? Loc : Locations.erase(Loc);
   }
 
   bool updateLocation(const FeatureSourceRange &OldFsr,
-- 
2.43.0


From c465810562f96547234fbd33ab168e3a38cf070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 13/53] fix: return no model if the merged model cannot be
 committed

---
 lib/Feature/FeatureModelTransaction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index dd89229..7b46d84 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -166,7 +166,11 @@ mergeFeatureModels(FeatureModel &FM1, FeatureModel &FM2, bool Strict) {
     Trans.abort();
     return nullptr;
   }
-  return *Trans.commit();
+  auto Merged = Trans.commit();
+  if (!Merged) {
+    return nullptr;
+  }
+  return Merged.extractValue();
 }
 
 [[nodiscard]] bool mergeSubtree(FeatureModelCopyTransaction &Trans,
-- 
2.43.0


From de8ff82d77f395a9b31bee05819e5c3d23c4d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 14/53] fix: encode exclusive or such that exactly one operand
 holds

---
 lib/Solver/Z3Solver.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 1df128a..83af495 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -321,8 +321,7 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::BinaryConstraint *C) {
     Z3ConstraintExpression = Left - Z3ConstraintExpression;
     break;
   case feature::Constraint::ConstraintKind::CK_XOR:
-    Z3ConstraintExpression = z3::implies(Left, !Z3ConstraintExpression) &&
-                             z3::implies(Z3ConstraintExpression, !Left);
+    Z3ConstraintExpression = Left != Z3ConstraintExpression;
     break;
   default:
     llvm_unreachable(
-- 
2.43.0


From 341b98475a8ebffed69c47cea06b9edb846aa70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 15/53] fix: report unsatisfiable models as invalid

---
 include/vara/Solver/ConfigurationFactory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Solver/ConfigurationFactory.h b/include/vara/Solver/ConfigurationFactory.h
index a4b4d2f..1ad6ee8 100644
--- a/include/vara/Solver/ConfigurationFactory.h
+++ b/include/vara/Solver/ConfigurationFactory.h
@@ -160,7 +160,8 @@ public:
   static bool isValid(feature::FeatureModel &Model,
                       const vara::solver::SolverType Type = SolverType::Z3) {
     auto S = SolverFactory::initializeSolver(Model, Type);
-    return S->hasValidConfigurations();
+    auto R = S->hasValidConfigurations();
+    return R && *R;
   }
 };
 
-- 
2.43.0


From e8d5be74f3fad3f1e182086af7a770097a2b55d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 16/53] fix: reject binary features without parent in the
 solver

---
 lib/Solver/Z3Solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 83af495..e6baee4 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -59,6 +59,9 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
     if (!llvm::isa<vara::feature::BinaryFeature>(&FeatureToAdd)) {
       return NOT_SUPPORTED;
     }
+    if (!Parent) {
+      return PARENT_NOT_PRESENT;
+    }
     addFeature(FeatureToAdd.getName().str());
     auto R = setBinaryFeatureConstraints(
         *llvm::dyn_cast<vara::feature::BinaryFeature>(&FeatureToAdd),
-- 
2.43.0


From 72158e0b9df01506846644ca3458efa286ec6e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 17/53] fix: tokenize empty expressions as end of file

---
 include/vara/Feature/ConstraintParser.h   | 6 +++---
 include/vara/Feature/StepFunctionParser.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 57f8aa9..68a83d0 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -129,9 +129,9 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
-        Kind != ConstraintToken::ConstraintTokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() != ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
+         TokenList.back().getKind() != ConstraintToken::ConstraintTokenKind::ERROR)) {
       TokenList.push_back(
           ConstraintToken(ConstraintToken::ConstraintTokenKind::END_OF_FILE));
     }
diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index faf7288..f907ddc 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -68,9 +68,9 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != StepFunctionToken::TokenKind::END_OF_FILE &&
-        Kind != StepFunctionToken::TokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() != StepFunctionToken::TokenKind::END_OF_FILE &&
+         TokenList.back().getKind() != StepFunctionToken::TokenKind::ERROR)) {
       TokenList.push_back(
           StepFunctionToken(StepFunctionToken::TokenKind::END_OF_FILE));
     }
-- 
2.43.0


From 20345137d7f17d0cda535ac2ccc1d9f0796f47ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 18/53] fix: do not treat a sign after a number as part of the
 number

---
 include/vara/Feature/ConstraintParser.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 68a83d0..85504f8 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -244,9 +244,17 @@ private:
   }
 
   static ResultTy munchNumber(const llvm::StringRef &Str) {
-    auto Munch = Str.take_while([](auto C) {
-      return llvm::isDigit(C) || C == 'e' || C == 'E' || C == '+' || C == '-';
-    });
+    auto IsDigit = [](auto C) { return llvm::isDigit(C); };
+    auto Munch = Str.take_while(IsDigit);
+
+    // a sign is only part of the number if it belongs to an exponent
+    auto Rest = Str.drop_front(Munch.size());
+    if (Rest.consume_front_insensitive("e")) {
+      if (!Rest.consume_front("+")) {
+        Rest.consume_front("-");
+      }
+      Munch = Str.drop_back(Rest.drop_while(IsDigit).size());
+    }
 
     return {ConstraintToken(ConstraintToken::ConstraintTokenKind::NUMBER,
                             Munch.lower()),
-- 
2.43.0


From 0a9199acae0a18f8e2dae44bd9e8beaf22419321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 19/53] fix: parse the operators printed for division and
 exclusive or

---
 include/vara/Feature/ConstraintParser.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 85504f8..667614a 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -54,8 +54,10 @@ public:
     OR,
     PLUS,
     R_PAR,
+    SLASH,
     STAR,
-    WHITESPACE
+    WHITESPACE,
+    XOR
   };
 
   ConstraintToken(ConstraintTokenKind Kind) : Kind(Kind) {}
@@ -71,6 +73,7 @@ public:
 
   [[nodiscard]] PrecedenceTy calcPrecedence() const {
     switch (Kind) {
+    case ConstraintTokenKind::SLASH:
     case ConstraintTokenKind::STAR:
       return 1;
     case ConstraintTokenKind::PLUS:
@@ -87,6 +90,7 @@ public:
     case ConstraintTokenKind::AND:
       return 5;
     case ConstraintTokenKind::OR:
+    case ConstraintTokenKind::XOR:
       return 6;
     case ConstraintTokenKind::IMPLIES:
       return 7;
@@ -172,6 +176,10 @@ private:
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::NEG), 1};
     case '*':
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::STAR), 1};
+    case '/':
+      return {ConstraintToken(ConstraintToken::ConstraintTokenKind::SLASH), 1};
+    case '^':
+      return {ConstraintToken(ConstraintToken::ConstraintTokenKind::XOR), 1};
     case '&':
       return {ConstraintToken(ConstraintToken::ConstraintTokenKind::AND), 1};
     case '|':
@@ -370,7 +378,9 @@ private:
       case ConstraintToken::ConstraintTokenKind::NOT_EQUAL:
       case ConstraintToken::ConstraintTokenKind::OR:
       case ConstraintToken::ConstraintTokenKind::PLUS:
-      case ConstraintToken::ConstraintTokenKind::STAR: {
+      case ConstraintToken::ConstraintTokenKind::SLASH:
+      case ConstraintToken::ConstraintTokenKind::STAR:
+      case ConstraintToken::ConstraintTokenKind::XOR: {
         auto NextPrecedence = peek().calcPrecedence();
         if (NextPrecedence >= Precedence) {
           return LHS;
@@ -447,6 +457,10 @@ private:
         consume(ConstraintToken::ConstraintTokenKind::STAR);
         return createConstraint<MultiplicationConstraint>(
             std::move(LHS), NestingLevel + 1, Precedence);
+      case ConstraintToken::ConstraintTokenKind::SLASH:
+        consume(ConstraintToken::ConstraintTokenKind::SLASH);
+        return createConstraint<DivisionConstraint>(
+            std::move(LHS), NestingLevel + 1, Precedence);
       case ConstraintToken::ConstraintTokenKind::PLUS:
         consume(ConstraintToken::ConstraintTokenKind::PLUS);
         return createConstraint<AdditionConstraint>(
@@ -471,6 +485,10 @@ private:
         consume(ConstraintToken::ConstraintTokenKind::OR);
         return createConstraint<OrConstraint>(std::move(LHS), NestingLevel + 1,
                                               Precedence);
+      case ConstraintToken::ConstraintTokenKind::XOR:
+        consume(ConstraintToken::ConstraintTokenKind::XOR);
+        return createConstraint<XorConstraint>(std::move(LHS), NestingLevel + 1,
+                                               Precedence);
       case ConstraintToken::ConstraintTokenKind::IMPLIES:
         consume(ConstraintToken::ConstraintTokenKind::IMPLIES);
         return createConstraint<ImpliesConstraint>(
@@ -514,7 +532,9 @@ private:
       case ConstraintToken::ConstraintTokenKind::NOT_EQUAL:
       case ConstraintToken::ConstraintTokenKind::OR:
       case ConstraintToken::ConstraintTokenKind::PLUS:
+      case ConstraintToken::ConstraintTokenKind::SLASH:
       case ConstraintToken::ConstraintTokenKind::STAR:
+      case ConstraintToken::ConstraintTokenKind::XOR:
         llvm::errs()
             << "Syntax error: Unexpected token before unary expression.\n";
         return nullptr;
-- 
2.43.0


From b94811557f40e99c1685475871eb4798ef1d4380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 20/53] fix: support numeric ranges without advancing step
 function in solver

---
 lib/Solver/Z3Solver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index e6baee4..4136529 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -46,7 +46,12 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
       std::vector<int64_t> Vals;
       while (Step <= Range.second) {
         Vals.insert(Vals.begin(), Step);
-        Step = StepFunction->next(Step);
+        const auto Next = StepFunction ? StepFunction->next(Step) : Step + 1;
+        if (Next <= Step) {
+          // the step function does not advance
+          break;
+        }
+        Step = Next;
       }
       if (auto R = addFeature(F->getName().str(), Vals); !R) {
         return R;
-- 
2.43.0


From cb8deb85623380f5a64f2017a8482a8ccfcc1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 21/53] fix: remove constraints over a feature together with
 the feature

---
 lib/Feature/FeatureModel.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 7fede34..974579d 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -6,6 +6,7 @@
 #include "llvm/Support/MemoryBuffer.h"
 
 #include <algorithm>
+#include <set>
 
 //===----------------------------------------------------------------------===//
 //                          FeatureModel
@@ -34,6 +35,33 @@ void FeatureModel::removeFeature(Feature &F) {
   if (&F == Root) {
     Root = nullptr;
   }
+
+  // Constraints over the removed Feature must not outlive it.
+  std::set<Constraint *> Removed;
+  for (auto *C : F.constraints()) {
+    Removed.insert(C->getRoot());
+  }
+  if (!Removed.empty()) {
+    for (const auto &KV : Features) {
+      auto Attached = KV.getValue()->Constraints;
+      for (auto *C : Attached) {
+        if (Removed.count(C->getRoot())) {
+          KV.getValue()->removeConstraintNonPreserve(C);
+        }
+      }
+    }
+    auto Drop = [&Removed](auto &Container) {
+      Container.erase(std::remove_if(Container.begin(), Container.end(),
+                                     [&Removed](const auto &C) {
+                                       return Removed.count(**C);
+                                     }),
+                      Container.end());
+    };
+    Drop(BooleanConstraints);
+    Drop(NonBooleanConstraints);
+    Drop(MixedConstraints);
+  }
+
   Features.erase(F.getName());
 }
 
-- 
2.43.0


From f523e3ce99fc46616492ce3d7decd2c28022af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 22/53] fix: do not keep constraints over missing features in
 the model

---
 .../vara/Feature/FeatureModelTransaction.h    | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index a63844f..ae97bb7 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -586,6 +586,14 @@ public:
   }
 
   Result<FTErrorCode, Constraint *> operator()(FeatureModel &FM) {
+    if (!NewConstraint || !NewConstraint->constraint()) {
+      return ERROR;
+    }
+    auto FeatureCheck = MissingFeatureVisitor(&FM);
+    if (!NewConstraint->constraint()->accept(FeatureCheck)) {
+      return MISSING_FEATURE;
+    }
+
     auto *InsertedConstraint = addConstraint(FM, std::move(NewConstraint));
     if (!InsertedConstraint) {
       return ERROR;
@@ -598,6 +606,19 @@ public:
   }
 
 private:
+  class MissingFeatureVisitor : public ConstraintVisitor {
+
+  public:
+    MissingFeatureVisitor(FeatureModel *FM) : FM(FM) {}
+
+    bool visit(PrimaryFeatureConstraint *C) override {
+      return FM->getFeature(C->getFeature()->getName()) != nullptr;
+    };
+
+  private:
+    FeatureModel *FM;
+  };
+
   class AddConstraintToModelVisitor : public ConstraintVisitor {
 
   public:
-- 
2.43.0


From cee6cc373f4051e0589e3e95b132b866345aec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 23/53] fix: keep children outside of a group when cloning

---
 lib/Feature/FeatureModel.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index 974579d..ae97335 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -141,6 +141,20 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
   //  valid.
   auto FM = FMB.buildFeatureModel();
   assert(FM);
+  // Emplacing a relationship moves all children of its parent into the group,
+  // hence, children outside of the group have to be moved back.
+  if (FM) {
+    auto Trans = FeatureModelModifyTransaction::openTransaction(*FM);
+    for (const auto &KV : this->Features) {
+      auto *P = llvm::dyn_cast_or_null<Feature>(KV.getValue()->getParent());
+      if (P && !P->getChildren<Relationship>().empty()) {
+        Trans.addChild(P->getName().str(), KV.getValue()->getName().str());
+      }
+    }
+    if (!Trans.commit()) {
+      return nullptr;
+    }
+  }
   // Locations of the root cannot be passed on construction.
   if (FM && Root && FM->getRoot()) {
     for (const auto &Location : Root->getLocations()) {
-- 
2.43.0


From 96b7131f3bc9caf4230df6697d1ee16020481721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 24/53] fix: begin of a constant configuration is its first
 option

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index f09d957..24ddcae 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -143,7 +143,7 @@ public:
   [[nodiscard]] llvm::StringMapConstIterator<
       std::unique_ptr<ConfigurationOption>>
   begin() const {
-    return OptionMappings.end();
+    return OptionMappings.begin();
   }
 
   [[nodiscard]] llvm::StringMapIterator<std::unique_ptr<ConfigurationOption>>
-- 
2.43.0


From c6e56ca9cc2acdfdbc6ffc2364a2088617680b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 25/53] fix: convert boolean option values independent of case

---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index 24ddcae..0ec80ee 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -111,7 +111,7 @@ private:
   convert(llvm::StringRef ValueToConvert) {
     // Parse the value
     if (ValueToConvert.lower() == "true" || ValueToConvert.lower() == "false") {
-      return ValueToConvert == "true";
+      return ValueToConvert.lower() == "true";
     }
     int64_t IntegerValue;
     if (!ValueToConvert.getAsInteger(0, IntegerValue)) {
-- 
2.43.0


From 58f57938c01ffb79f5dfa133d128d27ac08de9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 26/53] fix: report negative numeric values as plain integers

---
 lib/Solver/Z3Solver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 4136529..8951109 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -249,8 +249,11 @@ Z3Solver::getCurrentConfiguration() {
   for (const auto &Entry : OptionToVariableMapping) {
     const z3::expr OptionExpr = *Entry.getValue();
     const z3::expr Value = CurrentModel->eval(OptionExpr, true);
-    Config->setConfigurationOption(Entry.getKey(),
-                                   llvm::StringRef(Value.to_string()));
+    std::string ValueStr;
+    if (!Value.is_numeral(ValueStr)) {
+      ValueStr = Value.to_string();
+    }
+    Config->setConfigurationOption(Entry.getKey(), ValueStr);
   }
   return Config;
 }
-- 
2.43.0


From d413e0510309025516550779c1f6279885070239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 27/53] fix: report an error code if the output file cannot be
 opened

---
 lib/Feature/FeatureModelWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index e75d9d8..b395ae7 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -27,7 +27,7 @@ int FeatureModelXmlWriter::writeFeatureModel(std::string Path) {
   std::unique_ptr<xmlTextWriter, void (*)(xmlTextWriterPtr)> Writer(
       xmlNewTextWriterFilename(Path.data(), 0), &xmlFreeTextWriter);
   if (!Writer) {
-    return false;
+    return -1;
   }
 
   RC = writeFeatureModel(Writer.get());
-- 
2.43.0


From 6857a85bf09c794f2e059bad9526eb764154acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 28/53] fix: return nothing if the document cannot be dumped

---
 lib/Feature/FeatureModelWriter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index b395ae7..1d7a63c 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -62,8 +62,11 @@ std::optional<std::string> FeatureModelXmlWriter::writeFeatureModel() {
         }
         delete (Ptr);
       });
-  int Buffersize;
+  int Buffersize = 0;
   xmlDocDumpMemoryEnc(*DocPtrPtr, XmlBuffPtr.get(), &Buffersize, ENCODING);
+  if (!*XmlBuffPtr) {
+    return std::nullopt;
+  }
   std::string Str(reinterpret_cast<char *>(*XmlBuffPtr), Buffersize);
 
   return Str;
-- 
2.43.0


From ace282e3d6b6fd653d125d7ac0f15c8b640309f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 29/53] fix: write numeric values in full width

---
 lib/Feature/FeatureModelWriter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 1d7a63c..03e56ba 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -434,11 +434,12 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     } else {
       auto Values = std::get<NumericFeature::ValueListType>(ValueVariant);
       std::string Str;
-      std::for_each(std::begin(Values), std::end(Values) - 1, [&Str](int X) {
+      std::for_each(std::begin(Values), std::end(Values), [&Str](int64_t X) {
+        if (!Str.empty()) {
+          Str.push_back(';');
+        }
         Str.append(std::to_string(X));
-        Str.push_back(';');
       });
-      Str.append(std::to_string(Values.back()));
 
       RC = xmlTextWriterWriteElement(Writer, XmlConstants::VALUES,
                                      charToUChar(Str.data()));
-- 
2.43.0


From e4927101404e14c6d93d77be8acd96d7919a6721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 30/53] fix: write output strings of features

---
 lib/Feature/FeatureModelWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 03e56ba..4d98fc9 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -313,6 +313,14 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                  charToUChar(Feature1.getName().data()));
   CHECK_RC
 
+  // output string
+  if (!Feature1.getOutputString().empty()) {
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::OUTPUTSTRING,
+        charToUChar(Feature1.getOutputString().data()));
+    CHECK_RC
+  }
+
   // parent
   if (Feature1.getParentFeature()) {
     RC = xmlTextWriterWriteElement(
-- 
2.43.0


From ef352423a92c2c53ed0a4fe69ecaa9bc3bc118b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 31/53] fix: write locations without start or end instead of
 crashing

---
 lib/Feature/FeatureModelWriter.cpp | 54 ++++++++++++++++--------------
 lib/Feature/XmlConstants.h         |  2 +-
 2 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 4d98fc9..6cd1cab 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -495,39 +495,41 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
       charToUChar(Location.getPath().string().data()));
   CHECK_RC
 
-  RC = xmlTextWriterStartElement(Writer, XmlConstants::START);
-  CHECK_RC
+  if (auto *Start = Location.getStart()) {
+    RC = xmlTextWriterStartElement(Writer, XmlConstants::START);
+    CHECK_RC
 
-  auto *Start = Location.getStart();
-  RC = xmlTextWriterWriteElement(
-      Writer, XmlConstants::LINE,
-      BAD_CAST std::to_string(Start->getLineNumber()).data());
-  CHECK_RC
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::LINE,
+        BAD_CAST std::to_string(Start->getLineNumber()).data());
+    CHECK_RC
 
-  RC = xmlTextWriterWriteElement(
-      Writer, XmlConstants::COLUMN,
-      BAD_CAST std::to_string(Start->getColumnOffset()).data());
-  CHECK_RC
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::COLUMN,
+        BAD_CAST std::to_string(Start->getColumnOffset()).data());
+    CHECK_RC
 
-  RC = xmlTextWriterEndElement(Writer); // START
-  CHECK_RC
+    RC = xmlTextWriterEndElement(Writer); // START
+    CHECK_RC
+  }
 
-  RC = xmlTextWriterStartElement(Writer, XmlConstants::END);
-  CHECK_RC
+  if (auto *End = Location.getEnd()) {
+    RC = xmlTextWriterStartElement(Writer, XmlConstants::END);
+    CHECK_RC
 
-  auto *End = Location.getEnd();
-  RC = xmlTextWriterWriteElement(
-      Writer, XmlConstants::LINE,
-      BAD_CAST std::to_string(End->getLineNumber()).data());
-  CHECK_RC
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::LINE,
+        BAD_CAST std::to_string(End->getLineNumber()).data());
+    CHECK_RC
 
-  RC = xmlTextWriterWriteElement(
-      Writer, XmlConstants::COLUMN,
-      BAD_CAST std::to_string(End->getColumnOffset()).data());
-  CHECK_RC
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::COLUMN,
+        BAD_CAST std::to_string(End->getColumnOffset()).data());
+    CHECK_RC
 
-  RC = xmlTextWriterEndElement(Writer); // END
-  CHECK_RC
+    RC = xmlTextWriterEndElement(Writer); // END
+    CHECK_RC
+  }
 
   RC = xmlTextWriterEndElement(Writer); // SOURCERANGE
   return RC;
diff --git a/lib/Feature/XmlConstants.h b/lib/Feature/XmlConstants.h
index dd0b2d2..7a40088 100644
--- a/lib/Feature/XmlConstants.h
+++ b/lib/Feature/XmlConstants.h
@@ -87,7 +87,7 @@ public:
       "<!ELEMENT values (#PCDATA)>\n"
       "<!ELEMENT stepFunction (#PCDATA)>\n"
       "<!ELEMENT locations (sourceRange*)>\n"
-      "<!ELEMENT sourceRange (revisionRange?, path, start, end, "
+      "<!ELEMENT sourceRange (revisionRange?, path, start?, end?, "
       "memberOffset?)>\n"
       "<!ATTLIST sourceRange category (necessary|inessential) \"necessary\">\n"
       "<!ELEMENT revisionRange (introduced, removed?)>\n"
-- 
2.43.0


From 9e308ab37fe8ce667725aa24a7dc0745d1984866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 32/53] fix: write revision range and member offset of
 locations

---
 lib/Feature/FeatureModelWriter.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 6cd1cab..fd6f21d 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -490,6 +490,26 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   }
   CHECK_RC
 
+  if (auto *Revisions = Location.revisionRange()) {
+    RC = xmlTextWriterStartElement(Writer, XmlConstants::REVISIONRANGE);
+    CHECK_RC
+
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::INTRODUCED,
+        charToUChar(Revisions->introducingCommit().data()));
+    CHECK_RC
+
+    if (Revisions->hasRemovingCommit()) {
+      RC = xmlTextWriterWriteElement(
+          Writer, XmlConstants::REMOVED,
+          charToUChar(Revisions->removingCommit().data()));
+      CHECK_RC
+    }
+
+    RC = xmlTextWriterEndElement(Writer); // REVISIONRANGE
+    CHECK_RC
+  }
+
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::PATH,
       charToUChar(Location.getPath().string().data()));
@@ -531,6 +551,12 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
     CHECK_RC
   }
 
+  if (auto *MemberOffset = Location.getMemberOffset()) {
+    RC = xmlTextWriterWriteElement(Writer, XmlConstants::MEMBEROFFSET,
+                                   charToUChar(MemberOffset->toString().data()));
+    CHECK_RC
+  }
+
   RC = xmlTextWriterEndElement(Writer); // SOURCERANGE
   return RC;
 }
-- 
2.43.0


From b6653767b479c7d13b5fcdea472a109a15b73496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 33/53] fix: ignore whitespace around the names of children

---
 lib/Feature/FeatureModelParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 1ea029c..d7c0b7e 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -65,7 +65,7 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
         for (xmlNode *Child = Head->children; Child; Child = Child->next) {
           if (Child->type == XML_ELEMENT_NODE) {
             if (!xmlStrcmp(Child->name, XmlConstants::OPTIONS)) {
-              auto FeatureName = std::string(reinterpret_cast<char *>(
+              auto FeatureName = trim(reinterpret_cast<char *>(
                   std::unique_ptr<xmlChar, void (*)(void *)>(
                       xmlNodeGetContent(Child), xmlFree)
                       .get()));
-- 
2.43.0


From 95ee107db69346c146ce241328b6c6f74949968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 34/53] fix: accept mixed constraints without optional
 attributes

---
 lib/Feature/FeatureModelParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index d7c0b7e..4c2feda 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -253,10 +253,10 @@ FeatureModelXmlParser::parseConstraints<FeatureModel::MixedConstraint>(
 
           FMB.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
               std::move(Constraint),
-              std::string(reinterpret_cast<char *>(R.get())) == "none"
+              R && std::string(reinterpret_cast<char *>(R.get())) == "none"
                   ? FeatureModel::MixedConstraint::Req::NONE
                   : FeatureModel::MixedConstraint::Req::ALL,
-              std::string(reinterpret_cast<char *>(E.get())) == "neg"
+              E && std::string(reinterpret_cast<char *>(E.get())) == "neg"
                   ? FeatureModel::MixedConstraint::ExprKind::NEG
                   : FeatureModel::MixedConstraint::ExprKind::POS));
         } else {
-- 
2.43.0


From 4e26e1cd0b9eb3047fd17b1c528e2296cb11c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 35/53] fix: return no model if detecting alternatives failed

---
 lib/Feature/FeatureModelParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 4c2feda..8b01e88 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -397,8 +397,8 @@ std::unique_ptr<FeatureModel> FeatureModelXmlParser::buildFeatureModel() {
   }
 
   auto FM = FMB.buildFeatureModel();
-  if (FM) {
-    detectXMLAlternatives(*FM);
+  if (FM && !detectXMLAlternatives(*FM)) {
+    return nullptr;
   }
 
   return FM;
-- 
2.43.0


From 65e16d7eb369938774de76f19e6a3335c0e52a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 36/53] fix: keep locations of the root feature when reading
 XML

---
 include/vara/Feature/FeatureModelBuilder.h | 6 ++++++
 lib/Feature/FeatureModelParser.cpp         | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/include/vara/Feature/FeatureModelBuilder.h b/include/vara/Feature/FeatureModelBuilder.h
index 63fe0e9..f425fb1 100644
--- a/include/vara/Feature/FeatureModelBuilder.h
+++ b/include/vara/Feature/FeatureModelBuilder.h
@@ -70,6 +70,12 @@ public:
     return this;
   }
 
+  FeatureModelBuilder *addLocation(const std::string &FeatureName,
+                                   FeatureSourceRange FSR) {
+    RelationBuilder.addLocation(FeatureName, std::move(FSR));
+    return this;
+  }
+
   template <class ConstraintTy>
   FeatureModelBuilder *addConstraint(std::unique_ptr<ConstraintTy> C) {
     RelationBuilder.addConstraint(std::move(C));
diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 8b01e88..4fd2d4a 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -137,6 +137,9 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
   // XML has those names specified as root nodes
   if (Name == "root" || Name == "base") {
     FMB.makeRoot(Name);
+    for (auto &SourceRange : SourceRanges) {
+      FMB.addLocation(Name, std::move(SourceRange));
+    }
   } else if (Num) {
     if (Values.empty()) {
       FMB.makeFeature<NumericFeature>(Name, std::make_pair(MinValue, MaxValue),
-- 
2.43.0


From 60f742df80af5fdec3ca0e69aee07f3c14bb5656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 37/53] fix: accept SXFM models without name

---
 lib/Feature/FeatureModelParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 4fd2d4a..44e155b 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -508,7 +508,7 @@ bool FeatureModelSxfmParser::parseVm(xmlNode *Node) {
   // Parse the name first.
   {
     UniqueXmlChar Cnt(xmlGetProp(Node, XmlConstants::NAME), xmlFree);
-    FMB.setVmName(std::string(reinterpret_cast<char *>(Cnt.get())));
+    FMB.setVmName(Cnt ? std::string(reinterpret_cast<char *>(Cnt.get())) : "");
   }
   // After the feature model tag, some metadata is provided.
   // Currently, we skip the metadata and continue with parsing the feature tree
-- 
2.43.0


From 88066532fe2d15fdb53f43b8344aa74f8f27484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 38/53] fix: reject truncated lines in SXFM feature trees

---
 lib/Feature/FeatureModelParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 44e155b..1155178 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -610,6 +610,11 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
           CurrentIndentationLevel * Indentation.length() + 2;
       std::optional<std::tuple<int, int>> Cardinalities;
 
+      if (Pos > To.length()) {
+        llvm::errs() << "Unexpected end of line '" << To << "'\n";
+        return false;
+      }
+
       switch (To.at(Pos - 1)) {
       case 'r':
         IsRoot = true;
-- 
2.43.0


From 1f4ed2c39b9c2d87a5ea84f2f9d22a3202cbc88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 39/53] fix: reject features without parent in SXFM feature
 trees

---
 lib/Feature/FeatureModelParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 1155178..809a0d9 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -714,7 +714,10 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
       if (LastIndentationLevel != -1) {
         auto Parent =
             IndentationToParentMapping.find(CurrentIndentationLevel - 1);
-        assert(Parent != IndentationToParentMapping.end());
+        if (Parent == IndentationToParentMapping.end()) {
+          llvm::errs() << "Missing parent of feature in line " << To << "\n";
+          return false;
+        }
         FMB.addEdge(Parent->second, Name);
       }
 
-- 
2.43.0


From 7e725561ba57b256d18258ab55b8d6e604f86357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 40/53] fix: reject SXFM models with unparsable constraints

---
 lib/Feature/FeatureModelParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 809a0d9..376e53f 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -823,6 +823,8 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
     if (auto Constraint = ConstraintParser(CnfFormula).buildConstraint()) {
       FMB.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(
           std::move(Constraint)));
+    } else {
+      return false;
     }
   }
 
-- 
2.43.0


From 6d7488f0e6f5c3953c76c1bf4e94fd0f0dda3b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 41/53] fix: read negations in SXFM constraints as logical
 negations

---
 lib/Feature/FeatureModelParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 376e53f..fce3e89 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -807,6 +807,9 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
       }
     }
 
+    // The SXFM format uses '~' for logical negation
+    std::replace(CnfFormula.begin(), CnfFormula.end(), '~', '!');
+
     // Replace 'or' by '|' and 'and' by '&'
     std::unordered_map<std::string, std::string> SpecialKeys;
     SpecialKeys[" or "] = " | ";
-- 
2.43.0


From a7cbde0ea0d388df3d20f076a5a4587ee71e4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 42/53] fix: reject malformed numbers in step functions

---
 include/vara/Feature/StepFunctionParser.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index f907ddc..8a6cc40 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -200,7 +200,10 @@ private:
       case StepFunctionToken::TokenKind::NUMBER:
         assert(peek().getValue().has_value());
         double Number;
-        llvm::StringRef(*next().getValue()).getAsDouble(Number);
+        if (llvm::StringRef(*next().getValue()).getAsDouble(Number)) {
+          llvm::errs() << "Syntax error: Malformed number.\n";
+          return std::nullopt;
+        }
         return {Number};
       }
     }
-- 
2.43.0


From ccc150529a84e7a69b48b59705301cf42a21af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 43/53] fix: escape nested constraints in HTML representation

---
 include/vara/Feature/Constraint.h | 41 ++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/include/vara/Feature/Constraint.h b/include/vara/Feature/Constraint.h
index 45062aa..0eff790 100644
--- a/include/vara/Feature/Constraint.h
+++ b/include/vara/Feature/Constraint.h
@@ -1,8 +1,10 @@
 #ifndef VARA_FEATURE_CONSTRAINT_H
 #define VARA_FEATURE_CONSTRAINT_H
 
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/FormatVariadic.h"
+#include "llvm/Support/raw_ostream.h"
 
 #include <cassert>
 #include <memory>
@@ -78,7 +80,12 @@ public:
 
   [[nodiscard]] virtual std::string toString() const = 0;
 
-  [[nodiscard]] virtual std::string toHTML() const { return toString(); }
+  [[nodiscard]] virtual std::string toHTML() const {
+    std::string Str;
+    llvm::raw_string_ostream RS(Str);
+    llvm::printHTMLEscaped(toString(), RS);
+    return RS.str();
+  }
 
   virtual bool accept(ConstraintVisitor &V) = 0;
 
@@ -176,8 +183,8 @@ public:
   }
 
   [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &amp; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
+    return llvm::formatv("({0} &amp; {1})", LeftOperand->toHTML(),
+                         RightOperand->toHTML());
   }
 
   static bool classof(const Constraint *C) {
@@ -247,8 +254,8 @@ public:
   }
 
   [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
+    return llvm::formatv("({0} =&gt; {1})", LeftOperand->toHTML(),
+                         RightOperand->toHTML());
   }
 
   static bool classof(const Constraint *C) {
@@ -274,8 +281,8 @@ public:
   }
 
   [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; !{1})", LeftOperand->toString(),
-                         RightOperand->toString());
+    return llvm::formatv("({0} =&gt; !{1})", LeftOperand->toHTML(),
+                         RightOperand->toHTML());
   }
 
   static bool classof(const Constraint *C) {
@@ -302,8 +309,8 @@ public:
   }
 
   [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;=&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
+    return llvm::formatv("({0} &lt;=&gt; {1})", LeftOperand->toHTML(),
+                         RightOperand->toHTML());
   }
 
   static bool classof(const Constraint *C) {
@@ -419,8 +426,8 @@ public:
   }
 
   [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
+    return llvm::formatv("({0} &lt; {1})", LeftOperand->toHTML(),
+                         RightOperand->toHTML());
   }
 
   static bool classof(const Constraint *C) {
@@ -446,8 +453,8 @@ public:
   }
 
   [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
+    return llvm::formatv("({0} &gt; {1})", LeftOperand->toHTML(),
+                         RightOperand->toHTML());
   }
 
   static bool classof(const Constraint *C) {
@@ -473,8 +480,8 @@ public:
   }
 
   [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
+    return llvm::formatv("({0} &lt;= {1})", LeftOperand->toHTML(),
+                         RightOperand->toHTML());
   }
 
   static bool classof(const Constraint *C) {
@@ -501,8 +508,8 @@ public:
   }
 
   [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
+    return llvm::formatv("({0} &gt;= {1})", LeftOperand->toHTML(),
+                         RightOperand->toHTML());
   }
 
   static bool classof(const Constraint *C) {
-- 
2.43.0


From 73bcf49e36813e9b55a890fd5312bce86a11683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 44/53] fix: do not truncate constants in constraint builder

---
 include/vara/Feature/ConstraintBuilder.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/ConstraintBuilder.h b/include/vara/Feature/ConstraintBuilder.h
index b21a249..2114c79 100644
--- a/include/vara/Feature/ConstraintBuilder.h
+++ b/include/vara/Feature/ConstraintBuilder.h
@@ -202,14 +202,15 @@ public:
   ///     constant(42)
   ///   produces the constraint
   ///     '42'
-  ConstraintBuilder &constant(int V) {
+  ConstraintBuilder &constant(int64_t V) {
     if (!Head || *Head) {
       llvm::errs() << "Syntax error: Unrecognized constant constraint.\n";
       Head = nullptr;
       return *this;
     }
     *Head =
-        std::make_unique<PrimaryBuilderImpl<PrimaryIntegerConstraint, int>>(V);
+        std::make_unique<PrimaryBuilderImpl<PrimaryIntegerConstraint, int64_t>>(
+            V);
     Frames.push(std::make_tuple(ConstraintBuilder::MinPrecedence, Head));
     return *this;
   }
-- 
2.43.0


From 8dd2e9af4edb447b2cfde4cb77033615fbe83a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 45/53] fix: pass optionality of binary features in Python
 bindings

---
 bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
index 06b36fb..5f9382e 100644
--- a/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
+++ b/bindings/python/vara-feature/pybind_FeatureModelBuilder.cpp
@@ -19,7 +19,7 @@ void init_feature_model_builder_module(py::module &M) {
       .def(
           "make_binary_feature",
           [](vf::FeatureModelBuilder &FMB, std::string feature_name, bool Opt) {
-            return FMB.makeFeature<vf::BinaryFeature>(feature_name);
+            return FMB.makeFeature<vf::BinaryFeature>(feature_name, Opt);
           },
           R"pbdoc(Create a new binary `Feature` with the given `feature_name`.)pbdoc")
       .def(
-- 
2.43.0


From 754afafdcb5facee510e32405cdc00418268c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 46/53] fix: print operands of step functions without loss of
 precision

---
 include/vara/Feature/StepFunction.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/StepFunction.h b/include/vara/Feature/StepFunction.h
index 19464f4..dd479fc 100644
--- a/include/vara/Feature/StepFunction.h
+++ b/include/vara/Feature/StepFunction.h
@@ -4,8 +4,11 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/FormatVariadic.h"
 
+#include <charconv>
 #include <cmath>
+#include <iterator>
 #include <memory>
+#include <string>
 #include <variant>
 
 namespace vara::feature {
@@ -62,30 +65,39 @@ public:
       switch (Op) {
       case StepOperation::ADDITION:
         return llvm::formatv("{0} + {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             toString(std::get<double>(RHS)));
       case StepOperation::MULTIPLICATION:
         return llvm::formatv("{0} * {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             toString(std::get<double>(RHS)));
       case StepOperation::EXPONENTIATION:
         return llvm::formatv("{0} ^ {1}", std::get<std::string>(LHS),
-                             std::get<double>(RHS));
+                             toString(std::get<double>(RHS)));
       }
     }
     assert(std::holds_alternative<double>(LHS));
     switch (Op) {
     case StepOperation::ADDITION:
-      return llvm::formatv("{0} + {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} + {1}", toString(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     case StepOperation::MULTIPLICATION:
-      return llvm::formatv("{0} * {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} * {1}", toString(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     case StepOperation::EXPONENTIATION:
-      return llvm::formatv("{0} ^ {1}", std::get<double>(LHS),
+      return llvm::formatv("{0} ^ {1}", toString(std::get<double>(LHS)),
                            std::get<std::string>(RHS));
     }
   }
 
 private:
+  [[nodiscard]] static std::string toString(double Value) {
+    // shortest representation without exponent that yields the same value
+    char Buffer[512];
+    auto End = std::to_chars(std::begin(Buffer), std::end(Buffer), Value,
+                             std::chars_format::fixed)
+                   .ptr;
+    return {Buffer, End};
+  }
+
   StepOperation Op;
   OperandVariantType LHS;
   OperandVariantType RHS;
-- 
2.43.0


From 8b9eb007bc2a971b6f357dc1fdf35323fe3da0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 47/53] fix: write step functions of numeric features

---
 lib/Feature/FeatureModelWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index fd6f21d..25e7e09 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -453,6 +453,12 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                      charToUChar(Str.data()));
       CHECK_RC
     }
+
+    if (auto *Step = NF->getStepFunction()) {
+      RC = xmlTextWriterWriteElement(Writer, XmlConstants::STEPFUNCTION,
+                                     charToUChar(Step->toString().data()));
+      CHECK_RC
+    }
   }
 
   // locations?
-- 
2.43.0


From ab0a826ef7e8b667ec1ef27d13c065617b4899eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 48/53] fix: report the root as not removable

---
 lib/Feature/FeatureModelTransaction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index 7b46d84..f0e8294 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -110,6 +110,10 @@ std::vector<detail::FeatureVariantTy> removeFeatures(
   auto DeleteIt = std::partition(
       Begin, End,
       [&FM, Recursive, &OtherFeatures](detail::FeatureVariantTy &FV) {
+        if (auto *F = getActualFeature(FM, FV); F && !F->getParent()) {
+          // the root cannot be removed
+          return false;
+        }
         if (fvIsLeaf(FM, FV).value_or(false)) {
           return true;
         }
-- 
2.43.0


From d733abe2735aaa157f3b6b02074376cb53c571d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 49/53] fix: only remove the relationship of the given feature

---
 include/vara/Feature/FeatureModelTransaction.h | 4 ++--
 lib/Feature/FeatureModel.cpp                   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index ae97bb7..196119c 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -470,7 +470,7 @@ public:
       return MISSING_PARENT;
     }
 
-    auto Relationships = P->getChildren<Relationship>();
+    auto Relationships = P->getChildren<Relationship>(1);
     if (Relationships.empty()) {
       return MISSING_CHILD;
     }
@@ -1033,7 +1033,7 @@ private:
                                       Ptr->getParent())
                                 : nullptr;
               if (auto *P = translateFeature(Owner)) {
-                auto Groups = P->getChildren<Relationship>();
+                auto Groups = P->getChildren<Relationship>(1);
                 if (!Groups.empty()) {
                   return *Groups.begin();
                 }
diff --git a/lib/Feature/FeatureModel.cpp b/lib/Feature/FeatureModel.cpp
index ae97335..3b04b3c 100644
--- a/lib/Feature/FeatureModel.cpp
+++ b/lib/Feature/FeatureModel.cpp
@@ -147,7 +147,7 @@ std::unique_ptr<FeatureModel> FeatureModel::clone() const {
     auto Trans = FeatureModelModifyTransaction::openTransaction(*FM);
     for (const auto &KV : this->Features) {
       auto *P = llvm::dyn_cast_or_null<Feature>(KV.getValue()->getParent());
-      if (P && !P->getChildren<Relationship>().empty()) {
+      if (P && !P->getChildren<Relationship>(1).empty()) {
         Trans.addChild(P->getName().str(), KV.getValue()->getName().str());
       }
     }
-- 
2.43.0


From 08a8efd3ef10a68551b56e7c8f74d6094ae2e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 50/53] fix: do not hand out modifiable constraint lists of
 features

---
 include/vara/Feature/Feature.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/Feature.h b/include/vara/Feature/Feature.h
index 5e7a68a..47fc5cc 100644
--- a/include/vara/Feature/Feature.h
+++ b/include/vara/Feature/Feature.h
@@ -127,7 +127,8 @@ public:
   //===--------------------------------------------------------------------===//
   // Constraints
 
-  using constraint_iterator = typename std::vector<Constraint *>::iterator;
+  using constraint_iterator =
+      typename std::vector<Constraint *>::const_iterator;
   using const_constraint_iterator =
       typename std::vector<Constraint *>::const_iterator;
 
@@ -143,7 +144,7 @@ public:
   // Excludes
 
   using excludes_iterator =
-      typename std::vector<ExcludesConstraint *>::iterator;
+      typename std::vector<ExcludesConstraint *>::const_iterator;
   using const_excludes_iterator =
       typename std::vector<ExcludesConstraint *>::const_iterator;
 
@@ -158,7 +159,7 @@ public:
   // Implications
 
   using implications_iterator =
-      typename std::vector<ImpliesConstraint *>::iterator;
+      typename std::vector<ImpliesConstraint *>::const_iterator;
   using const_implications_iterator =
       typename std::vector<ImpliesConstraint *>::const_iterator;
 
-- 
2.43.0


From 92cf1c51eea92da3cbce698dca1f8e2236103bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:31 +0000
Subject: [PATCH 51/53] fix: consider all transitive children when removing
 several features recursively

---
 lib/Feature/FeatureModelTransaction.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/Feature/FeatureModelTransaction.cpp b/lib/Feature/FeatureModelTransaction.cpp
index f0e8294..6a9b927 100644
--- a/lib/Feature/FeatureModelTransaction.cpp
+++ b/lib/Feature/FeatureModelTransaction.cpp
@@ -58,6 +58,16 @@ std::optional<bool> fvIsLeaf(FeatureModel &FM, detail::FeatureVariantTy &FV) {
   return std::optional<bool>{ActualFeature->isLeaf()};
 }
 
+/// Checks if any transitive child of a node is part of OtherFeatures.
+bool subtreeContainsAny(const FeatureTreeNode &Node,
+                        const std::set<FeatureTreeNode *> &OtherFeatures) {
+  return std::any_of(Node.begin(), Node.end(),
+                     [&OtherFeatures](FeatureTreeNode *Child) {
+                       return OtherFeatures.count(Child) > 0 ||
+                              subtreeContainsAny(*Child, OtherFeatures);
+                     });
+}
+
 /// Checks if in recursive mode the provided Feature can be deleted or not.
 ///
 /// \param FM
@@ -74,15 +84,10 @@ canBeDeletedRecursively(FeatureModel &FM, detail::FeatureVariantTy &FV,
     return std::nullopt;
   }
 
-  std::set<FeatureTreeNode *> Intersection;
-  auto AllChildrenInSubtree = ActualFeature->getChildren();
-  std::set_intersection(AllChildrenInSubtree.begin(),
-                        AllChildrenInSubtree.end(), OtherFeatures.begin(),
-                        OtherFeatures.end(),
-                        std::inserter(Intersection, Intersection.begin()));
-  // if the children are not matching the other features, the intersection is
-  // empty and we are good to go for deletion
-  return std::optional<bool>{Intersection.begin() == Intersection.end()};
+  // if no transitive child matches the other features, we are good to go for
+  // deletion
+  return std::optional<bool>{
+      !subtreeContainsAny(*ActualFeature, OtherFeatures)};
 }
 
 std::vector<detail::FeatureVariantTy> removeFeatures(
-- 
2.43.0


From ab930d0e80bd50ad94502610f4ed8f852702ad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:32 +0000
Subject: [PATCH 52/53] fix: replace only whole identifiers in the constraints
 of SXFM files

---
 lib/Feature/FeatureModelParser.cpp | 33 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index fce3e89..5fb1348 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -765,12 +765,8 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
       UniqueXmlChar(xmlNodeGetContent(Constraints), xmlFree).get()));
   std::string To;
 
-  // Prepare the identifiers for later replacement
-  std::vector<std::string> Keys;
-  Keys.reserve(IdentifierMap.size());
-  std::for_each(IdentifierMap.begin(), IdentifierMap.end(),
-                [&Keys](const auto &Entry) { Keys.push_back(Entry.first); });
-  std::sort(Keys.begin(), Keys.end(), std::greater<std::string>{});
+  // Identifiers and names are separated by all other characters
+  const std::regex Regex(R"([a-zA-Z\d_]+)");
 
   while (std::getline(Ss, To)) {
     // Ignore if a line is empty
@@ -794,18 +790,21 @@ bool FeatureModelSxfmParser::parseConstraints(xmlNode *Constraints) {
     std::string CnfFormula = trim(ToStringRef);
 
     // In the following lines, we replace all identifiers by the real feature
-    // name
-    for (auto &Key : Keys) {
-      std::string Value = IdentifierMap[Key];
-      if (Value == Key) {
-        continue;
-      }
-      auto FoundPos = CnfFormula.find(Key);
-      while (FoundPos != std::string::npos) {
-        CnfFormula = CnfFormula.replace(FoundPos, Key.length(), Value);
-        FoundPos = CnfFormula.find(Key);
-      }
+    // name. Parts of other names and names that were inserted must not be
+    // mistaken for identifiers.
+    std::string ReplacedFormula;
+    auto Rest = CnfFormula.cbegin();
+    for (std::sregex_iterator Match(CnfFormula.cbegin(), CnfFormula.cend(),
+                                    Regex);
+         Match != std::sregex_iterator(); Match++) {
+      ReplacedFormula.append(Rest, (*Match)[0].first);
+      auto Entry = IdentifierMap.find((*Match).str());
+      ReplacedFormula.append(
+          Entry != IdentifierMap.end() ? Entry->second : (*Match).str());
+      Rest = (*Match)[0].second;
     }
+    ReplacedFormula.append(Rest, CnfFormula.cend());
+    CnfFormula = ReplacedFormula;
 
     // The SXFM format uses '~' for logical negation
     std::replace(CnfFormula.begin(), CnfFormula.end(), '~', '!');
-- 
2.43.0


From 8c7036346caee0ed99cec7cdb8fd2452f4226e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:01 +0000
Subject: [PATCH 53/53] fix: let identifiers of unnamed groups stand for their
 artificial names

---
 lib/Feature/FeatureModelParser.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 5fb1348..0da6787 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -674,6 +674,13 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         Name = Name.substr(0, Name.find('(', 0));
       }
 
+      // If there is no name, provide an artificial one
+      const std::string GivenName = Name;
+      if (Name.empty()) {
+        OrGroupCounter++;
+        Name = "group_" + std::to_string(OrGroupCounter);
+      }
+
       // Search for identifier
       std::regex Regex(R"(\([a-zA-Z\d_]*\))");
       std::string CurrentLine = ToStringRef.str();
@@ -683,18 +690,13 @@ bool FeatureModelSxfmParser::parseFeatureTree(xmlNode *FeatureTree) {
         std::string Identifier = (*Match).str();
         Identifier = Identifier.substr(1, Identifier.size() - 2);
         IdentifierMap[Identifier] = Name;
-        if (Identifier != Name && Name.find(Identifier) != std::string::npos) {
+        if (Identifier != GivenName &&
+            GivenName.find(Identifier) != std::string::npos) {
           llvm::errs() << "Name must not contain ID:'" << Name << "'\n";
           return false;
         }
       }
 
-      // If there is no name, provide an artificial one
-      if (Name.empty()) {
-        OrGroupCounter++;
-        Name = "group_" + std::to_string(OrGroupCounter);
-      }
-
       // Create the feature
       if (IsRoot) {
         FMB.makeRoot(Name);
-- 
2.43.0

