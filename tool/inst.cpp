// Instantiation driver: names every member of the repository's templates so
// that the extractor sees fully resolved bodies.  It is parsed, never run.
#include "vara/Configuration/Configuration.h"
#include "vara/Feature/Constraint.h"
#include "vara/Feature/ConstraintBuilder.h"
#include "vara/Feature/ConstraintParser.h"
#include "vara/Feature/Feature.h"
#include "vara/Feature/FeatureModel.h"
#include "vara/Feature/FeatureModelBuilder.h"
#include "vara/Feature/FeatureModelParser.h"
#include "vara/Feature/FeatureModelTransaction.h"
#include "vara/Feature/FeatureModelWriter.h"
#include "vara/Feature/OrderedFeatureVector.h"
#include "vara/Feature/StepFunction.h"
#include "vara/Feature/StepFunctionParser.h"
#include "vara/Sampling/SampleSetWriter.h"
#include "vara/Solver/ConfigurationFactory.h"
#include "vara/Solver/SolverFactory.h"
#include "vara/Solver/Z3Solver.h"

using namespace vara;
using namespace vara::feature;

namespace vfx_driver {

template <typename TransTy> void all(FeatureModel &FM, Feature *F) {
  auto T = TransTy::openTransaction(FM);
  T.addFeature(std::make_unique<BinaryFeature>("x"), F);
  vara::feature::detail::FeatureVariantTy V(F);
  vara::feature::detail::FeatureTreeNodeVariantTy N(F);
  T.removeFeature(V, true);
  T.addRelationship(Relationship::RelationshipKind::RK_OR, V);
  T.removeRelationship(V);
  T.addLocation(V, *F->getLocationsBegin());
  T.removeLocation(V, *F->getLocationsBegin());
  T.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(nullptr));
  T.addConstraint(
      std::make_unique<FeatureModel::NonBooleanConstraint>(nullptr));
  T.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
      nullptr, FeatureModel::MixedConstraint::Req::ALL,
      FeatureModel::MixedConstraint::ExprKind::POS));
  T.setName("");
  T.setCommit("");
  T.setPath("");
  T.setRoot(std::make_unique<RootFeature>("root"));
  T.addChild(N, N);
  T.abort();
  (void)T.commit();
}

void drive(FeatureModel &FM, Feature *F) {
  all<FeatureModelCopyTransaction>(FM, F);
  all<FeatureModelModifyTransaction>(FM, F);

  FeatureModelBuilder B;
  B.makeFeature<Feature>("f");
  B.makeFeature<BinaryFeature>("b", true);
  B.makeFeature<NumericFeature>("n", std::pair<int64_t, int64_t>(0, 1));
  B.addConstraint(std::make_unique<FeatureModel::BooleanConstraint>(nullptr));
  B.addConstraint(
      std::make_unique<FeatureModel::NonBooleanConstraint>(nullptr));
  B.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
      nullptr, FeatureModel::MixedConstraint::Req::ALL,
      FeatureModel::MixedConstraint::ExprKind::POS));

  F->getChildren();
  F->getChildren<Feature>();
  F->getChildren<Relationship>();

  llvm::GraphWriter<FeatureModel *> GW(llvm::errs(), &FM, false);
  GW.writeGraph("");

  const FeatureModel &CFM = FM;
  for (auto *X : CFM)
    (void)X;
  for (auto *X : CFM.features())
    (void)X;
  for (auto *X : CFM.unorderedFeatures())
    (void)X;
  for (auto *X : CFM.booleanConstraints())
    (void)X;
  for (auto *X : CFM.nonBooleanConstraints())
    (void)X;
  for (auto *X : CFM.mixedConstraints())
    (void)X;
  vara::feature::deprecated::OrderedFeatureVector OFV({F});
  OFV.insert(F);
  std::vector<Feature *> FV;
  vara::feature::deprecated::OrderedFeatureVector OFV2(FV.begin(), FV.end());

  ConstraintBuilder CB;
  CB.feature("A").implies().feature("B").build();
}
} // namespace vfx_driver
