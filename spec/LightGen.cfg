SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  Depth = 2
  Fns = {"none", "linear", "HG", "HG12", "HG1G2"}
INVARIANTS TypeOK OnlyWhatItGoverns DistancesAlike TenthPerStep NothingLostAtZeroPhase DimsWithPhase OwnPhase NoTrailAtRest TrailsMore SharperTrailsMore NeverDeeper OutwardDims NoisierWhenFainter FiveSigmaAtTheLimit Emit
CHECK_DEADLOCK FALSE
