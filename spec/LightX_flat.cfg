SPECIFICATION Spec
CONSTANTS
  Variant = "flat"
  Depth = 2
  Fns = {"HG"}
INVARIANTS TypeOK OnlyWhatItGoverns DistancesAlike TenthPerStep NothingLostAtZeroPhase DimsWithPhase OwnPhase NoTrailAtRest TrailsMore SharperTrailsMore NeverDeeper OutwardDims NoisierWhenFainter FiveSigmaAtTheLimit 
CHECK_DEADLOCK FALSE
