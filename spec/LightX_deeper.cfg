SPECIFICATION Spec
CONSTANTS
  Variant = "deeper"
  Depth = 2
  Fns = {"HG"}
INVARIANTS TypeOK OnlyWhatItGoverns DistancesAlike TenthPerStep NothingLostAtZeroPhase DimsWithPhase OwnPhase NoTrailAtRest TrailsMore SharperTrailsMore NeverDeeper OutwardDims NoisierWhenFainter FiveSigmaAtTheLimit 
CHECK_DEADLOCK FALSE
