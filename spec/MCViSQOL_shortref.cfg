SPECIFICATION Spec
CONSTANTS
  Check = {"C01","C02","C08","C09","C10","C11","C12","C13","C14","C15","C16"}
  Legacy = {"shortref"}
  NREF = {0, 1, 5, 6, 7, 11, 13}
  NDEG = {0, 1, 2, 6, 12}
  RADIUS = {0, 1, 2}
  MODES = {"audio", "speech"}
  WIN = 2
  HOP = 1
  PS = 4
  PA = 4
  Broken <- NeverBroken
  BADRATE = TRUE
INVARIANTS NoCrash Complete ErrorsAreJustified FaultsAreReported AlignedLength PatchesInside Ordered EqualDurations DroppedSuffix FirstMatched
CHECK_DEADLOCK FALSE
