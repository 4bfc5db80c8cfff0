SPECIFICATION Spec
CONSTANTS
  CHANNELS = {1, 2, 4}
  FRAMES = {0, 1, 2}
  SAMPLES <- DeepSamples
  BITS = {16, 24}
  CUTS = {0, 1, 2}
  Legacy = {}
INVARIANTS OnlyLoadable MeansAsDefined ChannelsExchangeable
PROPERTY Ends
CHECK_DEADLOCK FALSE
