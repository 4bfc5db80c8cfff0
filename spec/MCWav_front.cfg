SPECIFICATION Spec
CONSTANTS
  CHANNELS = {1, 2, 3}
  FRAMES = {0, 1, 2}
  SAMPLES <- FewSamples
  BITS = {8, 16}
  CUTS = {0, 1}
  Legacy = {"front"}
INVARIANTS OnlyLoadable MeansAsDefined ChannelsExchangeable
PROPERTY Ends
CHECK_DEADLOCK FALSE
