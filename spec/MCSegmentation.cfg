SPECIFICATION Spec
CONSTANTS
  MODES = {"audio", "speech"}
  PATCHES = {2, 4}
  FRAMES = {1,2,3,4,5,6,7,8,9,10,11}
  Legacy = {}
INVARIANTS GridIsAsDefined GridCoversAll SpeechIsAsDefined OracleAccepts FirstAlways LeftOut SpeechInside Louder ShortExactly
PROPERTY Ends
CHECK_DEADLOCK FALSE
