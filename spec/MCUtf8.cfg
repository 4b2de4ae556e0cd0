SPECIFICATION Spec
CONSTANTS Bytes = {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 245, 247, 248, 255}
          MaxLen = 4
INVARIANTS ExactlyUTF8 RoundTrip
PROPERTY ErrorIsFinal
CHECK_DEADLOCK FALSE
