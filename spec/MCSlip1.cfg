CONSTANTS
  Addrs = {1, 192, 219, 256, 49152, 56541, 65535}
  Bytes = {0, 97, 192, 219, 220, 221}
  MaxPay = 4
  MaxJunk = 5
  MaxFrames = 1
SPECIFICATION Spec
INVARIANTS InOrder Complete Rest
PROPERTY Arrives
CHECK_DEADLOCK FALSE
