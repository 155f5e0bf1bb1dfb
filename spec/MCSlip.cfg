CONSTANTS
  Addrs = {1, 192, 219, 56541}
  Bytes = {97, 192, 219, 220, 221}
  MaxPay = 2
  MaxJunk = 3
  MaxFrames = 2
SPECIFICATION Spec
INVARIANTS InOrder Complete Rest
PROPERTY Arrives
CHECK_DEADLOCK FALSE
