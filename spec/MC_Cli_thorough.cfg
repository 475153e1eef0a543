SPECIFICATION Spec
CONSTANTS
  Args = {"-c", "x,1", "-cx,2", "--ch=y,3", "-d", "4", "--def=9", "--de", "-ns", "-e", "-1", "a", "-nd7", "--serial=1", "-x"}
  MaxLen = 5
INVARIANTS Same OneSize Twice
PROPERTIES StaysBad InputsOnly Flags LastSize LastDeflate
CHECK_DEADLOCK FALSE
