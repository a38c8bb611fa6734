SPECIFICATION Spec
CONSTANTS Files = {a, b}
          Texts = {t1, t2}
          Funcs = {f1}
          MaxH = 3
          MaxOps = 6
          KeyFuncs = TRUE
          CopyIn = TRUE
          CopyOut = TRUE
          None = none
INVARIANTS CacheFree Pristine Stored
CHECK_DEADLOCK FALSE
