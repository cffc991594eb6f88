SPECIFICATION Spec
CONSTANTS Vals <- V
          Cmds <- Cmds1
INVARIANTS ReloadsSame CutNever DropNever
CHECK_DEADLOCK FALSE
