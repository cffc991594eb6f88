SPECIFICATION Spec
CONSTANTS Vals <- V
          Cmds <- Cmds2
INVARIANTS ReloadsSame CutNever DropNever
CHECK_DEADLOCK FALSE
