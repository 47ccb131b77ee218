INIT Init
NEXT Next
CONSTANTS Calls <- CallsDef
          Objects = {1, 2, 3}
          Uses <- UsesDef
          MaxCalls = 3
          Share = FALSE
          Discipline = TRUE
INVARIANTS PoolInv IndependentInv RepeatInv
