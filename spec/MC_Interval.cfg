INIT Init
NEXT Next
CONSTANTS NPast = 3
          NFuture = 3
          Periods = {1, 2, 7}
          Steps = {1, 7}
INVARIANTS AccInv PastInv DistInv TotalInv ClosedInv MeanInv SupportInv
           FlatInv UnusedInv QuantInv
