INIT Init
NEXT Next
CONSTANTS NPast = 4
          NFuture = 5
          Periods = {1, 2, 7, 15}
          Steps = {1, 7}
INVARIANTS AccInv PastInv DistInv TotalInv ClosedInv MeanInv SupportInv
           FlatInv UnusedInv QuantInv
