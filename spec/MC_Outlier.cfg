INIT Init
NEXT Next
CONSTANTS NMax = 5
          NLong = 12
          Window = 3
INVARIANTS MaskInv RangeInv LevelInv SignInv ScaleInv StraightInv
           LoneSpikeInv LongSpikeInv LoneStepInv
