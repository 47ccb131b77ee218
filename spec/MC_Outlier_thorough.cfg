INIT Init
NEXT Next
CONSTANTS NMax = 7
          NLong = 20
          Window = 3
INVARIANTS MaskInv RangeInv LevelInv SignInv ScaleInv StraightInv
           LoneSpikeInv LongSpikeInv LoneStepInv
