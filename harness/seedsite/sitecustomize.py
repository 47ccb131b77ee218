"""On the path of the processes that C23 starts: initial values of fits are
the same as in the call of the API that they are compared with."""
import os

import numpy

numpy.random.seed(int(os.environ['C23_SEED']))
