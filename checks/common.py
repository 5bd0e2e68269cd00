"""Assumption texts shared by the checks."""
REALS = ('floating-point arithmetic is treated as exact real/complex '
         'arithmetic (the encoding uses Gaussian rationals; rounding is out of '
         'scope except where a scenario models it explicitly)')
LAPACK = ('numpy/scipy decompositions (svd, eigh, eig, cholesky, inv, ...) are '
          'replaced by their contracts: they return exact factors, with '
          'arbitrary column phases where the contract leaves them free')
NUMPY = ('numpy indexing/broadcast/dtype logic: numpy itself runs on object '
         'arrays; dtype promotion and casting are modelled by symx/arr.py and '
         'checked by the concrete validation runs')
MPI = ('MPI is modelled by symx/mpi.py: pickled point-to-point messages, '
       'non-overtaking per channel, rendezvous sends, synchronising '
       'collectives')
FILES = ('text files are modelled as the sequence of numbers written '
         '(the %.18e format of savetxt round-trips doubles)')
