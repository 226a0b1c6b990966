"""C15: the reported best never gets worse and is the best member's fitness"""
from contracts.ga import *

UNITS = []
for n in ALGOS:
    UNITS += [('algorithm.%s Len, Less, Swap' % n, lambda E, n=n: order(E, n)),
              ('algorithm.%s.updateFitnesses' % n, lambda E, n=n: update(E, n)),
              ('algorithm.%s.calculateFitnesses' % n, lambda E, n=n: calculate(E, n)),
              ('algorithm.%s.Step' % n, lambda E, n=n: step(E, n)),
              ('algorithm.%s constructor' % n, lambda E, n=n: construct(E, n))]
HARNESS = [dict(name='algorithms', pkg='algorithm', package='algorithm_test', files=['c15.go.txt'], run='TestVerifC15')]
ASSUMPTIONS = ['workers are sequentialised: a submitted function runs when it is submitted, its result waits in a channel modelled as a bag from which any result may come next (every order of results is covered, interleavings of the workers themselves are not)',
               'sort.Sort: a sequence of calls of Swap with indexes in range, after which no member is Less than one before it; nothing else is assumed of it',
               'cutoff >= 1, size >= 2*cutoff, size <= 2^40, all members have equally many points',
               'the evaluator gives each member a function of its own; fitness values are finite',
               'time.Now and time.Since are opaque']
LEVEL_NOTE = ('All obligations discharged for an arbitrary member, every size and cutoff, and both algorithms: order, updateFitnesses, calculateFitnesses, Step and the constructors. The '
              'functions are verified one by one; Step is verified against the contracts of its parts (newGeneration and combineMutations are proved in C16). The bounded run drives both '
              'constructors and Step with a watching evaluator. Trusts gvc, the SSA front end, z3/cvc5 and the model of the channel, of ants.Submit and of sort.Sort.')
