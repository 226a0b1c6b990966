"""C16: population bookkeeping"""
from contracts.ga import *

UNITS = [('algorithm.modifiedGenetic.calculateFitnesses', lambda E: calculate(E, 'modifiedGenetic', True)),
         ('algorithm.modifiedGenetic.getBase', modulo_lemma),
         ('algorithm.modifiedGenetic.newGeneration', lambda E: generation(E, 'modifiedGenetic')),
         ('algorithm.simple.newGeneration', lambda E: generation(E, 'simple'))]
UNITS += [('algorithm.modifiedGenetic.combineMutations', combine),
          ('algorithm.modifiedGenetic.setBeneficial', beneficial),
          ('evaluator.parallel', parallel)]
UNITS += [('algorithm.%s constructor' % n, lambda E, n=n: construct(E, n)) for n in ALGOS]
HARNESS = [dict(name='algorithms', pkg='algorithm', package='algorithm_test', files=['c15.go.txt'], run='TestVerifC16')]
ASSUMPTIONS = ['workers are sequentialised: a submitted function runs when it is submitted, its result waits in a channel modelled as a bag from which any result may come next (every order of results is covered, interleavings of the workers themselves are not)',
               'sort.Sort: a sequence of calls of Swap with indexes in range, after which no member is Less than one before it; nothing else is assumed of it',
               'cutoff >= 1, size >= 2*cutoff, size <= 2^40, all members have equally many points',
               'the evaluator gives each member a function of its own; fitness values are finite',
               'a mutation method reports mutations of points there are; every member has storage of its own when a step begins (the constructor and the append of every row keep it so)',
               'time.Now and time.Since are opaque']
LEVEL_NOTE = ('All obligations discharged for an arbitrary member, mutation and point and every size and cutoff: newGeneration (both), calculateFitnesses with the test for beneficial mutations, '
              'getBase, setBeneficial (distinct points, the fitter member wins, other bases untouched), combineMutations (base plus exactly the beneficial positions, evaluated once, its base '
              'told), the constructors (storage of their own) and the parallel evaluator. That every beneficial mutation finds an entry (completeness of setBeneficial) is covered by the '
              'bounded run only. Trusts gvc, the SSA front end, z3/cvc5 and the model of the channel and of ants.Submit.')
