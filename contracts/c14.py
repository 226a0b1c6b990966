"""C14: the fitness is the variance formula, and caching never changes it."""
from .fit import *

UNITS = [('%s Calculate, %s' % (k, b), lambda E, k=k, b=b: value(E, k, b)) for k in KIND for b in ('new', 'based', 'again')]
UNITS += [('%s entry Equals' % k, lambda E, k=k: equals_unit(E, k)) for k in KIND]
UNITS += [('%s constructors' % k, lambda E, k=k: constructors(E, k)) for k in KIND]
UNITS += [('fitness.createPoint', create_point), ('parallel.Update', update_unit), ('parallel.Prepare, Swap, Get, SetBase', prepare_unit)]
HARNESS = [dict(name='fitness', pkg='fitness', package='fitness_test', files=['c14.go.txt'], run='TestVerifC14')]
ASSUMPTIONS = ['float arithmetic of the sums is taken as exact real arithmetic (all other claims are about exact values: coordinates, indexes, identities)',
               'the block rasterizers call back for spans and blocks inside the image, whose pixels are the same for the same shape (C06, C07, C10); the tables hold what C13 proves',
               'IterTriangles and IterPolygons hand out an arbitrary sequence of shapes inside the image',
               'what was stored by earlier evaluations is what this contract says is stored; the cache read from and the slice written to are different arrays',
               'the cache has 2 to 2^31 places, images are at most 32767 px a side and 2^30 px in all, blocks 1 to 128',
               'the coordinate storage of an entry is never written to again (proved here for every write Calculate makes; no other function writes to it)']
LEVEL_NOTE = ('All obligations discharged: Calculate of both functions on all three ways in (first, with a base, again) for an arbitrary sequence of shapes, an arbitrary kept entry, every '
              'content of the cache and every collision; Equals, createPoint, the constructors, and the evaluator around them. The mean-square formula is proved over exact reals. The bounded '
              'run compares with the formula computed from scratch over histories with tiny caches. Trusts gvc, the SSA front end, z3/cvc5.')
