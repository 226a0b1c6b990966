"""C06: all rasterisers cover the same pixels, each once."""
from .rast import *

UNITS = [('rasterize.DDATriangleLines, ' + c[0], lambda E, c=c: lines(E, c)) for c in CASES] + BLOCK_UNITS + [('rasterize.DDATriangle', pixels)]
HARNESS = [dict(name='cover', pkg='rasterize', package='rasterize_test', files=['c06.go.txt'], run='TestVerifC06')]
ASSUMPTIONS = ['coordinates of vertices from 0 to 2^15, block sizes from 1 to 2^30',
               'int arithmetic does not overflow (follows from these ranges)',
               'IEEE rounding is monotone and symmetric: the columns fl(fl(m*k)+x) of one edge are ordered by row according to the sign of its slope, and those of two edges from one vertex in one row by their slopes',
               'quotients of different integers of at most 2^15 with the same divisor of at most 2^15 are rounded to different numbers']
LEVEL_NOTE = 'DDATriangleLines, DDATriangleBlocks and DDATriangle are each proved to cover exactly the pixels L(y) <= x < R(y) of one specification of the triangle, each once, for all vertex orders; the specification does not depend on the order'
BUDGET = 700
