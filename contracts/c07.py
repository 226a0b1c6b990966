"""C07: rasterised pixels stay inside the shape's bounding box."""
from .rast import *

UNITS = [('rasterize.DDATriangleLines, ' + c[0], lambda E, c=c: lines(E, c, True)) for c in CASES] + \
        [('span of a row, ' + c[0], lambda E, c=c: span_in_box(E, c)) for c in CASES if c[2] == (0, 1, 2)] + \
        BLOCK_UNITS + \
        [('lemma on points of edges', lemma), ('rasterize.DDATriangle', pixels), ('geom.Polygon.Triangulate', fan), ('geom.Polygon.Triangulate, small', fan_small),
         ('rasterize.DDAPolygon', lambda E: polygon(E, 'DDAPolygon', 'DDATriangle')),
         ('rasterize.DDAPolygonBlocks', lambda E: polygon(E, 'DDAPolygonBlocks', 'DDATriangleBlocks'))]
HARNESS = [dict(name='box', pkg='rasterize', package='rasterize_test', files=['c06.go.txt'], run='TestVerifC07')]
ASSUMPTIONS = ['coordinates of vertices from 0 to 2^15, block sizes from 1 to 2^30',
               'int arithmetic does not overflow (follows from these ranges)',
               'IEEE rounding is monotone, symmetric, exact on integers up to 2^53 and has a relative error of at most 2^-53']
LEVEL_NOTE = 'spans of DDATriangleLines are proved to lie in the box directly; DDATriangle and DDATriangleBlocks are proved to cover exactly the pixels of those spans, DDAPolygon and DDAPolygonBlocks to rasterise the triangles of the fan'
BUDGET = 700
