"""Checks of the parts of Patro other than the geometry engine."""

from . import check
from .geometry import run_laws
from .. import areas

LAW_RULE = ('Abstract interpretation with symbolic numbers and texts: a number is a canonical polynomial over the inputs, '
            'a text a sequence of literal pieces and symbolic atoms; each obligation compares what the code computes '
            'with the specification, for all inputs in general position.')


def laws(area, prefix, minimum):
    def f(rep):
        run_laws(rep, area, prefix, LAW_RULE, minimum)
    check(prefix)(f)


laws(areas.svg, 'S01', 30)
laws(areas.svg, 'S02', 6)
laws(areas.svg, 'S03', 10)
laws(areas.svg, 'S04', 25)
laws(areas.svg, 'S05', 40)
laws(areas.svgfile, 'S06', 12)
laws(areas.scene, 'N01', 12)
laws(areas.scene, 'N02', 10)
laws(areas.scene, 'N03', 10)
laws(areas.scene, 'N04', 6)
laws(areas.scene, 'N05', 8)
laws(areas.scene, 'N06', 12)
laws(areas.pattern, 'P01', 7)
laws(areas.pattern, 'P02', 9)
laws(areas.pattern, 'P03', 13)
laws(areas.pattern, 'P04', 5)
laws(areas.pattern, 'P05', 5)
laws(areas.pattern, 'P06', 20)
laws(areas.valentina, 'V01', 42)
laws(areas.valentina, 'V02', 58)
laws(areas.valentina, 'V03', 16)
laws(areas.valentina, 'V04', 8)
laws(areas.valentina, 'V05', 15)
laws(areas.measurement, 'M01', 6)
laws(areas.measurement, 'M02', 14)
laws(areas.measurement, 'M03', 7)
laws(areas.measurement, 'M04', 9)
laws(areas.measurement, 'M05', 5)
laws(areas.common, 'C01', 6)
laws(areas.common, 'C02', 6)
laws(areas.common, 'C03', 8)
laws(areas.common, 'C04', 13)
laws(areas.common, 'C05', 5)
laws(areas.common, 'C06', 10)
laws(areas.style, 'X01', 17)
laws(areas.style, 'X02', 10)
laws(areas.style, 'X03', 5)
laws(areas.style, 'X04', 13)
laws(areas.dxf, 'D01', 16)
laws(areas.dxf, 'D02', 15)
laws(areas.painter, 'O01', 10)
laws(areas.painter, 'O02', 20)
laws(areas.painter, 'O03', 13)
laws(areas.painter, 'O04', 13)
laws(areas.painter, 'O05', 20)
laws(areas.painter, 'O06', 9)
laws(areas.painter, 'O07', 8)
laws(areas.files, 'C07', 11)
