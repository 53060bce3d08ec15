"""Families of entry points other than the geometry engine: laws and sweeps of one part of Patro each."""

from . import geometry
from .entries import Session
from .program import Program


class Area:
    def __init__(self, seeds, standins=(), argument=None):
        self.SEEDS = seeds
        self.STANDINS = standins
        self.argument = argument or geometry.argument

    def program(self):
        return Program(standins=self.STANDINS)

    def session(self, program, observers=()):
        return Session(program, self.SEEDS, self.argument, observers)


svg = Area(['geometry', 'laws_svg'])
svgfile = Area(['geometry', 'laws_svgfile'], ['io', 'pathlib', 'lxml', 'lxml.etree'])
scene = Area(['geometry', 'laws_scene'], ['rtree'])
pattern = Area(['geometry', 'laws_pattern'], ['rtree', 'ast', 're', 'astunparse'])
valentina = Area(['geometry', 'laws_valentina'],
                 ['rtree', 'ast', 're', 'astunparse', 'lxml', 'lxml.etree', 'sympy', 'yaml', 'io', 'pathlib', 'datetime'])
measurement = Area(['geometry', 'laws_measurement'], ['ast', 'sympy', 'yaml', 'io', 'pathlib', 'datetime'])
common = Area(['geometry', 'laws_common'], ['threading', 'sympy', 'ast'])
style = Area(['geometry', 'laws_style'], ['yaml', 'ast', 'colorsys'])
dxf = Area(['geometry', 'laws_dxf'], ['ezdxf'])
painter = Area(['geometry', 'laws_painter'],
               ['rtree', 'ezdxf', 'io', 'matplotlib', 'matplotlib.pyplot', 'matplotlib.path', 'matplotlib.patches',
                'reportlab', 'reportlab.pdfgen', 'reportlab.pdfgen.canvas', 'reportlab.lib', 'reportlab.lib.units',
                'lxml', 'lxml.etree', 'ast', 'sympy'])
files = Area(['geometry', 'laws_files'], ['os', 'datetime', 'argparse', 'pathlib'])
