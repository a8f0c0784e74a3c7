"""C23: Yukawa multipole moments of point masses"""
from .c04 import unit1, unit2

UNITS = [unit1('i'), unit2('i')]
