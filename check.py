#!/usr/bin/env python3
"""check.py <property> : run one property's static check against /repo's working tree"""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
from vf import report  # noqa: E402

WHERE = {'P46': 'p46', 'P21': 'p21', 'P44': 'p44', 'P45': 'p44', 'P23': 'p23', 'P30': 'p30', 'P29': 'p29', 'P36': 'p31', 'P31': 'p31', 'P43': 'p31', 'P42': 'p42', 'P22': 'p22', 'P33': 'p18', 'P18': 'p18', 'P24': 'p24', 'P07': 'p07', 'P27': 'p27', 'P41': 'p27', 'P08': 'p08', 'P06': 'p06', 'P09': 'p09', 'P11': 'p10', 'P25': 'p10', 'P10': 'p10', 'P28': 'p10', 'P20': 'p03', 'P26': 'p03', 'P05': 'p03', 'P03': 'p03', 'P04': 'p03', 'P01': 'p01', 'P02': 'p01', 'P13': 'p13', 'P14': 'p13', 'P15': 'p15', 'P16': 'p15', 'P17': 'p15', 'P12': 'p12'}


def go(prop):
    mod = importlib.import_module('checks.' + WHERE[prop])
    return report.main(prop, getattr(mod, prop.lower()))


if __name__ == '__main__':
    sys.exit(go(sys.argv[1]))
