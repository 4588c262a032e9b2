"""Shipped classes whose values dst/shipped.py models exactly (list made by tools/mkmodelled.py)"""
import json
import os

from . import lib, shipped

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus', 'modelled.json')
_NODES = []


def nodes():
    """[(class path, node)]"""
    if not _NODES:
        with open(FILE) as f:
            for path in json.load(f):
                try:
                    _NODES.append((path, shipped.from_class(lib.cls(path))))
                except (shipped.Unsupported, AttributeError):
                    pass
    return _NODES
