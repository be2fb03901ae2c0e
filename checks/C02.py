"""C02 tokenisation is longest-match, complete and faithful

The real lexer runs on texts whose characters range over all of Unicode; its tokens
must be those of the reference lexer (lib/reflex.py) on the same characters."""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
from lexcheck import main as run


def main():
    return run("C02")
