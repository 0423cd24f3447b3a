"""Setup step: the analysed package must be there and parse."""
import sys
from .program import Program
from .check import load, RULES

if __name__ == '__main__':
    p = Program(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    load()
    print(f'marshlint: {len(p.modules)} modules, {len(list(p.functions()))} functions, {len(RULES)} checks')
