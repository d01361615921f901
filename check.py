#!/opt/venv/bin/python
''' check.py <PROPERTY> [--tier quick|thorough] [--only SUBSTRING] [-v]: decide one property on /repo's current tree. '''
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import argparse
from symx import env
env.load_z3()
from symx import run

parser = argparse.ArgumentParser()
parser.add_argument('property', nargs='?')
parser.add_argument('--self-test', action='store_true')
parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
parser.add_argument('--only')
parser.add_argument('-v', action='store_true')
args = parser.parse_args()
if args.self_test: sys.exit(run.self_test())
sys.exit(run.main(args.property.lower(), args.tier, args.only, args.v))
