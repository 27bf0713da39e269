#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

MODULES = {'R01': 'shape', 'R02': 'reflect', 'R03': 'reflect', 'R04': 'reflect', 'R05': 'ptrs', 'R06': 'colls', 'W01': 'builder', 'W02': 'builder', 'W03': 'builder', 'W04': 'builder', 'W05': 'builder', 'W06': 'builder',
           'J01': 'json_', 'J02': 'json_', 'J03': 'json_', 'J04': 'json_', 'J05': 'json_',
           'M01': 'msgpack', 'M02': 'msgpack', 'M03': 'msgpack',
           'T01': 'toml', 'T02': 'toml', 'Y01': 'yaml_', 'U01': 'form', 'A01': 'args',
           'P01': 'pretty', 'P02': 'pretty', 'W07': 'putnum'}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=lib.TIER)
    ap.add_argument('--replay')
    a = ap.parse_args()
    lib.TIER = a.tier
    mod = importlib.import_module(MODULES[a.prop])
    try:
        if a.replay:
            r = lib.Result(a.prop)
            d = json.load(open(a.replay))
            mod.judge(r, a.prop, lib.build(), [json.dumps(d['case'])])
            for m, _ in r.viol: print(m)
            return 1 if r.viol else 0
        return mod.run(a.prop)
    except lib.CheckError as e:
        print('CHECK ERROR:', e)
        return 2
    finally:
        lib.S.close()
sys.exit(main())
