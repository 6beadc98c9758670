#!/usr/bin/env python3-vt
"""validate.py SCHEMA FILE: for each line (a JSON text) of FILE whether the schema accepts it. Runs in the tooling Python (jsonschema)."""
import json, sys
from multiprocessing import Pool
import jsonschema

V = None


def init(path):
    global V
    s = json.load(open(path))
    jsonschema.Draft7Validator.check_schema(s)
    V = jsonschema.Draft7Validator(s)


def one(line):
    return "ok" if V.is_valid(json.loads(line)) else "err"


if __name__ == "__main__":
    init(sys.argv[1])
    with Pool(8, init, (sys.argv[1],)) as p:
        for r in p.imap(one, open(sys.argv[2]), 64):
            print(r)
