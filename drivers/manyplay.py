"""manyplay.py CONFIG FORMAT DATA: trains on a file, example by example, through the Python package."""
import json, sys
import reductionml as reml

cfg, fmt, data = sys.argv[1:]
w = reml.Workspace.create_from_config(json.load(open(cfg)))
p = w.create_parser({"vw": reml.FormatType.VwText, "json": reml.FormatType.Json, "dsjson": reml.FormatType.DsJson}[fmt])


def examples():
    block = []
    with open(data) as f:
        for line in f:
            if fmt != "vw":
                yield line.rstrip("\n")
            elif line.startswith("shared") or block:
                if line.strip():
                    block.append(line)
                else:
                    yield "".join(block).rstrip("\n")
                    block = []
            else:
                yield line.rstrip("\n")


for text in examples():
    x, l = p.parse(text)
    w.predict(x)
    w.learn(x, l)
