"""Writes spec/tables.json: common logarithms of 1..1000 in millionths and the normal distribution at hundredths in millionths."""
import json, math, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [round(1e6 * math.log10(n)) for n in range(1, 1001)]
phi = [round(1e6 * (0.5 + 0.5 * math.erf(i / 100 / math.sqrt(2)))) for i in range(0, 601)]
json.dump(dict(log=log, phi=phi), open(f"{V}/spec/tables.json", "w"))
