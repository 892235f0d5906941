import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PATH = os.path.join(HERE, "..", "known_findings.json")
try:
    DATA = json.load(open(PATH))
except FileNotFoundError:
    DATA = {"findings": [], "fixed": []}
LISTED = {f["id"]: f for f in DATA["findings"]}
