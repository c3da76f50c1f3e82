#!/usr/bin/env python3
"""vc/base_src.json: hashes of /repo's sources as the proofs were developed on them (see check.py changed_files)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vc"))
import check
json.dump(dict(sorted(check.src_hashes().items())), open(os.path.join(V, "vc", "base_src.json"), "w"), indent=0)
