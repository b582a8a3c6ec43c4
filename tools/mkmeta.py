#!/usr/bin/env python3
# Writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py.
import json, os, sys
here = os.path.dirname( os.path.abspath( __file__ ) ); root = os.path.dirname( here ); sys.path.insert( 0, here )
from props import PROPS
with open( os.path.join( root, "properties.jsonl" ), "w" ) as f:
    for p in sorted( PROPS, key = lambda p: p[ "id" ] ):
        assert len( p[ "title" ] ) <= 80, p[ "title" ]
        f.write( json.dumps( { "id": p[ "id" ], "title": p[ "title" ], "statement": p[ "statement" ], "quantifier": { "over": p[ "over" ], "text": p[ "text" ] }, "why_tests_cant": p[ "why" ],
            "anchors": { "files": p[ "files" ], "mechanism": [ { "name": n, "where": w } for n, w in p[ "mech" ] ], "hook_needed": None } } ) + "\n" )
checks = [ { "property": p[ "id" ], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json", "technique": p[ "technique" ], "level": "exploration", "level_note": p[ "level_note" ] } for p in sorted( PROPS, key = lambda p: p[ "id" ] ) if not p[ "na" ] ]
with open( os.path.join( root, "MANIFEST.json" ), "w" ) as f:
    json.dump( { "version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [ { "property": p[ "id" ], "reason": p[ "na" ] } for p in PROPS if p[ "na" ] ],
        "notes": "No hooks in /repo: every check compiles /repo/base directly. Known findings and fixed defects: known/findings.txt." }, f, indent = 1 ); f.write( "\n" )
