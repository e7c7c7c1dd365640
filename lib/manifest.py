import json, os
from . import specs, build

NOT_APPLICABLE = {
}


def write():
    props = [json.loads(l)["id"] for l in open(os.path.join(build.VERIF, "properties.jsonl"))]
    checks = []
    for p in props:
        if p in specs.SPECS:
            s = specs.SPECS[p]
            checks.append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p,
                               evidence_file="evidence/%s.json" % p, technique=s["technique"], level="exploration", level_note=s["note"]))
    na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "No check built yet.")) for p in props if p not in specs.SPECS]
    m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
             notes="python3 run.py replay <file> re-runs a recorded violation. No hooks are needed in /repo: every monitor observes the public interface of a build of /repo's sources.")
    json.dump(m, open(os.path.join(build.VERIF, "MANIFEST.json"), "w"), indent=1)
    print("%d checks, %d not applicable" % (len(checks), len(na)))
    return 0
