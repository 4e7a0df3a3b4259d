"""Property registry, check driver and evidence writer."""
import fnmatch, json, os, sys, time
import extract
import spec
from spec import run_jobs, HERE
import props_basic as B
import props_arith as A
import props_conv as V
import props_fused as X
import props_struct as S
import props_bigint as G
import props_digit as D
import props_sqrt as Q
import props_math as T
import props_const as K
import props_acc as Y

# id -> (job list functions (tier) , rule)
PROPS = {
    "P01": (lambda tier: B.classification(), ""),
    "P02": (lambda tier: B.bitops(), ""),
    "P03": (lambda tier: B.cmp_ops(), ""),
    "P04": (lambda tier: B.total(), ""),
    "P05": (lambda tier: B.minmax(tier), ""),
    "P06": (lambda tier: A.add_jobs(tier) + A.add_jobs(tier, "sub"), ""),
    "P07": (lambda tier: A.mul_jobs(tier), ""),
    "P08": (lambda tier: A.div_jobs(tier) + A.recip_jobs(tier), ""),
    "P09": (lambda tier: A.rem_jobs(tier), ""),
    "P10": (lambda tier: Q.sqrt_jobs(tier), ""),
    "P11": (lambda tier: X.fma_jobs(tier), ""),
    "P12": (lambda tier: X.sos_jobs(tier), ""),
    "P13": (lambda tier: V.round_jobs(tier), ""),
    "P14": (lambda tier: V.int_jobs(tier), ""),
    "P15": (lambda tier: V.float_jobs(tier), ""),
    "P16": (lambda tier: V.scale_jobs(tier), ""),
    "P17": (lambda tier: V.angle_jobs(tier), ""),
    "P18": (lambda tier: G.bigint_jobs(tier), ""),
    "P31": (lambda tier: D.digit_jobs(tier), ""),
    "P19": (lambda tier: K.const_jobs(tier), ""),
    "P32": (lambda tier: Y.all_jobs(tier), ""),
    "P21": (lambda tier: S.form_jobs(tier), ""),
    "P23": (lambda tier: S.effect_jobs(tier), ""),
    "P24": (lambda tier: T.special_jobs(tier), ""),
    "P25": (lambda tier: T.sym_jobs(tier), ""),
    "P26": (lambda tier: V.ulp_jobs(tier), ""),
    "P27": (lambda tier: V.parts_jobs(tier), ""),
}



def panic_jobs(tier):
    """every region of the other checks again, on the build with overflow
    checks and debug assertions"""
    J = []
    spec.PANICS[0] = True
    for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17",
              "P18", "P26", "P27"):
        for i, j in enumerate(PROPS[p][0](tier)):
            # (carrying_shr: its debug assertion states a precondition, which
            # every caller is analysed to meet)
            if j.config == "release" and not j.name.startswith("carrying_shr/"):
                j.config = "debug"
                j.name = p + ":" + j.name
                J.append(j)
    return J


PROPS["P22"] = (panic_jobs, "")

# not (yet) claimed in MANIFEST.json
UNCLAIMED = set()


# the integer operations these properties assume are analysed along with them
DEPENDS = {"P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P26", "P27", "P32"}


def bodies(used):
    J = G.bigint_jobs("quick", used)
    if any(u.endswith(("::div_rem", "::rem", "::div", "div_rem_subuint_special")) for u in used):
        J += D.digit_jobs("quick", 256, (237,)) + D.digit_jobs("quick", 128, (109, 128))
    return J


def findings(pid):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k.get("property") == pid]


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    jobs_of, rule = PROPS[pid]
    known = findings(pid)
    spec.KNOWN[:] = known
    spec.DEADLINE[0] = t0 + (480 if tier == "quick" else 3 * 3600)
    try:
        jobs = jobs_of(tier)
        procs = int(os.environ.get("VERIF_PROCS", "8"))
        res = run_jobs(jobs, procs)
        if pid in DEPENDS:
            res += run_jobs(bodies({u for r in res for u in r["used"]}), procs)
    except extract.BuildError as e:
        print("the source could not be analysed:", e, file=sys.stderr)
        return 2
    viol = [v for r in res for v in r["viol"]]
    new, undec, hit = [], [], {}
    for v in viol:
        for k in known:
            if fnmatch.fnmatchcase(v["case"], k["case"]) and k["obligation"] == v["obligation"]:
                hit[k["case"] + "/" + k["obligation"]] = k
                break
        else:
            (new if v["confirmed"] else undec).append(v)
    for k in hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    obl = sum(r["obl"] for r in res)
    ok = sum(r["ok"] for r in res)
    fns = sorted({f for r in res for f in r["fns"]})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "proof",
        "coverage": {
            "obligations": obl, "discharged": ok,
            "checker_cmd": f"python3 check.py {pid} {tier}",
            "trusted_base": ["rustc front end (MIR construction)",
                             "transfer functions of /verif/sa", "specification in /verif/sa/props_*.py"],
            "regions": len(res), "paths": sum(r["paths"] for r in res),
            "mir_statements": sum(r["steps"] for r in res),
            "functions": fns,
            "contracts_used": sorted({u for r in res for u in r["used"]}),
            "rule": rule,
            "slowest": [[r["case"], round(r["t"], 2)] for r in sorted(res, key=lambda r: -r["t"])[:5]],
            "notes": [n for r in res for n in r["notes"]][:50],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "undecided": [{k: v[k] for k in ("case", "obligation", "detail")} for v in undec[:200]],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for v in undec[:5]:
        print(f"  UNDECIDED {v['case']}: {v['obligation']} {v['detail']}"[:300])
    if undec:
        print(f"  ({len(undec)} obligations could be neither discharged nor refuted)")
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".violation.json")
        json.dump((new + undec)[:50], open(rp, "w"), indent=1)
        for v in new[:6]:
            print(f"  {v['case']}: {v['obligation']} {v['detail']} {v.get('witness') or ''}"[:600])
        print(f"  ({len(new)} obligations not met)")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"{pid}: {ok}/{obl} obligations, {len(res)} regions, {ev['coverage']['paths']} paths, {ev['wall_s']} s")
    return 0
