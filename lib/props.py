"""One function per property: what is explored, how it is bound to the implementation, what is reported."""
import json
import vlib, corecheck, witness
from vlib import Check, SEED, TIER, log

THOROUGH = TIER == "thorough"
CHECKS = {}
ALLOWED_REJECTIONS = ("InvalidEffectDependency", "MultipleMutableSubscriptArguments", "UnboundTypeVar")

def prop(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn
    return deco

def block(n, stride=20000):
    """Seed range of this run: VERIF_SEED selects the block."""
    lo = 1 + ((SEED - 1) % 1000) * stride
    return lo, lo + n - 1

def core(c, plan, rejections=True):
    """plan: [(profile, quick seeds, thorough seeds)]"""
    tot = {}
    for profile, q, t in plan:
        lo, hi = block(t if THOROUGH else q)
        step = 2500
        for a in range(lo, hi + 1, step):
            st = corecheck.run_profile(c, profile, a, min(hi, a + step - 1))
            errs = st.pop("errs", [])
            for i, e, src in errs:
                if not any(k in e for k in ALLOWED_REJECTIONS):
                    c.violation("well-formed program %s/%d is rejected: %s" % (profile, i, e[:300]),
                                {"profile": profile, "seed": i, "src": src, "error": e})
            for k, v in st.items(): tot[k] = tot.get(k, 0) + v
    cov = c.coverage
    cov["states"] = cov.get("states", 0) + tot["distinct"]
    cov["transitions"] = cov.get("transitions", 0) + tot["states"]
    cov["traces_validated_against_impl"] = cov.get("traces_validated_against_impl", 0) + tot["validated"]
    for k in ("programs", "runs", "fails", "tracked", "events", "discarded", "undecided", "rejected", "f1"):
        cov["core_" + k] = cov.get("core_" + k, 0) + tot[k]
    cov["rule"] = ("seeded programs of the generator in spec/Gen.tla, each on 3 argument sets, explored step by step by TLC "
                   "and replayed in the hir, mir and opt modes")
    if tot["undecided"]:
        c.assumptions.append("%d programs not replayed within 6 s (the debug-only MIR verifier is exponential in branches)" % tot["undecided"])

def std_assumptions(c):
    c.assumptions += ["the specification in spec/*.tla states the documented meaning of the language",
                      "the host functions of the harness (harness/src/host.rs) log faithfully"]

def core_check(pid, plan, level="model_checking"):
    def fn():
        c = Check(pid, level)
        std_assumptions(c)
        witness.replay(c)
        core(c, plan)
        c.finish()
    CHECKS[pid] = fn

core_check("C01", [("mix", 200, 6000), ("hot", 600, 12000), ("opt", 200, 6000), ("own", 150, 4000), ("match", 120, 3000), ("ownfail", 120, 3000)])
core_check("C02", [("mut", 700, 12000), ("opt", 150, 6000), ("clos", 120, 3000)])
core_check("C03", [("order", 350, 8000), ("mix", 150, 3000)])
core_check("C04", [("flow", 350, 8000), ("match", 150, 3000)])
core_check("C05", [("own", 450, 9000), ("ownfail", 300, 6000)])
core_check("C06", [("fail", 450, 8000), ("ownfail", 250, 5000)])
core_check("C09", [("clos", 600, 10000)])

@prop("C14")
def c14():
    import num
    c = Check("C14", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(12000 if THOROUGH else 1500)
    num.run(c, lo, hi, 24 if THOROUGH else 4, 2 if THOROUGH else 5, SEED)
    c.finish()

@prop("C13")
def c13():
    import infer
    c = Check("C13", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(20000 if THOROUGH else 2000)
    infer.run(c, lo, hi)
    core(c, [("gen", 250, 6000)])
    c.finish()

@prop("C12")
def c12():
    import effects
    c = Check("C12", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(12000 if THOROUGH else 900)
    effects.run(c, lo, hi)
    c.finish()

@prop("C15")
def c15():
    import coll
    c = Check("C15", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(16000 if THOROUGH else 1000)
    coll.run(c, lo, hi, 24 if THOROUGH else 18)
    c.finish()

@prop("C24")
def c24():
    import seqs
    c = Check("C24", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(16000 if THOROUGH else 1200)
    seqs.run(c, lo, hi)
    c.finish()

@prop("C16")
def c16():
    import hashes
    c = Check("C16", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(12000 if THOROUGH else 300)
    hashes.run(c, lo, hi, 30 if THOROUGH else 22, 60)
    c.finish()

@prop("C17")
def c17():
    import strs
    c = Check("C17", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(16000 if THOROUGH else 1000)
    strs.run(c, lo, hi, 26 if THOROUGH else 18)
    c.finish()

@prop("C08")
def c08():
    import limits
    c = Check("C08", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    tot = {}
    for profile, q, t in [("flow", 40, 1200), ("own", 25, 900), ("fail", 25, 900), ("clos", 20, 700), ("ownfail", 25, 900)]:
        lo, hi = block(t if THOROUGH else q)
        st = limits.run_profile(c, profile, lo, hi, 3 if THOROUGH else 2)
        for k, v in st.items(): tot[k] = tot.get(k, 0) + v
    lo, hi = block(6000 if THOROUGH else 300)
    en = limits.endless(c, lo, hi)
    for i, e, src in en.pop("errs", []):
        if not any(k in e for k in ALLOWED_REJECTIONS): c.violation("endless program %d is rejected: %s" % (i, e), {"endless": i, "src": src, "error": e})
    cov = c.coverage
    cov["states"] = tot["distinct"] + en["distinct"]
    cov["transitions"] = tot["states"] + en["states"]
    cov["traces_validated_against_impl"] = tot["validated"] + en["programs"]
    cov["limited_runs"], cov["violations_of_limits"] = tot["runs"], tot["violated"]
    cov["programs"], cov["endless_programs"], cov["endless_runs"], cov["undecided"] = tot["programs"], en["programs"], en["runs"], tot["undecided"]
    cov["rule"] = ("core programs under 18 limits in 3 modes against spec/LimitMC.tla (fuel exactly as specified in hir and mir), "
                   "rings of calls and loops without an end against spec/Endless.tla; every violation is followed by a re-entry and a fresh run")
    c.finish()

def sessions(pid, q, t, modes):
    import session
    c = Check(pid, "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(t if THOROUGH else q)
    st = session.run(c, lo, hi, modes=modes)
    cov = c.coverage
    cov["states"], cov["transitions"] = st["distinct"], st["states"]
    cov["traces_validated_against_impl"] = st["histories"]
    cov["submissions"], cov["failed_submissions"], cov["fresh_observations"], cov["stale_observations"] = st["submissions"], st["failed"], st["fresh"], st["stale"]
    cov["undecided"] = st["undecided"]
    cov["rule"] = ("histories of %d submissions over %d modules generated by spec/Session.tla; the state of every module after each submission "
                   "(%s) must be one the specification allows, every order of rebuilding being allowed" % (session.STEPS, session.N,
                   "results of its entry in three execution modes" if modes else "existence, staleness, dependencies, errors, revision, version"))
    c.sample({"history_seeds": [lo, hi]})
    c.finish()

@prop("C19")
def c19(): sessions("C19", 400, 12000, ())

@prop("C20")
def c20(): sessions("C20", 250, 8000, ("hir", "mir", "opt"))

@prop("C10")
def c10():
    import matches
    c = Check("C10", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(40000 if THOROUGH else 3000)
    st = matches.run(c, lo, hi, 16 if THOROUGH else 12)
    cov = c.coverage
    cov["states"], cov["transitions"] = st["distinct"], st["states"]
    cov["traces_validated_against_impl"] = st["runs"]
    cov["accepted"], cov["rejected"], cov["inputs"], cov["open"], cov["undecided"] = st["accepted"], st["rejected"], st["inputs"], st["open"], st["undecided"]
    cov["rule"] = "seeded matches on sums, options, literals, tuples, records and structs (nested, annotated or inferred); verdict, arms entered and bound components from spec/Match.tla against three execution modes"
    c.finish()

@prop("C07")
def c07():
    import access
    c = Check("C07", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(12000 if THOROUGH else 1500)
    access.run(c, lo, hi)
    c.finish()

@prop("C21")
def c21():
    import names
    c = Check("C21", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(60000 if THOROUGH else 6000)
    names.run(c, lo, hi)
    c.finish()

@prop("C11")
def c11():
    import mutab
    c = Check("C11", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(60000 if THOROUGH else 6000)
    mutab.run(c, lo, hi)
    c.finish()

@prop("C22")
def c22():
    import coher
    c = Check("C22", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(20000 if THOROUGH else 2000)
    coher.run(c, lo, hi)
    c.finish()

@prop("C18")
def c18():
    import serde
    c = Check("C18", "model_checking")
    std_assumptions(c)
    witness.replay(c)
    lo, hi = block(20000 if THOROUGH else 2000)
    serde.run(c, lo, hi)
    c.finish()
