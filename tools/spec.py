"""Single source of properties.jsonl and MANIFEST.json: python3 tools/spec.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "bayespy/inference/vmp/nodes/"
P = []


def prop(id, title, statement, over, domain, why, files, mechanism, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=domain), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mechanism, where=files[0])]),
                  technique=technique, note=note))


CORE = [N + "node.py", N + "stochastic.py", N + "expfamily.py", N + "deterministic.py",
        N + "constant.py"]
NOTE = ("Sampled, not exhaustive: generated model graphs up to about 8 nodes, plates up to 3 "
        "axes, dimensions up to 4; array contents come from a seeded generator. Trusts numpy, "
        "scipy and the dense reference formulas in vlib/dense.py and vlib/zoo.py.")

prop("C01", "The evidence lower bound never decreases",
     "For any model built from the library's nodes and any partial or full data, every "
     "coordinate update of any variable in any order, and every iteration of the inference "
     "engine, leaves the reported evidence lower bound at least as large as before up to "
     "floating-point rounding.",
     ["inputs", "schedules", "configurations"],
     "all models, data, masks, initialisations and update orders",
     "Tests run a handful of fixed models and few updates; the guarantee couples every "
     "message, mask and plate rule over all graphs and schedules.",
     CORE + [N + x for x in ("gaussian.py", "gamma.py", "mixture.py", "gaussian_markov_chain.py",
                             "categorical_markov_chain.py", "dot.py", "add.py")]
     + ["bayespy/inference/vmp/vmp.py"],
     "Each update sets the natural parameters to the prior's plus all children's messages; "
     "the bound is the sum of expected log probabilities minus expected log factors.",
     "property-based testing: random model graphs and update schedules, monotonicity invariant",
     NOTE)

prop("C02", "A coordinate update is the exact optimum of the bound",
     "After updating one variable, the evidence lower bound as a function of that variable's "
     "factor is maximal: replacing the factor by any other member of its family lowers the "
     "bound by exactly the Kullback-Leibler divergence from the replaced factor to the "
     "optimum.",
     ["inputs", "configurations"],
     "all models, masks, plates, states of the other factors and replacement factors",
     "Tests compare messages at single points; that the messages of all children combine to "
     "the global optimum is a statement over all graphs and all directions.",
     CORE + [N + x for x in ("gaussian.py", "gamma.py", "wishart.py", "dirichlet.py",
                             "categorical.py", "mixture.py", "gaussian_markov_chain.py",
                             "categorical_markov_chain.py", "dot.py", "add.py", "gate.py",
                             "take.py", "concatenate.py", "concat_gaussian.py")],
     "Messages to parents are the derivative of the expected log probability with respect to "
     "the parents' moments.",
     "property-based testing: differential against dense KL divergence on random model graphs",
     NOTE)

prop("C04", "The reported lower bound equals its definition",
     "For any model, data and variational state, the lower bound (total and every variable's "
     "term) equals the expected log probability of the variable given its parents minus the "
     "expected log density of its factor, counting observed plates by their log probability "
     "and skipping unobserved irrelevant plates.",
     ["inputs", "configurations"],
     "all models, data, masks, broadcasted parameters and variational states",
     "Tests check a few terms at fixed shapes; normalisation constants, plate multiplicity and "
     "masks interact for every shape combination.",
     CORE + [N + x for x in ("gaussian.py", "gamma.py", "wishart.py", "dirichlet.py",
                             "categorical.py", "mixture.py", "gaussian_markov_chain.py",
                             "categorical_markov_chain.py", "poisson.py", "binomial.py",
                             "multinomial.py", "beta.py")],
     "Expected log probability computed from parent moments minus the factor's own, summed "
     "over plates with multipliers and masks.",
     "property-based testing: differential against an independent dense implementation",
     NOTE)

prop("C06", "Reported moments are exact expectations",
     "The moments a variable reports are the exact expectations of the sufficient statistics "
     "under its current distribution - prior, variational factor, or observed value plate by "
     "plate - for every natural parameter value and every plate and dimension layout.",
     ["inputs", "configurations"],
     "all node types, parameter values, broadcasted layouts, masks",
     "Tests use few fixed values per type and rarely broadcast plates or more than one array "
     "dimension.",
     [N + x for x in ("expfamily.py", "stochastic.py", "gaussian.py", "gamma.py", "wishart.py",
                      "dirichlet.py", "beta.py", "categorical.py", "multinomial.py",
                      "binomial.py", "bernoulli.py", "poisson.py", "gaussian_markov_chain.py",
                      "categorical_markov_chain.py", "mixture.py", "dot.py", "add.py",
                      "gate.py", "take.py", "concatenate.py", "concat_gaussian.py")],
     "Moments and normaliser computed from natural parameters per distribution.",
     "property-based testing: differential against dense closed forms and brute force",
     NOTE)

prop("C07", "Reported gradients are the derivatives of the bound",
     "The Riemannian gradient equals prior plus messages minus current natural parameters, and "
     "the ordinary gradient equals the directional derivative of the lower bound with respect "
     "to the natural parameters, for any variable in any model.",
     ["inputs", "configurations"],
     "all variable types with declared gradients, models, states and directions",
     "Tests differentiate a few small nodes; the mapping has per-type Jacobians and broadcasts.",
     [N + x for x in ("expfamily.py", "gaussian.py", "gamma.py", "wishart.py", "dirichlet.py",
                      "multinomial.py", "binomial.py", "poisson.py", "categorical.py")]
     + ["bayespy/inference/vmp/vmp.py"],
     "Natural-parameter gradient and its conversion to the ordinary gradient.",
     "property-based testing: numerical differentiation of the bound along random directions",
     NOTE + " Ordinary gradients of array-valued Gaussians with two or more axes are declared "
     "not implemented and are not judged.")

prop("C08", "Plates mean independent replication, in any layout",
     "Stacking independent copies of a model along new plates, writing shared parameters "
     "explicitly or broadcasted, or permuting elements along a plate and nodes in the engine "
     "changes neither any posterior element nor the total bound beyond the corresponding "
     "stacking, broadcasting or permutation.",
     ["inputs", "configurations"],
     "all models, plate axes, broadcast patterns and permutations",
     "Tests fix a few plate layouts; each message must agree with itself under all of them.",
     CORE + ["bayespy/utils/misc.py"] + [N + x for x in ("mixture.py", "dot.py", "add.py",
                                                         "gaussian.py", "take.py")],
     "Plate broadcasting rules in messages, masks and bounds.",
     "property-based testing: metamorphic relations between generated models",
     NOTE)

prop("C09", "Masked-out observations have no effect",
     "Values under a false mask element have no influence on any posterior, bound or gradient, "
     "a model with masked plates behaves as the model with those plates deleted, and an "
     "unobserved element keeps being inferred.",
     ["inputs", "configurations"],
     "all models, mask patterns (broadcasted ones included) and hidden values",
     "Tests use few masks on few nodes; masks propagate through every node type and plate map.",
     CORE + [N + x for x in ("mixture.py", "dot.py", "take.py", "concatenate.py", "gate.py",
                             "gaussian_markov_chain.py", "categorical_markov_chain.py")],
     "Masks propagate to parents by the plate mapping and zero the messages of missing plates.",
     "property-based testing: metamorphic relations between generated models",
     NOTE)

EXTRA = os.path.join(V, "tools", "spec_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())


def main():
    P.sort(key=lambda p: p["id"])
    built = [p for p in P if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in built:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier",
                                                  "why_tests_cant", "anchors")}) + "\n")
    man = dict(
        version=1, setup_cmd="true",
        checks=[dict(property=p["id"], quick_cmd="./run %s" % p["id"],
                     thorough_cmd="VERIF_TIER=thorough ./run %s" % p["id"],
                     evidence_file="evidence/%s.json" % p["id"],
                     technique=p["technique"], level="exploration", level_note=p["note"])
                for p in built],
        not_applicable=[],
        notes="See DESIGN.md. Pure Python: checks import /repo directly, nothing to build. "
              "./run --replay FILE re-runs a saved failure.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in P:
        for x in p["anchors"]["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        assert len(p["title"]) <= 80, p["id"]
        assert set(p["quantifier"]["over"]) <= {"schedules", "crash_points", "inputs", "programs",
                                                "histories", "configurations", "fault_sequences"}
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), sch)
    print(len(built), "claimed;", [p["id"] for p in P if p not in built])


if __name__ == "__main__":
    main()
