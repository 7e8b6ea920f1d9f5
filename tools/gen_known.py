"""Writes /verif/known_findings.json (kept as code so that the scenarios stay readable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {"kind": "stub_info", "as": "float", "reported": None}
RUN = {"sample": 0, "task": "task-a", "seed": 1, "id": "est-1", "reuse": False, "kwargs": "full", "path": "path", "info": {"shared": 0}}
D = {"dims": [[20, 2, 1], [16, 2, 2], [15, 3, 3]], "strict": True}
TABLE = {"rules": "A", "tasks": [{"params": [], "mi": 0.5}], "ests": ["KSG"], "ns": [4], "seeds": [0], "runs": [], "select": None, "strict": True}
findings = [
 {"id": "run-info-not-copied", "property": "P02",
  "what": "run_estimator (src/bmi/benchmark/result.py) updates a non-empty additional_information dictionary of the caller in place and stores that very "
          "object in the record, so the runs that share it see each other's information and errors",
  "scenarios": [dict(D, ops=[dict(RUN, est=dict(S, value=1.25, info={"n_steps": 7}))], dicts=[{"note": "caller"}])]},
 {"id": "task-params-not-copied", "property": "P09",
  "what": "Task (src/bmi/benchmark/task.py) keeps the params dictionary it was given and hands out its own through params and metadata, so editing either "
          "changes the parameters of the task",
  "scenarios": [{"objs": [[0, False]], "ops": [{"op": "editparams", "obj": 0, "r": 1, "check": True}], "strict": True}]},
 {"id": "results-table-repr", "property": "P18",
  "what": "the rule 'results' of workflows/benchmark/_common_benchmark_rules.smk writes additional_information and task_params as Python texts, which "
          "read_results of workflows/benchmark/_utils.py parses as YAML: error texts with quotes make the whole table unreadable, None, NaN, 1e-05 and "
          "escapes come back as other texts",
  "scenarios": [dict(TABLE, runs=[[{"k": "fail", "exc": "ValueError", "text": "it's \"both\" quotes"}, 0, 0, 0, 0]]),
                dict(TABLE, tasks=[{"params": [["eps", {"v": 1e-05}]], "mi": 0.5}])]},
 {"id": "table-mixes-sizes", "property": "P18",
  "what": "create_benchmark_table and create_convergence_table of workflows/benchmark/_utils.py drop their own selection of one sample size and average "
          "over the runs of all sizes",
  "scenarios": [dict(TABLE, ns=[4, 9], runs=[[{"k": "value", "v": 2.0}, 0, 0, 0, 0], [{"k": "value", "v": 1.0}, 0, 0, 1, 0]]),
                dict(TABLE, ns=[4, 9], runs=[[{"k": "fail", "exc": "ValueError", "text": "boom"}, 0, 0, 0, 0], [{"k": "value", "v": 1.0}, 0, 0, 1, 0]])]},
]
fixed = [
 "fixed: property=P08 c79c78c SplitStudentT.sample(1, ...) raised instead of returning one point",
 "fixed: property=P12 015ed7d an interrupted fit of the neighbour ensemble left predictions mixed from two fits, or fewer than configured",
 "fixed: property=P13 a0961b0 a neighbourhood listed twice was counted twice by the fast neighbour ensemble",
 "fixed: property=P08 7acee24 ZeroInflatedPoissonizationSampler reported no dimensions (dim_x and dim_y raised)",
 "fixed: property=P09 deb0f35 SplitStudentT kept the caller's mean and dispersion arrays; editing them changed the sampler",
 "fixed: property=P09 8aed570 mixtures and spiral transforms kept the caller's arrays; editing them changed the sampler",
 "fixed: property=P19 e5ec8a9 the Gaussian-mixture estimator did not hand its concentration parameter to the model",
 "fixed: property=P19 146c3ed an interrupted or rejected fit left new draws with old dimensions (or the reverse)",
 "fixed: property=P18 9f90ce6 the results rules of Beyond Normal and Mixtures wrote dictionaries as Python texts that the readers cannot parse",
 "fixed: property=P18 91788eb the Mixtures results table averaged over all sample sizes instead of the selected one",
 "fixed: property=P21 c6839ba the PMI figure workflows called sample() with number of points and key exchanged, so three figures could not be made",
 "fixed: property=P14 2675b45 a NaN in the first test evaluation made every later one look no better (NaN kept as the best value)",
]
extra = json.load(open(V + "/tools/known_extra.json")) if __import__("os").path.exists(V + "/tools/known_extra.json") else []
json.dump({"findings": findings, "fixed": fixed + extra}, open(V + "/known_findings.json", "w"), indent=1)
