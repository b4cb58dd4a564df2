"""Registry of the property checks."""
import importlib

MODULES = {
    "S01": "timed", "S02": "timed", "S03": "timed", "S04": "parallel",
    "S05": "failing", "S06": "cache", "S07": "cache",
    "S21": "duck", "S19": "workload", "S20": "workload", "S27": "workload", "S26": "commands", "S18": "randplans", "S23": "counters", "S22": "shifts", "S25": "pool", "S24": "stats", "S28": "querygen", "S29": "schema", "S15": "training", "S16": "optimizing", "S30": "refusing", "S31": "introspect", "S32": "lookups", "S17": "rewritten", "S33": "hinting", "S34": "templates", "S35": "costing",
    "S08": "bench", "S09": "bench", "S10": "bench", "S11": "bench", "S12": "bench", "S13": "prepared", "S14": "bench",
}


def load(prop_id: str):
    module = importlib.import_module(f"props.{MODULES[prop_id]}")
    return module.PROPS[prop_id]


class Prop:
    id = ""
    quick_runs = 400
    thorough_runs = 20000
    rule = ""
    state_measure = "distinct abstract outcomes recorded by the oracle"
    real: list = []
    stub: list = []
    assumptions: list = []
    native_engine = False  # whether a few crashes of the native database engine (DuckDB) leave the verdict as it is

    def scenario(self, rng, tier):
        raise NotImplementedError

    def run(self, ctx, sc):
        raise NotImplementedError
