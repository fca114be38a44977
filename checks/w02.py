"""W02: the offline gym pipeline (logging, upload, evaluation) and normalisers built from environments."""
import itertools
import json
import logging
import os
import tempfile
import types

import gym
import numpy as np
import pandas as pd
import torch

from mc.core import close, expect, raises, same, seed_all
from mc import sparkstub, world

sparkstub.install()
world.poison_uninitialised()
from mc.scriptenv import ScriptedEnv
import reagent.types as rlt
import reagent.workflow.gym_batch_rl as gb
import reagent.workflow.spark_utils as su
from reagent.core.dataclasses import dataclass
from reagent.gym.envs.env_wrapper import EnvWrapper
from reagent.gym.utils import build_normalizer
from reagent.models.base import ModelBase
from reagent.parameters import NormalizationParameters
from reagent.prediction.predictor_wrapper import DiscreteDqnPredictorWrapper, DiscreteDqnWithPreprocessor
from reagent.preprocessing.preprocessor import Preprocessor
from reagent.publishers.file_system_publisher import FileSystemPublisher
from reagent.workflow.types import TableSpec

logging.getLogger("reagent").setLevel(logging.ERROR)

LEVEL = "exploration"
RULE = (
    "offline logging: every number of transitions, episode lengths, environment and pipeline step limits for discrete and continuous actions, read back from the written file; "
    "upload: every data frame shape; evaluation: every action-value table of a small environment, every number of episodes and step limit, bars below, at and above the "
    "score; normalisers: every space over an alphabet of bounds. Non-trivial: more than one transition or episode"
)
ASSUMPTIONS = [
    "pyspark is replaced by a recording session; the Scala timeline operator is out of reach (N02)",
    "the environment is deterministic, and evaluation runs in one process",
]


# -- logging of random transitions --------------------------------------------------------------
def offline(big):
    def fn(ctx):
        for n in range(2, 9 if big else 7):
            for lengths in itertools.product((1, 2, 4, 9), repeat=2):
                for env_limit, limit in itertools.product((0, 2), (None, 1, 3, 20)):
                    for kind in ("discrete", "box"):
                        def case():
                            made = []

                            def make(env_name=None):
                                same(env_name, "name", "environment")
                                made.append(ScriptedEnv(lengths=lengths, actions=kind, limit=env_limit))
                                return made[-1]
                            frames, old = [], gb.Gym
                            gb.Gym = make
                            try:
                                with tempfile.TemporaryDirectory() as tmp:
                                    p = os.path.join(tmp, "f.pkl")
                                    for seed in (0, 0, 5):
                                        gb.offline_gym("name", p, n, limit, seed=seed)
                                        frames.append(pd.read_pickle(p))
                                        same(os.listdir(tmp), ["f.pkl"], "files")
                            finally:
                                gb.Gym = old
                            a, b, c = frames
                            expect(a.equals(b) or a.to_dict() == b.to_dict(), "the same seed gives other data")
                            caps = [x for x in (env_limit, limit) if x]
                            for df, env in zip(frames, made):
                                same(len(df), n, "rows")
                                steps = [x for x in env.env.log if x[0] == "step"]
                                same(len(steps), n, "steps of the environment")
                                e, t = 0, 0
                                rows = df.sort_values(["mdp_id", "sequence_number"]).to_dict("records")
                                for i, r in enumerate(rows):
                                    same((r["mdp_id"], r["sequence_number"]), (str(e), t), "id and sequence number of row %d" % i)
                                    close({int(k): v for k, v in r["state_features"].items()}, {0: float(e), 1: float(t)}, "state")
                                    close(r["reward"], 10 * e + t + 0.5, "reward")
                                    close(r["metrics"], {"reward": 10 * e + t + 0.5}, "metrics")
                                    same(r["ds"], "2019-01-01", "ds")
                                    end = t + 1 == min([lengths[e % 2]] + caps) or i == n - 1
                                    if kind == "discrete":
                                        same(r["action"], str(int(steps[i][1])), "action")
                                        close(r["action_probability"], 1 / 3, "probability", atol=1e-5)
                                        seen = sorted({str(int(s[1])) for s in steps})
                                        same(r["possible_actions"], [] if end else seen, "possible actions")
                                        same(r["possible_actions_mask"], [] if end else [1] * len(seen), "mask")
                                    else:
                                        same([int(k) for k in sorted(r["action"])], [0, 1], "action features")
                                        close([r["action"][k] for k in sorted(r["action"])], steps[i][1], "action")
                                    e, t = (e + 1, 0) if end else (e, t + 1)
                                ctx.step(n)
                            ctx.state((n, lengths, env_limit, limit, kind))
                        ctx.run((n, lengths, env_limit, limit, kind), case, nontrivial=n > 1)
        ctx.run("bad", lambda: raises(lambda: gb.offline_gym("NoSuchEnv-v7", "/nonexistent/x", 1, None), "unknown environment"))
    return fn


def seeds(ctx):
    import random
    for a, b in itertools.product((None, 0, 1, 7), repeat=2):
        def case():
            out = []
            for s in (a, b):
                seed_all(3)
                gb.initialize_seed(s)
                out.append((random.random(), float(np.random.rand()), float(torch.rand(()))))
            for i in range(3):
                expect((out[0][i] == out[1][i]) == (a == b), "source %d with seeds %s and %s", i, a, b)
            ctx.state((a, b))
        ctx.run((a, b), case)


# -- upload -------------------------------------------------------------------------------------
class Session:
    def __init__(self):
        self.created, self.views, self.calls = [], {}, []
        main = lambda args: self.calls.append(json.loads(args))
        self._jvm = types.SimpleNamespace(com=types.SimpleNamespace(facebook=types.SimpleNamespace(spark=types.SimpleNamespace(rl=types.SimpleNamespace(Timeline=types.SimpleNamespace(main=main))))))

    def createDataFrame(self, df):
        self.created.append(df)
        s = self
        return types.SimpleNamespace(createTempView=lambda name: s.views.__setitem__(name, df))


def upload(ctx):
    for name in ("t", "some_table", "x9"):
        for cols in itertools.product((True, False), repeat=2):
            for n in (0, 1, 3):
                def case():
                    df = pd.DataFrame(dict(mdp_id=list(map(str, range(n))), reward=[0.5 * i for i in range(n)]))
                    if cols[0]:
                        df["possible_actions"] = [["a"]] * n
                    if cols[1]:
                        df["possible_actions_mask"] = [[1]] * n
                    s, old = Session(), gb.get_spark_session
                    gb.get_spark_session = lambda: s
                    try:
                        with tempfile.TemporaryDirectory() as tmp:
                            p = os.path.join(tmp, "d.pkl")
                            df.to_pickle(p)
                            gb.timeline_operator(p, TableSpec(table_name=name))
                            expect(pd.read_pickle(p).equals(df), "the file changed")
                    finally:
                        gb.get_spark_session = old
                    same(list(s.views), [name + "_pre_timeline_operator"], "views")
                    expect(list(s.views.values())[0].equals(df), "uploaded data")
                    same(len(s.calls), 1, "calls of the operator")
                    same(s.calls[0], dict(
                        startDs="2019-01-01", endDs="2019-01-01", addTerminalStateRow=True, inputTableName=name + "_pre_timeline_operator", outputTableName=name,
                        includePossibleActions=cols[0], percentileFunction="percentile_approx", rewardColumns=["reward", "metrics"], extraFeatureColumns=[]), "arguments")
                    ctx.step()
                    ctx.state((name, cols, n))
                ctx.run((name, cols, n), case, nontrivial=n > 1)

    def missing():
        raises(lambda: su.call_spark_class(Session(), "NoSuchClass", "{}"), "unknown class")
    ctx.run("missing", missing)
    for url in ("file:/a/b", "hdfs:/x/y/z"):
        def table():
            old = su.get_spark_session

            class S:
                def sql(self, q):
                    same(q.split(), ["DESCRIBE", "FORMATTED", "tbl"], "query")
                    return sparkstub.DF([{"col_name": "Database", "data_type": "d"}, {"col_name": "Location", "data_type": url}, {"col_name": "Owner", "data_type": "o"}])
            su.get_spark_session = lambda *a: S()
            try:
                same(su.get_table_url("tbl"), url.replace(":/", ":///"), "url")
            finally:
                su.get_spark_session = old
        ctx.run(("url", url), table)


# -- evaluation ---------------------------------------------------------------------------------
class Walk(gym.Env):
    """two states; action 0 stays, action 1 moves and pays; ends after `length` steps"""
    metadata = {}
    REWARD = {(0, 0): 0.25, (0, 1): 1.0, (1, 0): 2.0, (1, 1): -1.0}

    def __init__(self, length):
        self.length = length
        self.observation_space = gym.spaces.Box(low=-1.0, high=1.0, shape=(2,), dtype=np.float32)
        self.action_space = gym.spaces.Discrete(2)
        self.n_episodes = 0
        self.varied = False

    BONUS = (6.0, -1.5, 0.0)

    def obs(self):
        return np.array([1.0 - self.s, float(self.s)], dtype=np.float32)

    def reset(self):
        self.n_episodes += 1
        self.s, self.t = 0, 0
        return self.obs()

    def step(self, a):
        # episodes differ in their rewards
        r = self.REWARD[self.s, int(a)] + (self.BONUS[(self.n_episodes - 1) % 3] if self.varied and self.t == 0 else 0.0)
        self.s = self.s if a == 0 else 1 - self.s
        self.t += 1
        return self.obs(), r, self.t == self.length, {}


_frozen = getattr(EnvWrapper, "REGISTRY_FROZEN", False)
EnvWrapper.REGISTRY_FROZEN = False


@dataclass
class WalkEnv(EnvWrapper):
    length: int

    def make(self):
        return Walk(self.length)

    def obs_preprocessor(self, obs):
        return rlt.FeatureData(torch.tensor(obs).float().unsqueeze(0))

    def serving_obs_preprocessor(self, obs):
        x = torch.tensor(obs).float().unsqueeze(0)
        return (x, torch.ones_like(x))


@dataclass
class SpaceEnv(EnvWrapper):
    obs_low: tuple
    obs_high: tuple
    act: str
    kind: str = "box"

    def make(self):
        e = gym.Env()
        f = np.array
        e.observation_space = {
            "box": lambda: gym.spaces.Box(low=f(self.obs_low, dtype=np.float32), high=f(self.obs_high, dtype=np.float32)),
            "dict": lambda: gym.spaces.Dict({"a": gym.spaces.Discrete(2)}), "image": lambda: gym.spaces.Box(low=0.0, high=1.0, shape=(2, 2), dtype=np.float32),
            "discrete": lambda: gym.spaces.Discrete(3)}[self.kind]()
        e.action_space = {
            "d2": lambda: gym.spaces.Discrete(2), "d4": lambda: gym.spaces.Discrete(4), "b1": lambda: gym.spaces.Box(low=f([-2.0], dtype=np.float32), high=f([3.0], dtype=np.float32)),
            "b2": lambda: gym.spaces.Box(low=f([-1.0, 0.0], dtype=np.float32), high=f([0.5, 4.0], dtype=np.float32)), "b22": lambda: gym.spaces.Box(low=0.0, high=1.0, shape=(2, 2), dtype=np.float32),
            "multi": lambda: gym.spaces.MultiDiscrete([2, 2])}[self.act]()
        e.metadata = {}
        return e

    def obs_preprocessor(self, obs):
        return None

    def serving_obs_preprocessor(self, obs):
        return None


EnvWrapper.REGISTRY_FROZEN = _frozen


class Q(ModelBase):
    def __init__(self, q):
        super().__init__()
        self.q = torch.nn.Parameter(torch.tensor(q))

    def input_prototype(self):
        return rlt.FeatureData(torch.ones(1, 2))

    def forward(self, state):
        return state.float_features @ self.q


def predictor(q):
    raw = {i: NormalizationParameters(feature_type="DO_NOT_PREPROCESS") for i in range(2)}
    m = DiscreteDqnWithPreprocessor(Q(q), Preprocessor(raw, use_gpu=False), rlt.ModelFeatureConfig(float_feature_infos=[]))
    return DiscreteDqnPredictorWrapper(m, ["0", "1"], rlt.ModelFeatureConfig(float_feature_infos=[]))


def score(q, length, limit):
    s, total = 0, 0.0
    for _ in range(min(x for x in (length, limit or 99))):
        a = 0 if q[s][0] > q[s][1] else 1
        total += Walk.REWARD[s, a]
        s = s if a == 0 else 1 - s
    return total


class Manager:
    def __init__(self, names):
        self.names = names

    def serving_module_names(self):
        return self.names

    def __str__(self):
        return "Manager"


def evaluation(big):
    def fn(ctx):
        qs = [[[a, b], [c, d]] for (a, b), (c, d) in itertools.product(((1.0, 0.0), (-1.0, 2.0)), repeat=2)]
        with tempfile.TemporaryDirectory() as tmp:
            models = []
            for i, q in enumerate(qs):
                m = predictor(q)
                models.append(os.path.join(tmp, "m%d.pt" % i))
                torch.jit.save(m, models[-1])
            for i, q in enumerate(qs):
                for length in (1, 2, 3):
                    for limit in (None, 1, 2, 5):
                        for n in (1, 2, 3):
                            for delta in (-0.5, 0.0, 0.5):
                                for names, module in ((["default_model"], None), (["other", "second"], "second")):
                                    def case():
                                        env = WalkEnv(length=length)
                                        env.env.varied = (length + n) % 2 == 1 or i == 1
                                        pub = FileSystemPublisher(publishing_file=os.path.join(tmp, "db"))
                                        asked = []
                                        object.__setattr__(pub, "get_latest_published_model", lambda mm, mn: asked.append((mm, mn)) or models[i])
                                        man = Manager(names)
                                        old, old_eval = gb.Gym, gb.evaluate_for_n_episodes
                                        gb.Gym = lambda env_name=None: env
                                        gb.evaluate_for_n_episodes = lambda **kw: old_eval(num_processes=1, **kw)
                                        kw = {} if module is None else dict(module_name=module)
                                        want = score(q, length, limit) + (sum(Walk.BONUS[e % 3] for e in range(n)) / n if env.env.varied else 0.0)
                                        go = lambda: gb.evaluate_gym("e", types.SimpleNamespace(value=man), types.SimpleNamespace(value=pub), n, want + delta, max_steps=limit, **kw)
                                        try:
                                            if delta > 0:
                                                raises(go, "a bar above the score of %s" % want)
                                            else:
                                                go()
                                        finally:
                                            gb.Gym, gb.evaluate_for_n_episodes = old, old_eval
                                        same(env.env.n_episodes, n, "episodes")
                                        expect(len(asked) == 1 and asked[0][0] is man and asked[0][1] == (module or "default_model"), "asked for %s", asked)
                                        ctx.step(n)
                                        ctx.state((i, length, limit, n))
                                        ctx.outcome(want)
                                    ctx.run((i, length, limit, n, delta, module), case, nontrivial=n > 1)

        def wrong():
            old = gb.Gym
            gb.Gym = lambda env_name=None: WalkEnv(length=1)
            try:
                raises(lambda: gb.evaluate_gym("e", types.SimpleNamespace(value=Manager(["a"])), types.SimpleNamespace(value=FileSystemPublisher(publishing_file="/nonexistent/x")), 1, 0.0), "unknown module")
                raises(lambda: gb.evaluate_gym("e", types.SimpleNamespace(value=Manager(["default_model"])), types.SimpleNamespace(value=object()), 1, 0.0), "unknown publisher")
            finally:
                gb.Gym = old
        ctx.run("wrong", wrong)
    return fn


def normalizers(ctx):
    bounds = [(-1.0, 1.0), (0.0, 5.0), (-3.5, -0.5)]
    for n in (1, 2, 3):
        for bs in itertools.product(bounds, repeat=n):
            for act in ("d2", "d4", "b1", "b2"):
                def case():
                    env = SpaceEnv(obs_low=tuple(b[0] for b in bs), obs_high=tuple(b[1] for b in bs), act=act)
                    r = build_normalizer(env)
                    same(sorted(r), ["action", "state"], "keys")
                    st = r["state"].dense_normalization_parameters
                    same(list(st), list(range(n)), "features")
                    for i, b in enumerate(bs):
                        same((st[i].feature_type, st[i].min_value, st[i].max_value, st[i].mean, st[i].stddev), ("CONTINUOUS", b[0], b[1], 0, 1), "feature %d" % i)
                    ac = r["action"].dense_normalization_parameters
                    if act[0] == "d":
                        k = int(act[1])
                        same([(i, p.feature_type) for i, p in ac.items()], [(i, "DISCRETE_ACTION") for i in range(k)], "actions")
                    else:
                        sp = env.action_space
                        same([(i, p.feature_type, p.min_value, p.max_value) for i, p in ac.items()], [(i, "CONTINUOUS_ACTION", float(l), float(h)) for i, (l, h) in enumerate(zip(sp.low, sp.high))], "actions")
                    ctx.step()
                    ctx.state((bs, act))
                ctx.run((bs, act), case, nontrivial=n > 1)

    def image():
        r = build_normalizer(SpaceEnv(obs_low=(), obs_high=(), act="d2", kind="dict"))
        expect(not r["state"].dense_normalization_parameters, "images are not normalised")
        same(sorted(r["action"].dense_normalization_parameters), [0, 1], "actions")
    ctx.run("image", image)

    def others():
        raises(lambda: build_normalizer(SpaceEnv(obs_low=(), obs_high=(), act="d2", kind="image")), "two-dimensional observations")
        raises(lambda: build_normalizer(SpaceEnv(obs_low=(), obs_high=(), act="d2", kind="discrete")), "discrete observations")
        raises(lambda: build_normalizer(SpaceEnv(obs_low=(0.0,), obs_high=(1.0,), act="multi")), "several discrete actions")
        raises(lambda: build_normalizer(SpaceEnv(obs_low=(0.0,), obs_high=(1.0,), act="b22")), "two-dimensional actions")
        own = WalkEnv(length=1)
        own.env.normalization_data = {"own": 1}
        same(build_normalizer(own), {"own": 1}, "normalization of the environment's own")
    ctx.run("others", others)


def groups(tier):
    big = tier == "thorough"
    return [("offline", offline(big)), ("seeds", seeds), ("upload", upload), ("evaluation", evaluation(big)), ("normalizers", normalizers)]
