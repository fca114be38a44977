"""G04: trainer and observation preprocessors keep every field of a transition."""
import itertools
from types import SimpleNamespace

import gym
import numpy as np
import torch

from mc.core import close, expect, raises, same, seed_all
from mc.scriptenv import Inner, ScriptedEnv, action_of
from mc import world

world.poison_uninitialised()
import reagent.types as rlt
from reagent.gym.envs.gym import Gym
from reagent.gym.preprocessors import make_replay_buffer_inserter, make_replay_buffer_trainer_preprocessor, make_trainer_preprocessor_online
from reagent.gym.preprocessors.default_preprocessors import RecsimObsPreprocessor
from reagent.gym.preprocessors.replay_buffer_inserters import RecSimReplayBufferInserter
from reagent.gym.preprocessors.trainer_preprocessor import (
    DiscreteDqnInputMaker, MemoryNetworkInputMaker, ParametricDqnInputMaker, PolicyGradientInputMaker, PolicyNetworkInputMaker, SlateQInputMaker, get_possible_actions_for_gym,
    one_hot_actions,
)
from reagent.gym.types import Trajectory, Transition
from reagent.gym.utils import build_normalizer
from reagent.parameters import NormalizationKey
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
from reagent.training.reagent_lightning_module import ReAgentLightningModule
from reagent.training.utils import rescale_actions

LEVEL = "exploration"
RULE = (
    "every batch of one to three rows over all action, next-action and terminal patterns (successors of terminal rows hold garbage), optional fields present or absent; stacks "
    "of one to three; trajectories of one to four steps; every kind of action and observation space; whole replay buffers sampled at every index. Every row carries its own "
    "values, so that a swapped, dropped or altered field is seen. Non-trivial: more than one row"
)
ASSUMPTIONS = ["actions lie in the declared range", "the index given to the null action of a slate is not judged (the consumers differ)"]


def onehot(i, n):
    return [float(i == k) for k in range(n)]


def discrete_batches(big):
    for n in (1, 2, 3):
        for acts in itertools.product(range(3), repeat=n) if n < 3 or big else ((0, 1, 2), (2, 0, 1), (1, 1, 0), (2, 2, 2), (0, 0, 2)):
            for terms in itertools.product((False, True), repeat=n):
                for shift in (0, 1, 2):
                    nxt = [(-1 if shift == 1 else 7) if t and shift else (a + shift) % 3 for a, t in zip(acts, terms)]
                    yield n, acts, nxt, terms


def raw_batch(n, acts, nxt, terms, **extra):
    return SimpleNamespace(
        state=torch.tensor([[i + 0.25, -i - 1.0] for i in range(n)]), next_state=torch.tensor([[i + 10.5, -i - 20.0] for i in range(n)]),
        action=torch.tensor(acts).reshape(n, 1), next_action=torch.tensor(nxt).reshape(n, 1), terminal=torch.tensor(terms).reshape(n, 1),
        reward=torch.tensor([[2.0 * i - 3.0] for i in range(n)]), log_prob=torch.tensor([[-0.3 * i - 0.1] for i in range(n)]), **extra,
    )


def check_common(out, b, n, terms):
    close(out.state.float_features, b.state, "states")
    close(out.next_state.float_features, b.next_state, "next states")
    close(out.reward, b.reward, "rewards")
    close(out.not_terminal.float(), [[float(not t)] for t in terms], "not terminal")
    close(out.extras.action_probability, b.log_prob.exp(), "probabilities")


def discrete(big):
    def fn(ctx):
        env = SimpleNamespace(action_space=gym.spaces.Discrete(3))
        shifted = SimpleNamespace(action_space=gym.spaces.Discrete(3), trainer_preprocessor=lambda x: rlt.FeatureData(float_features=x + 100))
        for n, acts, nxt, terms in discrete_batches(big):
            def case():
                for mask in range(4):
                    extra = {}
                    m = [[True, bool(i % 2), False] for i in range(n)]
                    nm = [[False, True, bool(i % 2)] for i in range(n)]
                    if mask & 1:
                        extra["possible_actions_mask"] = torch.tensor(m)
                    if mask & 2:
                        extra["next_possible_actions_mask"] = torch.tensor(nm)
                    b = raw_batch(n, acts, nxt, terms, **extra)
                    out = DiscreteDqnInputMaker.create_for_env(env)(b)
                    expect(isinstance(out, rlt.DiscreteDqnInput), "type")
                    check_common(out, b, n, terms)
                    close(out.action, [onehot(a, 3) for a in acts], "actions")
                    close(out.next_action, [onehot(a, 3) if not t else [0.0] * 3 for a, t in zip(nxt, terms)], "next actions")
                    close(out.possible_actions_mask, torch.tensor(m).float() if mask & 1 else torch.ones(n, 3), "possible actions")
                    close(out.possible_next_actions_mask, torch.tensor(nm).float() if mask & 2 else torch.ones(n, 3), "possible next actions")
                    ctx.step()
                out = DiscreteDqnInputMaker.create_for_env(shifted)(b)
                close((out.state.float_features, out.next_state.float_features), (b.state + 100, b.next_state + 100), "states by the environment's own preprocessor")
                out = ParametricDqnInputMaker.create_for_env(env)(b)
                check_common(out, b, n, terms)
                close(out.action.float_features, [onehot(a, 3) for a in acts], "actions")
                close(out.next_action.float_features, [onehot(a, 3) if not t else [0.0] * 3 for a, t in zip(nxt, terms)], "next actions")
                for p in (out.possible_actions, out.possible_next_actions):
                    close(p.float_features, [onehot(a, 3) for _ in range(n) for a in range(3)], "possible actions")
                for p in (out.possible_actions_mask, out.possible_next_actions_mask):
                    close(p, torch.ones(n, 3), "mask of possible actions")
                one, none = one_hot_actions(3, b.action, b.next_action, b.terminal)
                close(none, out.next_action.float_features, "one-hot next actions")
            ctx.run((n, acts, nxt, terms), case, nontrivial=n > 1)
        def refuse():
            raises(lambda: one_hot_actions(3, torch.zeros(2, 2, dtype=torch.long), torch.zeros(2, 2, dtype=torch.long), torch.zeros(2, 1)), "stacked actions")
            raises(lambda: DiscreteDqnInputMaker.create_for_env(SimpleNamespace(action_space=gym.spaces.Box(low=0, high=1, shape=(2,)))), "continuous actions")
            raises(lambda: PolicyNetworkInputMaker.create_for_env(env), "discrete actions")
            for n in (1, 2, 3):
                for k in (1, 2, 3):
                    close(get_possible_actions_for_gym(n, k).float_features, [onehot(a, k) for _ in range(n) for a in range(k)], "tiled actions")
        ctx.run("refuse", refuse)
    return fn


BOX_LOW, BOX_HIGH = [-2.0, 0.0], [2.0, 5.0]
LEVELS = [0.0, 0.25, 0.5, 1.0]


def continuous(ctx):
    space = gym.spaces.Box(low=np.array(BOX_LOW, dtype=np.float32), high=np.array(BOX_HIGH, dtype=np.float32))
    env = SimpleNamespace(action_space=space)
    lo, hi = (-1.0, 1.0)
    pts = list(itertools.product(LEVELS, repeat=2))

    def raw(p):
        return [l + x * (h - l) for x, l, h in zip(p, BOX_LOW, BOX_HIGH)]

    def scaled(p):
        return [lo + x * (hi - lo) for x in p]

    for n in (1, 2, 3):
        for i, p in enumerate(pts):
            for terms in itertools.product((False, True), repeat=n):
                for docs in (0, 1, 2):
                    def case():
                        a = [pts[(i + 3 * r) % len(pts)] for r in range(n)]
                        nx = [pts[(5 * i + 7 * r + 1) % len(pts)] for r in range(n)]
                        b = raw_batch(n, [0] * n, [0] * n, terms)
                        b.action = torch.tensor([raw(x) for x in a])
                        b.next_action = torch.tensor([raw(x) if not t else [99.0, -99.0] for x, t in zip(nx, terms)])
                        doc = torch.arange(n * docs * 2).reshape(n, docs, 2).float()
                        if docs:
                            b.doc, b.next_doc = doc, doc + 50
                        out = PolicyNetworkInputMaker.create_for_env(env)(b)
                        expect(isinstance(out, rlt.PolicyNetworkInput), "type")
                        close(out.action.float_features, [scaled(x) for x in a], "actions", atol=1e-5)
                        close(out.next_action.float_features, [scaled(x) if not t else [0.0, 0.0] for x, t in zip(nx, terms)], "next actions", atol=1e-5)
                        if docs:
                            close(out.state.float_features, torch.cat([b.state, doc.reshape(n, -1)], 1), "states and documents")
                            close(out.next_state.float_features, torch.cat([b.next_state, doc.reshape(n, -1) + 50], 1), "next states and documents")
                            b.state, b.next_state = out.state.float_features, out.next_state.float_features
                        check_common(out, b, n, terms)
                    ctx.run((n, p, terms, docs), case, nontrivial=n > 1)


def slates(ctx):
    for n in (1, 2, 3):
        for slate in (1, 2):
            for items in (2, 3):
                for clicks in itertools.product((0, 1), repeat=min(n * slate, 4)):
                    for terms in itertools.product((False, True), repeat=n):
                        def case():
                            c = torch.tensor([clicks[k % len(clicks)] for k in range(n * slate)]).reshape(n, slate)
                            idx = torch.tensor([[(r + k) % items for k in range(slate)] for r in range(n)])
                            doc = torch.arange(n * items * 2).reshape(n, items, 2).float()
                            b = SimpleNamespace(
                                state=torch.tensor([[i + 0.5, 1.0] for i in range(n)]), next_state=torch.tensor([[i + 5.5, 2.0] for i in range(n)]), doc=doc, next_doc=-doc,
                                augmentation_value=torch.rand(n, items), next_augmentation_value=torch.rand(n, items), action=idx, next_action=(idx + 1) % items,
                                response_watch_time=torch.arange(n * slate).reshape(n, slate).float() + 1, response_click=c, terminal=torch.tensor(terms).reshape(n, 1),
                            )
                            out = SlateQInputMaker.create_for_env(None)(b)
                            expect(isinstance(out, rlt.SlateQInput), "type")
                            close(out.state.float_features, b.state, "states")
                            close(out.next_state.float_features, b.next_state, "next states")
                            close(out.state.candidate_docs.float_features, doc, "candidates")
                            close(out.next_state.candidate_docs.float_features, -doc, "next candidates")
                            close(out.state.candidate_docs.value, b.augmentation_value, "values of the candidates")
                            close(out.next_state.candidate_docs.value, b.next_augmentation_value, "values of the next candidates")
                            for d in (out.state.candidate_docs, out.next_state.candidate_docs):
                                close(d.mask.float(), torch.ones(n, items), "mask of the candidates")
                            same(tuple(out.action.shape), (n, slate + 1), "shape of the actions")
                            same(out.action[:, :slate], idx, "actions")
                            same(out.next_action[:, :slate], (idx + 1) % items, "next actions")
                            close(out.reward_mask.float(), [[float(x) for x in r] + [float(not sum(r))] for r in c.tolist()], "mask of the rewards")
                            close(out.reward if hasattr(out, "reward") and out.reward is not None and out.reward.shape == (n, slate + 1) else out.position_reward,
                                  [r + [0.0] for r in b.response_watch_time.tolist()], "rewards")
                            close(out.not_terminal.float(), [[float(not t)] for t in terms], "not terminal")
                        ctx.run((n, slate, items, clicks, terms), case, nontrivial=n > 1)


def memory(ctx):
    for n in (1, 2, 3):
        for stack in (1, 2, 3):
            for terms in itertools.product((False, True), repeat=n):
                for kind in ("discrete", "box"):
                    for flat in (False, True) if stack == 1 else (False,):
                        def case():
                            env = SimpleNamespace(action_space=gym.spaces.Discrete(3) if kind == "discrete" else gym.spaces.Box(low=-1, high=1, shape=(2,)))
                            st = torch.arange(n * 2 * stack).reshape(n, 2, stack).float()
                            rew = torch.arange(n * stack).reshape(n, stack).float() - 2
                            acts = torch.tensor([[(r + 2 * k) % 3 for k in range(stack)] for r in range(n)])
                            box = st * 0.01 + 0.1
                            sq = stack == 1
                            b = SimpleNamespace(
                                state=st.squeeze(2) if sq else st, next_state=(st + 100).squeeze(2) if sq else st + 100,
                                action=acts if kind == "discrete" else (box.squeeze(2) if sq else box),
                                reward=rew.squeeze(1) if flat else rew, terminal=torch.tensor(terms) if flat else torch.tensor(terms).reshape(n, 1),
                            )
                            out = MemoryNetworkInputMaker.create_for_env(env)(b)
                            expect(isinstance(out, rlt.MemoryNetworkInput), "type")
                            close(out.state.float_features, [[[st[r, d, k].item() for d in range(2)] for r in range(n)] for k in range(stack)], "states")
                            close(out.next_state.float_features, [[[st[r, d, k].item() + 100 for d in range(2)] for r in range(n)] for k in range(stack)], "next states")
                            close(out.reward, rew.t(), "rewards")
                            close(out.action, [[onehot(acts[r, k].item(), 3) if kind == "discrete" else box[r, :, k].tolist() for r in range(n)] for k in range(stack)], "actions")
                            close(out.not_terminal.float(), [[1.0] * n] * (stack - 1) + [[float(not t) for t in terms]], "not terminal")
                            same(len(out), n, "batch size")
                        ctx.run((n, stack, terms, kind, flat), case, nontrivial=n > 1)


def policy_gradient(ctx):
    for n in (1, 2, 3, 4):
        for kind, space in (
            ("discrete", gym.spaces.Discrete(3)), ("box1", gym.spaces.Box(low=-1, high=1, shape=(1,))), ("box2", gym.spaces.Box(low=-1, high=1, shape=(2,))),
            ("slate", gym.spaces.MultiDiscrete([3, 3])), ("slate1", gym.spaces.MultiDiscrete([3])),
        ):
            for start in range(3):
                for masks, cut in itertools.product((False, True) if kind == "discrete" else (False,), (False, True)):
                    def case():
                        tj = Trajectory()
                        acts, obs, ms = [], [], []
                        for t in range(n):
                            k = (start + 2 * t * t + t) % 3
                            a = {"discrete": np.array(k), "box1": np.array([0.5 - k]), "box2": np.array([0.5 - k, 0.25 * k]), "slate": np.array([k, (k + 1) % 3]), "slate1": np.array([k])}[kind]
                            if kind.startswith("slate"):
                                o = {"user": np.array([t + 0.5, 1.0]), "doc": {str(i): np.array([i + t, -i, 2.0]) for i in range(3)}}
                            else:
                                o = np.array([t + 0.5, -t])
                            m = np.array([True, k > 0, t % 2 == 0]) if masks else None
                            acts.append(a.tolist())
                            obs.append(o)
                            ms.append(m)
                            tj.add_transition(Transition(mdp_id=0, sequence_number=t, observation=o, action=a, reward=1.5 * t - 1, terminal=t == n - 1 and not cut, log_prob=-0.2 * t - 0.1, possible_actions_mask=m))
                        out = PolicyGradientInputMaker.create_for_env(SimpleNamespace(action_space=space))(tj)
                        expect(isinstance(out, rlt.PolicyGradientInput), "type")
                        close(out.action.float(), [onehot(a, 3) for a in acts] if kind == "discrete" else acts, "actions")
                        close(out.reward, [1.5 * t - 1 for t in range(n)], "rewards")
                        close(out.log_prob, [-0.2 * t - 0.1 for t in range(n)], "log-probabilities")
                        if kind.startswith("slate"):
                            close(out.state.float_features, [o["user"] .tolist() for o in obs], "users")
                            close(out.state.candidate_docs.float_features, [[d.tolist() for d in o["doc"].values()] for o in obs], "documents")
                        else:
                            close(out.state.float_features, [o.tolist() for o in obs], "states")
                            same(out.state.float_features.dtype, torch.float32, "type of the states")
                        if masks:
                            close(out.possible_actions_mask.float(), [[float(x) for x in m] for m in ms], "possible actions")
                        else:
                            expect(out.possible_actions_mask is None, "possible actions without a mask")
                    ctx.run((n, kind, start, masks, cut), case, nontrivial=n > 1)


class T1:
    def train(self, training_batch: rlt.DiscreteDqnInput):
        pass


class T2:
    def train(self, training_batch: rlt.ParametricDqnInput):
        pass


class T3:
    def train(self, training_batch: rlt.PolicyNetworkInput):
        pass


class T4:
    def train(self, training_batch: rlt.MemoryNetworkInput):
        pass


class T5:
    def train(self, training_batch: rlt.PolicyGradientInput):
        pass


class T6:
    def train(self, training_batch):
        pass


class T7:
    def train(self, batch: rlt.DiscreteDqnInput):
        pass


class T8:
    def train(self, training_batch: rlt.PreprocessedRankingInput):
        pass


class L1(ReAgentLightningModule):
    def train(self, training_batch: rlt.ParametricDqnInput = None):
        return super().train()

    def train_step_gen(self, training_batch: rlt.DiscreteDqnInput, batch_idx: int):
        yield None


def selection(ctx):
    cpu = torch.device("cpu")
    disc = ScriptedEnv(lengths=(2,))
    box = ScriptedEnv(lengths=(2,), actions="box")

    def case():
        b = raw_batch(2, [0, 1], [1, 2], [False, True])
        for make, want in ((T1, rlt.DiscreteDqnInput), (T2, rlt.ParametricDqnInput), (T4, rlt.MemoryNetworkInput), (L1, rlt.DiscreteDqnInput)):
            out = make_replay_buffer_trainer_preprocessor(make(), cpu, disc)(b)
            expect(type(out) is want, "%s gives %s", make.__name__, type(out))
        b.action, b.next_action = torch.tensor([[0.0, 0.0], [2.0, 1.0]]), torch.tensor([[0.0, 0.5], [0.0, 0.0]])
        expect(type(make_replay_buffer_trainer_preprocessor(T3(), cpu, box)(b)) is rlt.PolicyNetworkInput, "policy network input")
        tj = Trajectory()
        tj.add_transition(Transition(mdp_id=0, sequence_number=0, observation=np.array([1.0, 2.0]), action=np.array(1), reward=1.0, terminal=True, log_prob=-0.5))
        expect(type(make_trainer_preprocessor_online(T5(), cpu, disc)(tj)) is rlt.PolicyGradientInput, "policy gradient input")
        for t in (T6, T7, T8, T5):
            raises(lambda: make_replay_buffer_trainer_preprocessor(t(), cpu, disc), "trainer %s" % t.__name__)
        for t in (T6, T7, T1):
            raises(lambda: make_trainer_preprocessor_online(t(), cpu, disc), "online trainer %s" % t.__name__)
        raises(lambda: make_replay_buffer_trainer_preprocessor(T1(), cpu, box), "discrete trainer, continuous actions")
    ctx.run("selection", case)


def extraction(ctx):
    for kind in ("discrete", "box", "multi"):
        env = ScriptedEnv(lengths=(2,), actions=kind)
        for e, t in itertools.product(range(4), repeat=2):
            def case():
                a, want = action_of(e, t, kind)
                out = rlt.ActorOutput(action=a, log_prob=torch.zeros(1))
                got = env.get_action_extractor()(out)
                close(np.array(got).tolist(), want, "action for the environment")
                got2 = env.get_serving_action_extractor()(out)
                close(np.array(got2).tolist(), want if kind != "box" else a[0].tolist(), "action of a served policy")
                expect(isinstance(got, (np.ndarray, np.generic)) and isinstance(got2, (np.ndarray, np.generic)), "type of the actions")
                for f in (env.get_action_extractor(), env.get_serving_action_extractor()):
                    raises(lambda: f(rlt.ActorOutput(action=torch.cat([a, a]), log_prob=None)), "two actions")
                    raises(lambda: f(rlt.ActorOutput(action=a[0], log_prob=None)), "action without a batch")
                if kind == "discrete":
                    for bias in (0.0, -5.0):
                        q = [[bias + 1.0 + (i == want) for i in range(3)]]
                        close(np.array(env.get_action_extractor()(rlt.ActorOutput(action=torch.tensor(q), log_prob=None))).tolist(), want, "largest entry")
                if kind == "box":
                    raises(lambda: env.get_action_extractor()(rlt.ActorOutput(action=torch.tensor([[1.5, 0.0]]), log_prob=None)), "action outside the range")
                obs = np.array([e, t], dtype=np.float32)
                close(env.get_obs_preprocessor(device=torch.device("cpu"))(obs).float_features, [[float(e), float(t)]], "observation")
                close(env.get_serving_obs_preprocessor()(obs)[0], [[float(e), float(t)]], "observation for serving")
            ctx.run((kind, e, t), case)


def rescaling(ctx):
    ranges = [(-1.0, 1.0), (0.0, 1.0), (-2.0, 5.0), (3.0, 3.5)]
    for (a, b), (c, d) in itertools.product(ranges, repeat=2):
        for (e, f) in ranges:
            def case():
                for n in (1, 2, 3):
                    xs = [[a + (b - a) * u, e + (f - e) * (1 - u)] for u in (0.0, 0.3, 1.0)[:n]]
                    t = torch.tensor(xs, dtype=torch.float64)
                    pm, pM = torch.tensor([a, e], dtype=torch.float64), torch.tensor([b, f], dtype=torch.float64)
                    nm, nM = torch.tensor([c, a], dtype=torch.float64), torch.tensor([d, b], dtype=torch.float64)
                    got = rescale_actions(t, new_min=nm, new_max=nM, prev_min=pm, prev_max=pM)
                    want = [[c + (d - c) * u, a + (b - a) * (1 - u)] for u in (0.0, 0.3, 1.0)[:n]]
                    close(got, want, "rescaled actions", atol=1e-6)
                    close(t, xs, "the input is left alone")
                    back = rescale_actions(got.clamp(nm, nM), new_min=pm, new_max=pM, prev_min=nm, prev_max=nM)
                    close(back, xs, "and back", atol=1e-6)
                    for bad in ((b + 0.5, e), (a - 0.5, e), (a, f + 0.1), (a, e - 0.1)):
                        raises(lambda: rescale_actions(torch.cat([t, torch.tensor([bad], dtype=torch.float64)]), new_min=nm, new_max=nM, prev_min=pm, prev_max=pM), "action outside the range")
                    raises(lambda: rescale_actions(t, new_min=nM, new_max=nm, prev_min=pm, prev_max=pM), "empty new range")
            ctx.run((a, c, e), case)


class Registered(Inner):
    def __init__(self, dims=3, max_steps=None, low=-4.0):
        super().__init__((3,))
        self.observation_space = gym.spaces.Box(low=np.array([low - i for i in range(dims)], dtype=np.float32), high=np.array([1.0 + i for i in range(dims)], dtype=np.float32))
        if max_steps is not None:
            self.max_steps = max_steps


def gym_envs(ctx):
    from reagent.gym.envs.utils import register_if_not_exists

    for dims in (1, 2, 3):
        for steps in (None, 1, 7):
            def case():
                name = "McRegistered%d-v0" % dims
                if name not in gym.envs.registry.env_specs:
                    gym.envs.registration.register(id=name, entry_point=lambda **kw: Registered(dims=dims, **kw))
                register_if_not_exists(name, entry_point=None)
                env = Gym(env_name=name) if steps is None else Gym(env_name=name, set_max_steps=steps)
                same(env.max_steps, steps, "step limit")
                obs = np.array([0.5 * i - 1 for i in range(dims)], dtype=np.float32)
                close(env.obs_preprocessor(obs).float_features, [obs.tolist()], "observation")
                x, presence = env.serving_obs_preprocessor(obs)
                close((x, presence), ([obs.tolist()], [[1.0] * dims]), "observation for serving")
                norm = build_normalizer(env)
                st = norm[NormalizationKey.STATE].dense_normalization_parameters
                same(sorted(st), list(range(dims)), "normalized features")
                for i in range(dims):
                    close((st[i].min_value, st[i].max_value), (-4.0 - i, 1.0 + i), "range of feature %d" % i)
                    same(st[i].feature_type, "CONTINUOUS", "kind of feature")
                ac = norm[NormalizationKey.ACTION].dense_normalization_parameters
                same(sorted(ac), [0, 1, 2], "normalized actions")
                same({p.feature_type for p in ac.values()}, {"DISCRETE_ACTION"}, "kind of action")
            ctx.run((dims, steps), case)

    def box():
        env = ScriptedEnv(lengths=(1,), actions="box")
        ac = build_normalizer(env)[NormalizationKey.ACTION].dense_normalization_parameters
        same([(p.feature_type, float(p.min_value), float(p.max_value)) for _, p in sorted(ac.items())], [("CONTINUOUS_ACTION", -2.0, 2.0), ("CONTINUOUS_ACTION", 0.0, 1.0)], "continuous actions")
        env.normalization_data = {"x": 1}
        same(build_normalizer(env), {"x": 1}, "the environment's own normalization")
        raises(lambda: build_normalizer(ScriptedEnv(lengths=(1,), actions="multi")), "slates")
    ctx.run("box", box)


def buffers(big):
    """transitions -> inserter -> replay buffer -> input maker, for every sampled index"""
    def fn(ctx):
        for terms in itertools.product((False, True), repeat=5 if big else 4):
            for kind in ("discrete", "parametric", "box"):
                for masks in (False, True) if kind == "discrete" else (False,):
                    def case():
                        n = len(terms)
                        env = ScriptedEnv(lengths=(2,), actions="box" if kind == "box" else "discrete")
                        rb = ReplayBuffer(replay_capacity=20, batch_size=1)
                        ins = make_replay_buffer_inserter(env)
                        acts = [action_of(1, i, "box" if kind == "box" else "discrete")[1] for i in range(n)]
                        for i in range(n):
                            tr = Transition(
                                mdp_id=0, sequence_number=i, observation=np.array([i, -i], dtype=np.float32), action=np.array(acts[i], dtype=np.float32 if kind == "box" else np.int64), reward=i + 0.5,
                                terminal=terms[i], log_prob=-0.1 * i - 0.1, possible_actions_mask=np.array([True, i % 2 == 0, i % 3 == 0]) if masks else None,
                            )
                            ins(rb, tr)
                        valid = [i for i in range(n) if i < n - 1 or terms[i]]
                        if not valid:
                            return
                        b = rb.sample_transition_batch(batch_size=len(valid), indices=torch.tensor(valid))
                        tr = {"discrete": T1, "parametric": T2, "box": T3}[kind]()
                        out = make_replay_buffer_trainer_preprocessor(tr, torch.device("cpu"), env)(b)
                        close(out.state.float_features, [[float(i), -float(i)] for i in valid], "states")
                        close(out.reward, [[i + 0.5] for i in valid], "rewards")
                        close(out.not_terminal.float(), [[float(not terms[i])] for i in valid], "not terminal")
                        close(out.extras.action_probability, [[np.exp(-0.1 * i - 0.1)] for i in valid], "probabilities")
                        act = out.action if kind == "discrete" else out.action.float_features
                        nxt = out.next_action if kind == "discrete" else out.next_action.float_features
                        for r, i in enumerate(valid):
                            code = lambda a: onehot(a, 3) if kind != "box" else [a[0] / 2.0, a[1] * 2 - 1]
                            close(act[r], code(acts[i]), "action", atol=1e-5)
                            if terms[i]:
                                close(nxt[r], [0.0] * len(nxt[r]), "next action of a terminal row")
                            else:
                                close(nxt[r], code(acts[i + 1]), "next action", atol=1e-5)
                                close(out.next_state.float_features[r], [float(i + 1), -float(i + 1)], "next state")
                            if masks:
                                close(out.possible_actions_mask[r], [1.0, float(i % 2 == 0), float(i % 3 == 0)], "possible actions")
                                if not terms[i]:
                                    close(out.possible_next_actions_mask[r], [1.0, float((i + 1) % 2 == 0), float((i + 1) % 3 == 0)], "possible next actions")
                        ctx.step(len(valid))
                    ctx.run((terms, kind, masks), case)
    return fn


def spaces_for(docs, doc_kind, aug, slate, resp):
    D, B, X = gym.spaces.Dict, gym.spaces.Box, gym.spaces.Discrete
    one = {
        "box": lambda: B(low=-10, high=10, shape=(2,)), "dict": lambda: D({"zeta": X(3), "alpha": B(low=-10, high=10, shape=(2,)), "empty": X(0)}),
        "scalar": lambda: D({"q": B(low=-10, high=10, shape=()), "b": X(2), "a": X(4)}),
    }[doc_kind]
    o = {"user": B(low=-10, high=10, shape=(2,)), "doc": D({str(i): one() for i in range(docs)})}
    o["response"] = gym.spaces.Tuple([D({"click": X(2), "watch_time": B(low=0, high=100, shape=())} if resp == "plain" else {"click": X(2), "watch_time": B(low=0, high=100, shape=()), "vec": B(low=0, high=9, shape=(3,))}) for _ in range(slate)])
    if aug:
        o["augmentation"] = D({str(i): D({"value": B(low=-1, high=1, shape=())}) for i in range(docs)})
    return D(o)


def observation(t, docs, doc_kind, aug, slate, resp):
    def doc(i):
        if doc_kind == "box":
            return np.array([10 * t + i, -i], dtype=np.float32)
        if doc_kind == "dict":
            return {"zeta": (t + i) % 3, "alpha": np.array([10 * t + i, -i], dtype=np.float32), "empty": 0}
        return {"q": np.float32(t + 0.25 * i), "b": (t + i) % 2, "a": (t + 3 * i) % 4}
    o = {"user": np.array([t, t + 0.5], dtype=np.float32), "doc": {str(i): doc(i) for i in range(docs)}}
    if t == 0:
        o["response"] = None
    else:
        o["response"] = tuple({"click": (t + k) % 2, "watch_time": np.float32(7 * t + k), **({"vec": np.array([t, k, 1], dtype=np.float32)} if resp != "plain" else {})} for k in range(slate))
    if aug:
        o["augmentation"] = {str(i): {"value": np.float32(0.1 * i + 0.01 * t)} for i in range(docs)}
    return o


def recsim(ctx):
    for docs in (1, 2, 3):
        for doc_kind in ("box", "dict", "scalar"):
            for aug in (True, False):
                for slate in (1, 2):
                    for resp in ("plain", "vec"):
                        cfg = (docs, doc_kind, aug, slate, resp)

                        def case():
                            env = SimpleNamespace(observation_space=spaces_for(*cfg), action_space=gym.spaces.MultiDiscrete([docs] * slate))
                            if aug:
                                pp = RecsimObsPreprocessor.create_from_env(env)
                                for t in range(3):
                                    o = observation(t, *cfg)
                                    out = pp(o)
                                    close(out.float_features, [[t, t + 0.5]], "user")
                                    close(out.candidate_docs.value, [[0.1 * i + 0.01 * t for i in range(docs)]], "values")
                                    want = []
                                    for i in range(docs):
                                        d = o["doc"][str(i)]
                                        if doc_kind == "box":
                                            want.append(d.tolist())
                                        elif doc_kind == "dict":
                                            want.append(onehot(d["zeta"], 3) + d["alpha"].tolist())
                                        else:
                                            want.append(onehot(d["a"], 4) + onehot(d["b"], 2) + [float(d["q"])])
                                    close(out.candidate_docs.float_features, [want], "documents")
                                    ctx.step()
                            ins = RecSimReplayBufferInserter.create_for_env(env)
                            rb = ReplayBuffer(replay_capacity=10, batch_size=1)
                            obs = [observation(t, *cfg) for t in range(4)]
                            for t in range(4):
                                ins(rb, Transition(mdp_id=0, sequence_number=t, observation=obs[t], action=np.array([(t + k) % docs for k in range(slate)]), reward=1.0 * t, terminal=t == 3, log_prob=-0.1))
                            b = rb.sample_transition_batch(batch_size=4, indices=torch.arange(4))
                            close(b.state, [o["user"].tolist() for o in obs], "users")
                            for t in range(4):
                                ds = list(obs[t]["doc"].values())
                                if doc_kind == "box":
                                    close(b.doc[t], [d.tolist() for d in ds], "documents")
                                else:
                                    for k in ("zeta", "alpha") if doc_kind == "dict" else ("q", "b", "a"):
                                        close(getattr(b, "doc_" + k)[t].float(), [np.array(d[k], dtype=float).tolist() for d in ds], "documents: " + k)
                                if aug:
                                    close(b.augmentation_value[t], [0.1 * i + 0.01 * t for i in range(docs)], "augmentation")
                                r = obs[t]["response"]
                                close(b.response_click[t].float(), [float(x["click"]) for x in r] if r else [0.0] * slate, "clicks")
                                close(b.response_watch_time[t], [float(x["watch_time"]) for x in r] if r else [0.0] * slate, "watch time")
                                if resp == "vec":
                                    close(b.response_vec[t], [x["vec"].tolist() for x in r] if r else [[0.0] * 3] * slate, "vector response")
                                same(b.action[t], [(t + k) % docs for k in range(slate)], "slate")
                            if doc_kind == "box" and aug:
                                out = SlateQInputMaker()(b)
                                close(out.state.candidate_docs.float_features, b.doc, "candidates")
                                close(out.next_state.candidate_docs.float_features[:3], b.doc[1:], "next candidates")
                                close(out.state.candidate_docs.value, b.augmentation_value, "values")
                        ctx.run(cfg, case, nontrivial=docs > 1)


def groups(tier):
    big = tier == "thorough"
    return [
        ("discrete", discrete(big)), ("continuous", continuous), ("slates", slates), ("memory", memory), ("policy-gradient", policy_gradient), ("selection", selection),
        ("extraction", extraction), ("rescaling", rescaling), ("gym", gym_envs), ("buffers", buffers(big)), ("recsim", recsim),
    ]
