"""A deterministic scripted gym environment behind the real EnvWrapper, and scripted policies."""
import gym
import numpy as np
import torch

import reagent.types as rlt
from reagent.core.dataclasses import dataclass
from reagent.gym.envs.env_wrapper import EnvWrapper


class Inner(gym.Env):
    """observation (episode, step), reward 10 * episode + step + 0.5; episode e ends after lengths[e] steps (0: never)"""

    metadata = {}

    def __init__(self, lengths, actions="discrete", masks=False, limit=None, limit_name="_max_episode_steps"):
        self.lengths, self.masks = tuple(lengths), masks
        self.observation_space = gym.spaces.Box(low=-1000.0, high=1000.0, shape=(2,), dtype=np.float32)
        self.action_space = {
            "discrete": lambda: gym.spaces.Discrete(3),
            "box": lambda: gym.spaces.Box(low=np.array([-2.0, 0.0], dtype=np.float32), high=np.array([2.0, 1.0], dtype=np.float32)),
            "multi": lambda: gym.spaces.MultiDiscrete([4, 4]),
        }[actions]()
        if limit is not None:
            setattr(self, limit_name, limit)
        self.episode, self.log, self.t = -1, [], 0
        if masks:
            self.possible_actions_mask = None

    def _obs(self):
        if self.masks:
            self.possible_actions_mask = np.array([True, (self.episode + self.t) % 2 == 0, self.t % 3 == 1])
        return np.array([self.episode, self.t], dtype=np.float32)

    def reset(self):
        self.episode += 1
        self.t = 0
        o = self._obs()
        self.log.append(("reset", o.tolist()))
        return o

    def length(self, e):
        return self.lengths[e % len(self.lengths)]

    def step(self, action):
        r = 10 * self.episode + self.t + 0.5
        self.t += 1
        done = self.t == self.length(self.episode)
        self.log.append(("step", np.array(action).tolist(), r, done))
        return self._obs(), r, done, {"info": 1}


_frozen = getattr(EnvWrapper, "REGISTRY_FROZEN", False)
EnvWrapper.REGISTRY_FROZEN = False


@dataclass
class ScriptedEnv(EnvWrapper):
    lengths: tuple
    actions: str = "discrete"
    masks: bool = False
    limit: int = 0
    limit_name: str = "_max_episode_steps"

    def make(self):
        return Inner(self.lengths, self.actions, self.masks, self.limit or None, self.limit_name)

    def obs_preprocessor(self, obs):
        return rlt.FeatureData(torch.tensor(obs).float().unsqueeze(0))

    def serving_obs_preprocessor(self, obs):
        x = torch.tensor(obs).float().unsqueeze(0)
        return (x, torch.ones_like(x))


EnvWrapper.REGISTRY_FROZEN = _frozen


def action_of(e, t, kind):
    """scripted (model action, what the environment has to get)"""
    k = (2 * e + t + 1) % 3
    if kind == "discrete":
        return torch.nn.functional.one_hot(torch.tensor([k]), 3), k
    if kind == "multi":
        a = [(e + t) % 4, (e + 2 * t + 1) % 4]
        return torch.tensor([a]), a
    a = [[-1.0, 1.0], [0.0, -1.0], [0.5, 0.5]][k]
    return torch.tensor([a]), [a[0] * 2.0, (a[1] + 1) / 2]


class ScriptedPolicy:
    def __init__(self, kind="discrete", log_prob=True):
        self.kind, self.lp, self.seen = kind, log_prob, []

    @staticmethod
    def log_prob(e, t):
        return -0.25 * (1 + e) - 0.5 * t

    def act(self, obs, possible_actions_mask=None):
        e, t = (int(x) for x in (obs.float_features if hasattr(obs, "float_features") else obs[0])[0].tolist())
        self.seen.append(((e, t), None if possible_actions_mask is None else np.array(possible_actions_mask).tolist()))
        lp = torch.tensor([self.log_prob(e, t)]) if self.lp else None
        return rlt.ActorOutput(action=action_of(e, t, self.kind)[0], log_prob=lp)
