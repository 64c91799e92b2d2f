"""Reference update rules.  This file is never executed: the checker parses it
and interprets it abstractly with the same interpreter as the repository, so
both sides of every comparison are value graphs over the same symbols."""
import torch
from yuca.ca.common import CA
from yuca.ca.continuous import CCA
from yuca.ca.neural import NCA
from yuca.ca.reaction_diffusion import RxnDfn
from yuca.lenia import Lenia
from yuca.metaca import MetaCA
from yuca.code import CODE
from yuca.random_step_ca import RandomStepCA


def masked(self, x):
    if x.shape[1] >= 4:
        x = x * torch.where(x[:, 3:4, :, :] > self.alive_threshold, 1.0, 0.0)
    return x


def euler(self, x, dt, update):
    return torch.clamp(x + dt * update, 0, 1.0)


def base_update(self, identity, nbhd):
    return identity + nbhd


def nca_update(self, identity, nbhd):
    return self.weights_layer(torch.cat([identity, nbhd], dim=1))


def gen(self, n):
    return torch.cat([self.genesis_fns[ii](n[:, ii:ii + 1, :, :]) for ii in range(len(self.genesis_fns))], dim=1)


def per(self, n):
    return torch.cat([self.persistence_fns[ii](n[:, ii:ii + 1, :, :]) for ii in range(len(self.persistence_fns))], dim=1)


def cca_update(self, identity, nbhd):
    return self.weights_layer((1.0 - identity) * gen(self, nbhd) + identity * per(self, nbhd))


def lenia_update(self, identity, nbhd):
    return self.weights_layer(gen(self, nbhd))


def rd_u(self, identity, nbhd):
    u = identity[:, 0, :, :]
    v = identity[:, 1, :, :]
    return self.diffusion_u * nbhd[:, 0, :, :] / self.dx ** 2 - u * v ** 2 + self.f * (1 - u)


def rd_v(self, identity, nbhd):
    u = identity[:, 0, :, :]
    v = identity[:, 1, :, :]
    return self.diffusion_v * nbhd[:, 1, :, :] / self.dx ** 2 + u * v ** 2 - (self.f + self.k) * v


def base_step(self, x, dt):
    x = masked(self, x)
    return euler(self, x, dt, base_update(self, self.id_layer(x), self.neighborhood_layer(x)))


def nca_step(self, x, dt):
    x = masked(self, x)
    return euler(self, x, dt, nca_update(self, self.id_layer(x), self.neighborhood_layer(x)))


def cca_step(self, x, dt):
    x = masked(self, x)
    return euler(self, x, dt, cca_update(self, self.id_layer(x), self.neighborhood_layer(x)))


def lenia_step(self, x, dt):
    x = masked(self, x)
    return euler(self, x, dt, lenia_update(self, self.id_layer(x), self.neighborhood_layer(x)))


def rd_step_u(self, x, dt):
    return torch.clamp(x[:, 0, :, :] + dt * rd_u(self, self.id_layer(x), self.neighborhood_layer(x)), 0, 1.0)


def rd_step_v(self, x, dt):
    return torch.clamp(x[:, 1, :, :] + dt * rd_v(self, self.id_layer(x), self.neighborhood_layer(x)), 0, 1.0)


def meta_velocity(self, x, velocity):
    y = masked(self, x)
    return velocity + self.ddt * cca_update(self, self.id_layer(y), self.neighborhood_layer(y))


def meta_step(self, x, velocity, dt):
    return torch.clamp(masked(self, x) + dt * meta_velocity(self, x, velocity), 0, 1.0)
