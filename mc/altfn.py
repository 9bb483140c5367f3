"""Alternative settings that are functions, written against the documented signatures."""
import numpy as np


def manhattan(u, v):
    return np.sum(np.abs(np.asarray(u) - np.asarray(v)), axis=-1)


def swap_crossover(pop, p, task, rng, **_kwargs):
    for i in range(len(pop) - 1):
        pop[i] = np.asarray([pop[i + 1, d] if rng.random() < 0.5 * p else pop[i, d] for d in range(task.dimension)])
    return pop, np.asarray([task.eval(x) for x in pop])


def middle_brooding(pop, p, task, rng, **_kwargs):
    for i in range(len(pop)):
        pop[i] = task.repair(0.5 * (pop[i] + rng.uniform(task.lower, task.upper)), rng=rng)
    return pop, np.asarray([task.eval(x) for x in pop])


def coordinate_neighborhood(x, delta, task, rng):
    y = np.array(x)
    y[rng.integers(task.dimension)] += delta * (rng.random() - 0.5)
    y = task.repair(y, rng=rng)
    return y, task.eval(y)


def grid_init(task, population_size, rng, individual_type=None, **_kwargs):
    """Members evenly spread along the diagonal of the box, with a little noise from the generator."""
    t = (np.arange(population_size) + rng.random(population_size)) / population_size
    xs = task.lower + t[:, None] * task.range
    if individual_type is None:
        return xs, np.asarray([task.eval(x) for x in xs])
    pop = np.empty(population_size, dtype=object)
    for i, x in enumerate(xs):
        pop[i] = individual_type(x=np.array(x), task=task, rng=rng, e=True)
    return pop, np.asarray([i.f for i in pop])
