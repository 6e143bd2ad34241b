"""M02: the dataset model's histories, and what every step's output shares with its inputs."""
import vf
from drivers import dataset, pipeline


def check(prop, tier):
    return vf.merge(dataset.check(prop, tier), pipeline.check(prop, tier))
