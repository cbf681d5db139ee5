"""Readers whose raw score array is an arbitrary (universally quantified) array."""
from sureal.dataset_reader import RawDatasetReader


class ArrayReader(RawDatasetReader):

    def __init__(self, dataset, scores):
        self.dataset = dataset
        self.scores = scores

    @property
    def opinion_score_3darray(self):
        return self.scores


def above(x):
    return x > 2
