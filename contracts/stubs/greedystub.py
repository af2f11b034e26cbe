"""An arbitrary greedy strategy: start and inner optimisation are given by their contracts only."""
from bfit.greedy import GreedyStrategy


class AnyStrategy(GreedyStrategy):
    def get_best_one_function_solution(self):
        raise NotImplementedError

    def get_optimization_routine(self, params, local=False):
        raise NotImplementedError
