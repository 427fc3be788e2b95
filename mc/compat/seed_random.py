"""pytest plugin: the same random numbers in each test from run to run.

test/matrix draws unseeded random matrices and about one draw in 30 is too
ill-conditioned for the tolerance of test_SVD.py."""
import random

import numpy


def pytest_runtest_setup(item):
    random.seed(0)
    numpy.random.seed(0)
