"""Names this 2019 code base uses that newer releases dropped, put back under their old meaning.

collections.Mapping and the like were aliases of collections.abc's until Python 3.10,
np.float and the like were aliases of the builtins until numpy 1.24,
pytest.config was pytest's configuration object until pytest 5.

Loaded by test.sh with "-p py39_compat" and by build.sh before it imports phasor.
It must not import or patch anything of phasor."""
import collections
import collections.abc

import numpy

for _name in collections.abc.__all__:
    if not hasattr(collections, _name):
        setattr(collections, _name, getattr(collections.abc, _name))

for _type in (bool, int, float, complex, object, str):
    if _type.__name__ not in vars(numpy):
        setattr(numpy, _type.__name__, _type)


def pytest_configure(config):
    import pytest

    pytest.config = config
