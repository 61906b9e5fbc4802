"""Imports the scripts of demos/neurips20 as modules. torchvision is not installed here; where it is missing, a stand-in
takes its place (small data sets and transforms which record what they are asked for)."""
import contextlib
import importlib
import os
import sys
import types

import numpy as np
import torch

import neuro_shooting
from pbt import Skip

REPO = os.path.dirname(os.path.dirname(os.path.abspath(neuro_shooting.__file__ or list(neuro_shooting.__path__)[0] + '/__init__.py')))
DEMOS = os.path.join(REPO, 'demos', 'neurips20')


class FakeSet(torch.utils.data.Dataset):
    """image number i of the training (test) set is gray level 1+i (101+i) in its inner part and black at the border pixels on the left and top"""
    sizes = dict(train=10, test=7)
    created = []

    def __init__(self, root, train=True, transform=None, target_transform=None, download=False):
        self.root, self.train, self.transform, self.download = root, train, transform, download
        if not download:
            raise RuntimeError('Dataset not found. You can use download=True to download it')
        FakeSet.created.append(self)

    def __len__(self):
        return FakeSet.sizes['train' if self.train else 'test']

    def __getitem__(self, i):
        from PIL import Image
        if not 0 <= i < len(self):
            raise IndexError(i)
        a = np.full([28, 28], i + (1 if self.train else 101), dtype=np.uint8)
        a[0, :] = 0
        a[:, 0] = 0
        im = Image.fromarray(a)
        return (im if self.transform is None else self.transform(im)), i


SETS = ['MNIST', 'CIFAR10', 'CIFAR100', 'FashionMNIST', 'SVHN', 'KMNIST']


@contextlib.contextmanager
def fake_sets():
    """torchvision with data sets that are generated, not downloaded"""
    try:
        import torchvision.datasets as ds
    except ImportError:
        raise Skip('torchvision is not installed')
    if getattr(ds, 'is_stand_in', False):
        raise Skip('torchvision is not installed')
    import neuro_shooting.data_loaders as dl
    old = {n: getattr(ds, n) for n in SETS}
    try:
        for n in SETS:
            setattr(ds, n, type(n, (FakeSet,), {}))
        yield importlib.reload(dl)
    finally:
        for n in SETS:
            setattr(ds, n, old[n])
        importlib.reload(dl)


def stand_in():
    try:
        import torchvision
        return torchvision
    except ImportError:
        pass
    tv = types.ModuleType('torchvision')
    for n in ['transforms', 'datasets', 'utils']:
        m = types.ModuleType('torchvision.' + n)
        setattr(tv, n, m)
        sys.modules['torchvision.' + n] = m
    tv.datasets.is_stand_in = True
    tv.utils.make_grid = lambda *a, **k: None
    sys.modules['torchvision'] = tv
    return tv


class Missing(Skip, AttributeError):
    pass


def load(name):
    stand_in()
    if DEMOS not in sys.path:
        sys.path.insert(0, DEMOS)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    m = importlib.import_module(name)
    if '__getattr__' not in vars(m):
        def missing(n):
            raise Missing('{} has no {}'.format(name, n))
        m.__getattr__ = missing
    return m


@contextlib.contextmanager
def cwd(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)
