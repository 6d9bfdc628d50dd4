from ._objs import factory


class L1L2(object):
    def __init__(self, l1=0., l2=0.):
        self.l1, self.l2 = l1, l2

    def __call__(self, x):
        return self.l1 * abs(x).sum() + self.l2 * (x ** 2).sum()

    def get_config(self):
        return dict(l1=self.l1, l2=self.l2)


def l2(l=0.01):
    return L1L2(l2=l)


def l1(l=0.01):
    return L1L2(l1=l)


get, serialize = factory('regularizer', [L1L2], dict(l1=l1, l2=l2))
deserialize = get
