"""objects that are made from their names or configurations"""


def factory(base, classes, aliases=()):
    by = dict((c.__name__, c) for c in classes)
    by.update(aliases)

    def get(x):
        if x is None or callable(x):
            return x
        if isinstance(x, str):
            if x not in by:
                raise ValueError('Unknown %s: %s' % (base, x))
            return by[x]()
        if isinstance(x, dict):
            from .utils import generic_utils
            name = x['class_name']
            cls = generic_utils._custom.get(name) or by.get(name)
            if cls is None:
                raise ValueError('Unknown %s: %s' % (base, name))
            return cls(**x['config'])
        raise ValueError('Could not interpret %s: %s' % (base, x))

    def serialize(x):
        return None if x is None else dict(class_name=x.__class__.__name__, config=x.get_config())
    return get, serialize
