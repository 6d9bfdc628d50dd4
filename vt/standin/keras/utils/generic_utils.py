_custom = {}


def slice_arrays(arrays, start=None, stop=None):
    if isinstance(arrays, list):
        return [None if x is None else (x[start] if hasattr(start, '__len__') else x[start:stop]) for x in arrays]
    return arrays[start] if hasattr(start, '__len__') else arrays[start:stop]
