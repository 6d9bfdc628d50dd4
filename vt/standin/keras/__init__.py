"""numpy stand-in for the part of keras (2.2) that hyperion/keras uses: layers are evaluated at once on arrays, models keep their graph"""
from . import backend, activations, initializers, regularizers, constraints, objectives, engine, layers, models, optimizers, callbacks, utils
losses = objectives
__version__ = '2.2.4'
