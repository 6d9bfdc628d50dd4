from .base import InputSpec, Layer, Input, InputLayer, KTensor
from .model import Model
