from . import generic_utils
