"""numpy stand-in for the part of theano that hyperion/keras/backend_addons uses"""
