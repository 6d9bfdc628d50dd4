import csv
import io
import json
import os
import time
import warnings
from collections import OrderedDict, deque
import numpy as np
import six
from . import backend as K


class Callback(object):
    def __init__(self):
        self.validation_data = None
        self.model = None

    def set_params(self, params):
        self.params = params

    def set_model(self, model):
        self.model = model

    def _nothing(self, i=None, logs=None):
        pass

    on_epoch_begin = on_epoch_end = on_batch_begin = on_batch_end = _nothing

    def on_train_begin(self, logs=None):
        pass

    on_train_end = on_train_begin


def _op(mode, monitor):
    if mode not in ('auto', 'min', 'max'):
        warnings.warn('mode %s is unknown, fallback to auto mode.' % mode, RuntimeWarning)
        mode = 'auto'
    if mode == 'max' or mode == 'auto' and ('acc' in monitor or monitor.startswith('fmeasure')):
        return np.greater, -np.inf
    return np.less, np.inf


class ModelCheckpoint(Callback):
    def __init__(self, filepath, monitor='val_loss', verbose=0, save_best_only=False, save_weights_only=False, mode='auto', period=1):
        super(ModelCheckpoint, self).__init__()
        self.monitor, self.verbose, self.filepath, self.save_best_only = monitor, verbose, filepath, save_best_only
        self.save_weights_only, self.period, self.epochs_since_last_save = save_weights_only, period, 0
        self.monitor_op, self.best = _op(mode, monitor)


class EarlyStopping(Callback):
    def __init__(self, monitor='val_loss', min_delta=0, patience=0, verbose=0, mode='auto', baseline=None, restore_best_weights=False):
        super(EarlyStopping, self).__init__()
        self.monitor, self.patience, self.verbose, self.mode = monitor, patience, verbose, mode
        self.monitor_op, _ = _op(mode, monitor)
        self.min_delta = abs(min_delta) if self.monitor_op is np.greater else -abs(min_delta)

    def on_train_begin(self, logs=None):
        self.wait, self.stopped_epoch = 0, 0
        self.best = np.inf if self.monitor_op is np.less else -np.inf

    def on_epoch_end(self, epoch, logs=None):
        c = (logs or {}).get(self.monitor)
        if c is None:
            return
        if self.monitor_op(c - self.min_delta, self.best):
            self.best, self.wait = c, 0
        else:
            self.wait += 1
            if self.wait >= self.patience:
                self.stopped_epoch = epoch
                self.model.stop_training = True


class CSVLogger(Callback):
    def __init__(self, filename, separator=',', append=False):
        super(CSVLogger, self).__init__()
        self.filename, self.sep, self.append = filename, separator, append
        self.keys, self.append_header, self.rows = None, True, []

    def on_train_begin(self, logs=None):
        if self.append and os.path.exists(self.filename):
            with open(self.filename) as f:
                self.append_header = not bool(len(f.readline()))
        self.f = open(self.filename, 'a' if self.append else 'w')

    def on_epoch_end(self, epoch, logs=None):
        logs = logs or {}
        if self.keys is None:
            self.keys = sorted(logs)
            if self.append_header:
                self.f.write(self.sep.join(['epoch'] + self.keys) + '\n')
        self.f.write(self.sep.join([str(epoch)] + [str(logs.get(k, 'NA')) for k in self.keys]) + '\n')
        self.f.flush()

    def on_train_end(self, logs=None):
        self.f.close()


class ReduceLROnPlateau(Callback):
    def __init__(self, monitor='val_loss', factor=0.1, patience=10, verbose=0, mode='auto', min_delta=1e-4, cooldown=0, min_lr=0, **kwargs):
        super(ReduceLROnPlateau, self).__init__()
        self.monitor = monitor
        if factor >= 1.0:
            raise ValueError('ReduceLROnPlateau does not support a factor >= 1.0.')
        self.factor, self.min_lr, self.min_delta, self.patience, self.mode = factor, min_lr, min_delta, patience, mode
        self.verbose, self.cooldown = verbose, cooldown
        self._reset()

    def _reset(self):
        if self.mode not in ('auto', 'min', 'max'):
            self.mode = 'auto'
        if self.mode == 'min' or self.mode == 'auto' and 'acc' not in self.monitor:
            self.monitor_op, self.best = lambda a, b: np.less(a, b - self.min_delta), np.inf
        else:
            self.monitor_op, self.best = lambda a, b: np.greater(a, b + self.min_delta), -np.inf
        self.cooldown_counter, self.wait = 0, 0

    def on_train_begin(self, logs=None):
        self._reset()

    def on_epoch_end(self, epoch, logs=None):
        logs = logs or {}
        logs['lr'] = K.get_value(self.model.optimizer.lr)
        c = logs.get(self.monitor)
        if c is None:
            return
        if self.in_cooldown():
            self.cooldown_counter -= 1
            self.wait = 0
        if self.monitor_op(c, self.best):
            self.best, self.wait = c, 0
        elif not self.in_cooldown():
            self.wait += 1
            if self.wait >= self.patience:
                old = float(K.get_value(self.model.optimizer.lr))
                if old > self.min_lr:
                    K.set_value(self.model.optimizer.lr, max(old * self.factor, self.min_lr))
                    self.cooldown_counter, self.wait = self.cooldown, 0

    def in_cooldown(self):
        return self.cooldown_counter > 0
