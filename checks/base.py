"""Shared parts of the checks."""
from sim import core
from sim import load
from sim.core import Violation
from sim.runner import Run


class BaseCheck(object):

    id = None
    instrument = ()
    runs = {'quick': 400, 'thorough': 8000}
    wall = {'quick': 150, 'thorough': 700}
    rule = ''
    measure = ('sha-256 of the sequence of (task, system call kind) and task '
               'switches of the run')
    real_components = []
    stub_components = []
    assumptions = []
    tier = 'quick'
    gc_every = 20

    def setup(self):
        load.install(self.instrument)
        self.load()
        load.freeze()

    def load(self):
        pass

    def finding_key(self, v):
        return v.kind

    def run(self, ch):
        raise NotImplementedError
