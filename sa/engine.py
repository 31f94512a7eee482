from .interp import *            # noqa
from .execmix import ExecMixin
from .callmix import CallMixin
from .npmix import NpMixin
from .loops import LoopMixin
from .repo import Repo


class Engine(NpMixin, LoopMixin, CallMixin, ExecMixin, Interp):
    # numpy attributes override the defaults of the core
    pass
