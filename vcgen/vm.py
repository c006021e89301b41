from engine import *
from lib import LibMixin
from chain import ChainMixin
from loops import LoopMixin, struct_same, map_leaves, consts_of


class VM(LoopMixin, LibMixin, ChainMixin, Exec):
    pass
