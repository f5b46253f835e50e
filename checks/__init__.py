from .registry import CHECKS  # noqa
from . import more  # noqa
