"""Stand-in for matplotlib: figures record what is drawn; saving one writes the record (JSON) in the image file."""
from . import pyplot  # noqa


def use(*a, **k):
    pass
