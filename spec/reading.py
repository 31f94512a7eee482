"""Files and what is read from them."""
from pynare.core.model import Model
from pynare.io.files import read_file, read_example


class File:

    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


class Place:
    """A path that is an object."""

    def __init__(self, path):
        self.path = path

    def __str__(self):
        return self.path

    def __fspath__(self):
        return self.path


class PathObject(Place):

    def __init__(self, path, name, stem, suffix, there):
        self.path = path
        self.name = name
        self.stem = stem
        self.suffix = suffix
        self.there = there

    def exists(self):
        return self.there

    def is_file(self):
        return self.there

    def open(self, *args, **kwargs):
        return open(self.path)

    def read_text(self, *args, **kwargs):
        return open(self.path).read()


class Outline:

    def __init__(self, text, language):
        self.text = text
        self.language = language


class Read:
    """A model as read from a text."""

    def __init__(self, outline, language, name):
        self.seen = [outline.text, outline.language, language, name]


def model(path):
    return Model.from_path(path).seen


def model_in(path, language):
    return Model.from_path(path, language).seen


def model_named(path, language):
    return Model.from_path(filepath=path, language=language).seen


def model_of_object(path):
    return Model.from_path(Place(path)).seen


def contents(path):
    return read_file(path)


def example(name):
    return read_example(name)


def refused(path):
    try:
        return Model.from_path(path).seen
    except FileNotFoundError:
        return 'FileNotFoundError'


def no_example(name):
    try:
        return read_example(name)
    except ValueError:
        return 'ValueError'
