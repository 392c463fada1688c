"""applications over documents held in memory, with a count of every fetch"""
import json
import sys

from pyopenapi.migration.base import ApiBase
from pyopenapi.migration.getter import SimpleGetter
from pyopenapi.migration.resolve import Resolver


class App(ApiBase):
    """records every call of the application hook"""
    hook = None

    def prepare_obj(self, obj, jref):
        if self.hook:
            return self.hook(obj, jref)
        return obj


class World(object):
    def __init__(self, docs):
        """docs: url -> python value (given as JSON), text, or bytes; a missing url fails"""
        self.docs = dict(docs)
        self.fetched = []
        self.failing = {}

    def text(self, url):
        self.fetched.append(url)
        if self.failing.get(url, 0) > 0:
            self.failing[url] -= 1
            raise IOError('injected failure for ' + url)
        if url not in self.docs:
            raise IOError('no such document ' + url)
        d = self.docs[url]
        return d if isinstance(d, (str, bytes)) else json.dumps(d)

    def resolver(self, hook=None):
        world = self

        class G(SimpleGetter):
            __simple_getter_callback__ = lambda url: world.text(url)  # noqa
        return Resolver(url_load_hook=hook, default_getter=G)

    def app(self, root, hook=None, resolver=None, **kw):
        return App(root, resolver=resolver or self.resolver(hook), **kw)

    def load(self, root, to=None, **kw):
        a = self.app(root, **kw)
        a.raw = a.load_obj(root)
        a.root = a.migrate_obj(a.raw, root, to) if to else None
        return a
