"""Things a document can be read from."""


class Stream(object):
    def __init__(self, name):
        self.name = name

    def read(self, size=-1):
        return ''


class Other(object):
    pass


class Response(Stream):
    closed = False

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
