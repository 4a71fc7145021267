"""A list kept in a file, which several processes may append to"""
import json
import os
import tempfile

PLACE = None


class FileList:
    def __init__(self, path=None):
        if path is None:
            f, path = tempfile.mkstemp(dir=PLACE)
            os.close(f)
        self.path = path

    def append(self, x):
        f = os.open(self.path, os.O_APPEND | os.O_WRONLY)
        try:
            os.write(f, (json.dumps(x, default=float) + '\n').encode())
        finally:
            os.close(f)

    def all(self):
        with open(self.path) as f:
            return [json.loads(line) for line in f]

    def __iter__(self):
        return iter(self.all())

    def __len__(self):
        return len(self.all())

    def __getitem__(self, i):
        return self.all()[i]

    def __delitem__(self, i):
        assert i == slice(None)
        open(self.path, 'w').close()

    def close(self):
        if os.path.exists(self.path):
            os.unlink(self.path)


def record(c):
    """Where to note the simulations of a case"""
    return FileList() if c.get('core', 1) > 1 else []


def forget(xs):
    if isinstance(xs, FileList):
        xs.close()
