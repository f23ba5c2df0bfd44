"""A file system of its own, as remote object stores are: its files are not on the disc, can be
written only in order, and appear when they are closed."""
import os

import fsspec
from fsspec.spec import AbstractBufferedFile, AbstractFileSystem

FILES = {}


class File(AbstractBufferedFile):
    def _initiate_upload(self):
        self.parts = []

    def _upload_chunk(self, final=False):
        self.parts.append(self.buffer.getvalue())
        if final:
            FILES[self.path] = b"".join(self.parts)
        return True

    def _fetch_range(self, start, end):
        return FILES[self.path][start:end]


class Remote(AbstractFileSystem):
    protocol = "verif"
    cachable = False

    def info(self, path, **kwargs):
        path = self._strip_protocol(path)
        if path in FILES:
            return {"name": path, "size": len(FILES[path]), "type": "file"}
        if any(f.startswith(path + "/") for f in FILES):
            return {"name": path, "size": 0, "type": "directory"}
        raise FileNotFoundError(path)

    def ls(self, path, detail=True, **kwargs):
        path = self._strip_protocol(path).rstrip("/") + "/"
        names = sorted({path + f[len(path):].split("/")[0] for f in FILES if f.startswith(path)})
        return [self.info(n) for n in names] if detail else names

    def _open(self, path, mode="rb", **kwargs):
        if mode not in ("rb", "wb"):
            raise NotImplementedError(mode)
        return File(self, path, mode, cache_type="bytes" if mode == "rb" else "none")


fsspec.register_implementation("verif", Remote)


def url(path):
    return "verif://" + path.lstrip("/")


def take(folder):
    """Move the files of a folder there."""
    for name in os.listdir(folder):
        with open(os.path.join(folder, name), "rb") as f:
            FILES[Remote._strip_protocol(url(folder)) + "/" + name] = f.read()
        os.remove(os.path.join(folder, name))
