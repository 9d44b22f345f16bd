"""small directory trees and archives for harnesses

A tree is a dict: relative path -> content (bytes); a path ending in "/"
is a directory (value None) which is made even if nothing is below it.
"""

import os
import shutil
import zipfile

STAMP = 1500000000


def clear(path):
    """path is free for something new (scratch directories only)"""
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.unlink(path)


def write(tree, root, stamp=STAMP):
    clear(root)
    os.mkdir(root)
    for p in tree:
        full = os.path.join(root, p)
        if p.endswith("/"):
            os.makedirs(full, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as fd:
                fd.write(tree[p])
            os.utime(full, (stamp, stamp))
    return root


def read(root):
    """the tree below root, with every directory"""
    out = {}
    for r, ds, fs in os.walk(root):
        for d in ds:
            out[os.path.relpath(os.path.join(r, d), root) + "/"] = None
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as fd:
                out[os.path.relpath(p, root)] = fd.read()
    return out


def files(tree):
    return {p: c for p, c in tree.items() if not p.endswith("/")}


def dirs(tree):
    """every directory that a tree implies"""
    out = set()
    for p in tree:
        parts = p.split("/")
        for i in range(1, len(parts)):
            out.add("/".join(parts[:i]) + "/")
    return out


def write_zip(tree, path, compress=True, date=(2020, 1, 1, 0, 0, 0),
              order=None):
    """an archive with the entries of tree, in its order"""
    clear(path)
    with zipfile.ZipFile(path, "w") as z:
        for p in order or tree:
            i = zipfile.ZipInfo(p, date)
            i.compress_type = zipfile.ZIP_DEFLATED if compress \
                else zipfile.ZIP_STORED
            z.writestr(i, tree[p] or b"")
    return path


def read_zip(path):
    """list of (name, content) of an archive, in order"""
    with zipfile.ZipFile(path) as z:
        return [(i.filename, z.read(i)) for i in z.infolist()]


def choose(ctx, tag, slots):
    """a tree: for every slot one of its variants (each a dict)"""
    tree = {}
    for name, variants in slots:
        tree.update(ctx.choose("%s-%s" % (tag, name), variants,
                               label=lambda v: ",".join(
                                   "%s%s" % (k, "" if c is None else
                                             "=%s" % c[:8].decode("latin-1"))
                                   for k, c in v.items()) or "-"))
    return tree
