"""Directory snapshots."""
import hashlib, os, stat


def snapshot(root):
    """{relative path: description} of everything below root, links not followed."""
    res = {}
    for d, dirs, files in os.walk(root):
        for n in sorted(dirs + files):
            p = os.path.join(d, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                res[rel] = ("link", os.readlink(p), st.st_ino)
            elif stat.S_ISDIR(st.st_mode):
                res[rel] = ("dir", stat.S_IMODE(st.st_mode), st.st_ino)
            elif stat.S_ISREG(st.st_mode):
                try:
                    h = hashlib.sha1(open(p, "rb").read()).hexdigest()
                except OSError:
                    h = "?"
                res[rel] = ("file", h, st.st_size, st.st_ino, st.st_mtime_ns, stat.S_IMODE(st.st_mode), st.st_nlink)
            else:
                res[rel] = ("other", st.st_mode, st.st_ino)
    return res


def diff(a, b, ignore=()):
    o = []
    for k in sorted(set(a) | set(b)):
        if k in ignore:
            continue
        if a.get(k) != b.get(k):
            o.append("%s: %s -> %s" % (k, a.get(k), b.get(k)))
    return o
