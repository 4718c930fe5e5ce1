"""Stand-ins for the gdal programs, richdem and rm (see DESIGN.md, C36).

A "tif" is an npz archive: z (rows from north to south, NaN = no data), ulx, uly, dx, dy.  The programs do what the real ones do
with the options the converter uses, refuse other options, write the NetCDF layout of the gdal driver (lat ascending, Band1
with a fill value), and append every call to the log named by GDALSIM_LOG.  GDALSIM_FAIL=name:n lets the n-th call of a
program fail the way the real one does: status 1 and no output.  rm removes files below GDALSIM_ROOT only.
"""
import json
import os
import socket
import sys
import threading

import numpy as np

NODATA = -32768.0


def load(path):
    if not os.path.isfile(path):
        return None
    with open(path, "rb") as f:
        head = f.read(4)
    if head[:3] == b"CDF":
        from scipy.io import netcdf_file

        with netcdf_file(path, "r", mmap=False) as d:
            z = d.variables["Band1"][:].astype(float)[::-1].copy()
            z[z == NODATA] = np.nan
            lat, lon = d.variables["lat"][:].astype(float)[::-1], d.variables["lon"][:].astype(float)
        dx = float(lon[1] - lon[0]) if len(lon) > 1 else 1.0
        dy = float(lat[0] - lat[1]) if len(lat) > 1 else 1.0
        return dict(z=z, ulx=float(lon[0]) - dx / 2, uly=float(lat[0]) + dy / 2, dx=dx, dy=dy)
    if head[:2] != b"PK":
        return None
    d = np.load(path)
    return {k: (d[k] if k == "z" else float(d[k])) for k in ("z", "ulx", "uly", "dx", "dy")}


def save_tif(path, d):
    with open(path, "wb") as f:
        np.savez(f, **d)


def save_nc(path, d):
    from scipy.io import netcdf_file

    z = np.where(np.isnan(d["z"]), NODATA, d["z"])[::-1]
    ny, nx = z.shape
    with netcdf_file(path, "w", version=2) as o:
        o.createDimension("lat", ny)
        o.createDimension("lon", nx)
        v = o.createVariable("lat", "d", ("lat",))
        v[:] = (d["uly"] - (np.arange(ny) + 0.5) * d["dy"])[::-1]
        v = o.createVariable("lon", "d", ("lon",))
        v[:] = d["ulx"] + (np.arange(nx) + 0.5) * d["dx"]
        c = o.createVariable("crs", "c", ())
        c.grid_mapping_name = "latitude_longitude"
        b = o.createVariable("Band1", "f", ("lat", "lon"))
        b._FillValue = np.float32(NODATA)
        b.grid_mapping = "crs"
        b[:] = z.astype("f4")


def save(path, d, fmt):
    if fmt and fmt.upper() == "NETCDF":
        save_nc(path, d)
    else:
        save_tif(path, d)
    return 0


def window(d, ulx, uly, lrx, lry):
    ny, nx = d["z"].shape
    c0, c1 = round((ulx - d["ulx"]) / d["dx"]), round((lrx - d["ulx"]) / d["dx"])
    r0, r1 = round((d["uly"] - uly) / d["dy"]), round((d["uly"] - lry) / d["dy"])
    if c1 <= c0 or r1 <= r0 or c0 >= nx or r0 >= ny or c1 <= 0 or r1 <= 0:
        return None
    z = np.full((r1 - r0, c1 - c0), np.nan)
    for r in range(max(r0, 0), min(r1, ny)):
        a, b = max(c0, 0), min(c1, nx)
        z[r - r0, a - c0:b - c0] = d["z"][r, a:b]
    return dict(z=z, ulx=d["ulx"] + c0 * d["dx"], uly=d["uly"] - r0 * d["dy"], dx=d["dx"], dy=d["dy"])


def average(d, rx, ry):
    fx, fy = round(rx / d["dx"]), round(ry / d["dy"])
    fx, fy = max(fx, 1), max(fy, 1)
    ny, nx = -(-d["z"].shape[0] // fy), -(-d["z"].shape[1] // fx)
    z = np.full((ny, nx), np.nan)
    for r in range(ny):
        for c in range(nx):
            b = d["z"][r * fy:(r + 1) * fy, c * fx:(c + 1) * fx]
            b = b[~np.isnan(b)]
            if b.size:
                z[r, c] = b.mean()
    return dict(z=z, ulx=d["ulx"], uly=d["uly"], dx=rx, dy=ry)


def nearest(d, rx, ry):
    ny, nx = round(d["z"].shape[0] * d["dy"] / ry), round(d["z"].shape[1] * d["dx"] / rx)
    r = np.minimum(((np.arange(ny) + 0.5) * ry / d["dy"]).astype(int), d["z"].shape[0] - 1)
    c = np.minimum(((np.arange(nx) + 0.5) * rx / d["dx"]).astype(int), d["z"].shape[1] - 1)
    return dict(z=d["z"][np.ix_(r, c)], ulx=d["ulx"], uly=d["uly"], dx=rx, dy=ry)


def inside(poly, x, y):
    hit = np.zeros(np.broadcast(x, y).shape, bool)
    n = len(poly)
    for i in range(n):
        (x1, y1), (x2, y2) = poly[i], poly[(i + 1) % n]
        if y1 == y2:
            continue
        hit ^= ((y1 > y) != (y2 > y)) & (x < (x2 - x1) * (y - y1) / (y2 - y1) + x1)
    return hit


def cut(d, shape):
    ny, nx = d["z"].shape
    x = d["ulx"] + (np.arange(nx) + 0.5) * d["dx"]
    y = d["uly"] - (np.arange(ny) + 0.5) * d["dy"]
    on = np.zeros((ny, nx), bool)
    for poly in shape:
        on |= inside(poly, x[None, :], y[:, None])
    return dict(d, z=np.where(on, d["z"], np.nan))


def gradient(d, scale, edges):
    """Horn's gradient (per unit of height over ground units); NaN where a neighbour is missing."""
    z = np.pad(d["z"], 1, mode="edge" if edges else "constant", **({} if edges else {"constant_values": np.nan}))
    a, b, c, e, f, g, h, i = z[:-2, :-2], z[:-2, 1:-1], z[:-2, 2:], z[1:-1, :-2], z[1:-1, 2:], z[2:, :-2], z[2:, 1:-1], z[2:, 2:]
    gx = ((c + 2 * f + i) - (a + 2 * e + g)) / (8 * d["dx"] * scale)
    gy = ((a + 2 * b + c) - (g + 2 * h + i)) / (8 * d["dy"] * scale)       # towards north
    return gx, gy


def slope(d, scale):
    gx, gy = gradient(d, scale, False)
    return dict(d, z=np.where(np.isnan(d["z"]), np.nan, np.degrees(np.arctan(np.hypot(gx, gy)))))


def aspect(d):
    """Direction the slope faces, clockwise from north."""
    gx, gy = gradient(d, 1.0, True)
    return np.degrees(np.arctan2(-gx, -gy)) % 360


def usage(msg):
    print(f"ERROR: {msg}", file=sys.stderr)
    return 1


def options(argv, arity):
    opts, rest, i = {}, [], 0
    while i < len(argv):
        a = argv[i]
        if a in arity:
            n = arity[a]
            vals = argv[i + 1:i + 1 + n]
            if len(vals) < n:
                return None, f"{a} needs {n} values"
            opts.setdefault(a, []).append(vals)
            i += 1 + n
        elif a.startswith("-") and not a[1:2].isdigit():
            return None, f"unknown option {a}"
        else:
            rest.append(a)
            i += 1
    return opts, rest


def translate(argv):
    opts, rest = options(argv, {"-projwin": 4, "-of": 1, "-q": 0, "-projwin_srs": 1})
    if opts is None or len(rest) != 2:
        return usage(rest)
    d = load(rest[0])
    if d is None:
        return usage(f"{rest[0]}: No such file or directory")
    if "-projwin" in opts:
        try:
            d = window(d, *[float(v) for v in opts["-projwin"][-1]])
        except ValueError:
            return usage("-projwin needs numbers")
        if d is None:
            return usage("computed window is not in the raster")
    return save(rest[1], d, opts.get("-of", [[None]])[-1][0])


def warp(argv):
    opts, rest = options(argv, {"-tr": 2, "-r": 1, "-of": 1, "-cutline": 1, "--config": 2, "-q": 0, "-overwrite": 0})
    if opts is None or len(rest) != 2:
        return usage(rest)
    d = load(rest[0])
    if d is None:
        return usage(f"{rest[0]}: No such file or directory")
    if "-tr" in opts:
        rx, ry = (float(v) for v in opts["-tr"][-1])
        d = (average if opts.get("-r", [["near"]])[-1][0] == "average" else nearest)(d, rx, ry)
    if "-cutline" in opts:
        try:
            with open(opts["-cutline"][-1][0]) as f:
                d = cut(d, json.load(f))
        except (OSError, ValueError):
            return usage("cannot open the cutline")
    return save(rest[1], d, opts.get("-of", [[None]])[-1][0])


def dem(argv):
    opts, rest = options(argv, {"-of": 1, "-s": 1, "-q": 0, "-compute_edges": 0})
    if opts is None or len(rest) != 3 or rest[0] not in ("slope", "aspect"):
        return usage(rest)
    d = load(rest[1])
    if d is None:
        return usage(f"{rest[1]}: No such file or directory")
    d = slope(d, float(opts.get("-s", [["1"]])[-1][0])) if rest[0] == "slope" else dict(d, z=aspect(d))
    return save(rest[2], d, opts.get("-of", [[None]])[-1][0])


def remove(argv):
    rc, root = 0, os.path.realpath(os.environ["GDALSIM_ROOT"]) + os.sep
    for p in argv:
        if p.startswith("-"):
            continue
        full = os.path.realpath(p)
        if not full.startswith(root) or not os.path.isfile(full):
            print(f"rm: cannot remove '{p}'", file=sys.stderr)
            rc = 1
        else:
            os.remove(full)
    return rc


def main(name, argv, cwd, env):
    if cwd != os.getcwd():
        return usage("called from another directory")
    log = env["GDALSIM_LOG"]
    n = 1
    if os.path.exists(log):
        with open(log) as f:
            n += sum(json.loads(line)[0] == name for line in f)
    with open(log, "a") as f:
        f.write(json.dumps([name, argv]) + "\n")
    if env.get("GDALSIM_FAIL") == f"{name}:{n}":
        return usage("injected failure")
    return {"gdal_translate": translate, "gdalwarp": warp, "gdaldem": dem, "rm": remove}[name](argv)


CLIENT = """import json, os, socket, sys
s = socket.socket(socket.AF_UNIX)
s.connect(sys.argv[1])
s.sendall(json.dumps([os.getcwd(), dict((k, v) for k, v in os.environ.items() if k.startswith("GDALSIM_")), sys.argv[2:]]).encode() + b"\\n")
rc = s.makefile().readline()
sys.exit(int(rc))
"""


def serve(root):
    """Small programs in root/bin that pass their arguments to this process, which does the work (a start of numpy per call is slow)."""
    b = root / "bin"
    b.mkdir()
    (b / "client.py").write_text(CLIENT)
    for n in ("gdal_translate", "gdalwarp", "gdaldem", "rm"):
        (b / n).write_text(f'#!/bin/sh\nexec {sys.executable} -I -S -B {b}/client.py {root}/sock {n} "$@"\n')
        (b / n).chmod(0o755)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(f"{root}/sock")
    srv.listen(8)

    def loop():
        while True:
            c, _ = srv.accept()
            try:
                cwd, env, argv = json.loads(c.makefile().readline())
                rc = main(argv[0], argv[1:], cwd, env)
            except Exception as e:  # noqa: BLE001
                print(f"gdalsim: {type(e).__name__}: {e}", file=sys.__stderr__)
                rc = 1
            c.sendall(f"{rc}\n".encode())
            c.close()

    threading.Thread(target=loop, daemon=True).start()
    os.environ["PATH"] = f"{b}:{os.environ['PATH']}"
    os.environ["GDALSIM_ROOT"] = str(root)
    os.environ["GDALSIM_LOG"] = str(root / "calls.log")
