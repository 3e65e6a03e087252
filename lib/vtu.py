"""Offline checker of the .vtu/.pvtu files written by AMGe::output against the
ground truth which the workload recorded (one .truth file per rank)."""
import base64
import glob
import os
import re
import struct
import xml.etree.ElementTree as ET
import zlib

TYPES = {"Float32": ("f", 4), "Float64": ("d", 8), "Int32": ("i", 4),
         "UInt32": ("I", 4), "UInt8": ("B", 1), "Int64": ("q", 8)}


def _array(el):
    code, width = TYPES[el.get("type")]
    text = (el.text or "").strip()
    if el.get("format") == "ascii":
        conv = float if code in "fd" else int
        return [conv(x) for x in text.split()]
    # base64(header) followed by base64(blocks); UInt32 header
    head = base64.b64decode(text[:24])
    nblocks, _, _ = struct.unpack("<III", head[:12])
    hlen = 4 * (3 + nblocks)
    b64len = -(-hlen // 3) * 4
    head = base64.b64decode(text[:b64len])
    sizes = struct.unpack(f"<{nblocks}I", head[12:12 + 4 * nblocks])
    data = base64.b64decode(text[b64len:])
    out, p = b"", 0
    for s in sizes:
        out += zlib.decompress(data[p:p + s])
        p += s
    return list(struct.unpack(f"<{len(out) // width}{code}", out))


def read_vtu(path):
    root = ET.parse(path).getroot()
    piece = root.find(".//Piece")
    pts = _array(piece.find("Points/DataArray"))
    cells = {d.get("Name"): _array(d) for d in piece.findall("Cells/DataArray")}
    data = {d.get("Name"): _array(d)
            for d in piece.findall("PointData/DataArray")}
    return pts, cells, data


def check_stream(st):
    """Hook run by check.py after the workload of `st` ended."""
    ended = {(e["case"], e["rank"]) for e in st.events if e["ev"] == "end"}
    n_files = n_cells = 0

    def viol(case, rank, key, msg):
        st.viols.append({
            "ev": "viol", "case": case, "rank": rank, "key": key, "label": "",
            "msg": msg, "nprocs": st.nprocs, "variant": st.variant,
            "seed": st.seed, "threads": st.threads, "workload": st.workload,
            "exe": os.path.basename(st.exe)})

    for truth in sorted(glob.glob(os.path.join(st.dir, "agg_*_*.truth"))):
        m = re.match(r"agg_(\d+)_(\d+)\.truth", os.path.basename(truth))
        case, rank = int(m.group(1)), int(m.group(2))
        if (case, rank) not in ended:
            continue
        lines = open(truth).read().split("\n")
        dim, size, _ = (int(x) for x in lines[0].split())
        want = []
        for ln in lines[1:]:
            if ln:
                x = [float(v) for v in ln.split()]
                want.append((tuple(x[:dim]), int(x[dim])))
        base = truth[:-len(".truth")]
        vtu = base + ".vtu"
        if not os.path.exists(vtu):
            viol(case, rank, "vtu-missing", f"{vtu} was not written")
            continue
        try:
            if not want and ET.parse(vtu).getroot().find(
                    ".//Points/DataArray") is None:
                continue  # a processor without cells: an empty file
            pts, cells, data = read_vtu(vtu)
        except Exception as e:  # an unreadable file
            viol(case, rank, "vtu-unreadable", f"{vtu}: {e!r}")
            continue
        n_files += 1
        if "agglomerates" not in data or "subdomain" not in data:
            viol(case, rank, "vtu-fields",
                 f"fields {sorted(data)} instead of agglomerates, subdomain")
            continue
        off, conn = cells["offsets"], cells["connectivity"]
        got, first = [], 0
        for o in off:
            ids = conn[first:o]
            first = o
            centre = tuple(sum(pts[3 * i + d] for i in ids) / len(ids)
                           for d in range(dim))
            aggs = {data["agglomerates"][i] for i in ids}
            subs = {data["subdomain"][i] for i in ids}
            got.append((centre, aggs, subs))
        n_cells += len(got)
        if len(got) != len(want):
            viol(case, rank, "vtu-cells",
                 f"{len(got)} cells in the file, {len(want)} owned cells")
            continue
        # both list the cells in mesh order, but do not rely on it
        grid = {}
        for c, a in want:
            grid.setdefault(tuple(round(x * 64) for x in c), []).append((c, a))
        for c, aggs, subs in got:
            k = tuple(round(x * 64) for x in c)
            best, bd = None, 1e300
            stack = [()]
            for d in range(dim):
                stack = [s + (k[d] + e,) for s in stack for e in (-1, 0, 1)]
            for kk in stack:
                for cc, a in grid.get(kk, ()):
                    dd = sum((x - y) ** 2 for x, y in zip(c, cc))
                    if dd < bd:
                        best, bd = a, dd
            if best is None or bd > 1e-8:
                viol(case, rank, "vtu-geometry",
                     f"no owned cell at {c} (distance {bd ** .5:.3g})")
                break
            if aggs != {float(best)}:
                viol(case, rank, "vtu-agglomerate",
                     f"cell at {c}: agglomerate {sorted(aggs)} instead of "
                     f"{best}")
                break
            if subs != {float(rank)}:
                viol(case, rank, "vtu-subdomain",
                     f"cell at {c}: subdomain {sorted(subs)} instead of {rank}")
                break
        if rank == 0:
            pv = base[:-1] + ".pvtu"
            if not os.path.exists(pv):
                viol(case, 0, "pvtu-missing", f"{pv} was not written")
                continue
            try:
                root = ET.parse(pv).getroot()
            except Exception as e:
                viol(case, 0, "pvtu-unreadable", f"{pv}: {e!r}")
                continue
            src = [os.path.basename(p.get("Source", ""))
                   for p in root.iter("Piece")]
            exp = [os.path.basename(base[:-1]) + f"{r}.vtu"
                   for r in range(size)]
            if sorted(src) != sorted(exp):
                viol(case, 0, "pvtu-pieces",
                     f"pieces {src} instead of {exp}")
            arrays = {a.get("Name") for a in root.iter("PDataArray")}
            if not {"agglomerates", "subdomain"} <= arrays:
                viol(case, 0, "pvtu-fields", f"arrays {sorted(map(str, arrays))}")
    st.events.append({"ev": "end", "case": -1, "rank": 1, "label": "",
                      "skip": "", "states": [],
                      "obs": {"vtu_files_read": n_files,
                              "vtu_cells_compared": n_cells,
                              "checks": n_files + n_cells}})
