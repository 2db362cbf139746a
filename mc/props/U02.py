"""Every shipped data set loads, with the values of its file."""
import contextlib
import csv
import io
import json
import os

import numpy as np

import pycircstat2
from mc.engine import Space
from pycircstat2 import load_data
from pycircstat2 import utils as U

ROOT = os.path.join(os.path.dirname(os.path.abspath(pycircstat2.__file__)), "data")


class Data(Space):
    name = "datasets"
    bounds = "every csv below pycircstat2/data, loaded by name and source, with and without printing its metadata, twice, and again after the caller has edited the frame; unknown sources and names"

    def roots(self, tier):
        for src in sorted(os.listdir(ROOT)):
            if os.path.isdir(os.path.join(ROOT, src)):
                for fn in sorted(os.listdir(os.path.join(ROOT, src))):
                    if fn.endswith(".csv"):
                        yield (src, fn[:-4])
        yield ("nowhere", "B1")
        yield ("fisher", "nothing")

    def check(self, s):
        src, name = s
        f = []
        if src == "nowhere":
            try:
                load_data(name, source=src)
                return None, ["unknown source accepted"]
            except ValueError:
                return "ValueError", []
        if name == "nothing":
            try:
                load_data(name, source=src)
                return None, ["unknown data set accepted"]
            except OSError:
                return "missing", []
        rows = list(csv.reader(open(os.path.join(ROOT, src, name + ".csv"), encoding="utf-8")))
        head, body = rows[0], [r for r in rows[1:] if r]
        with contextlib.redirect_stdout(io.StringIO()) as out:
            df = load_data(name, source=src)
        if out.getvalue():
            f.append("loading prints without being asked")
        with contextlib.redirect_stdout(io.StringIO()) as out:
            df2 = load_data(name, source=src, print_meta=True)
        meta = json.load(open(os.path.join(ROOT, src, name + ".csv-metadata.json"), encoding="utf-8"))
        try:
            if json.loads(out.getvalue()) != meta:
                f.append("printed metadata differs from the file")
        except ValueError:
            f.append("printed metadata is not JSON")
        if not df.equals(df2):
            f.append("second load differs")
        if src == "fisher" and not load_data(name).equals(df):
            f.append("default source is not fisher")
        if list(df.columns) != head[1:]:
            f.append(f"columns {list(df.columns)} expected {head[1:]}")
        if len(df) != len(body):
            f.append(f"{len(df)} rows expected {len(body)}")
        else:
            for j, c in enumerate(head[1:]):
                col = df[c].tolist()
                for i, r in enumerate(body):
                    v = r[j + 1]
                    g = col[i]
                    try:
                        ok = (v == "" and g != g) or float(v) == float(g)
                    except (TypeError, ValueError):
                        ok = str(g) == v or (v in ("", "NA", "nan") and g != g)
                    if not ok:
                        f.append(f"row {i} column {c}: {g!r} expected {v!r}")
                        break
        kept = df.copy(deep=True)
        # the caller edits the frame it was given: values in place, a new column, rows dropped
        for c in df.columns:
            df[c] = "edited"
        df["extra"] = 0
        df.drop(df.index, inplace=True)
        if df2.shape != kept.shape or not df2.equals(kept):
            f.append("changing a loaded frame changes one loaded earlier")
        if not load_data(name, source=src).equals(kept):
            f.append("changing a loaded frame changes later loads")
        return (src, name, len(df)), f[:5]


def spaces(tier):
    return [Data()]
