"""Which harness instances decide which property."""
from sxlib import Inst

COMMON_ASSUMPTIONS = [
    "clang 18 -O0 IR (sroa, early-cse) of the sources stands for the code gcc compiles; sample paths are replayed against the gcc build",
    "little-endian x86-64 layout, IEEE-754 binary64",
    "malloc succeeds up to 16 MB unless an allocation failure is injected; realloc always moves",
    "C library string functions are the models in rt/sx_libc.c; text of error messages is not compared",
]
CHECKS = {}
GEOMS = {1: "point", 2: "linestring", 3: "polygon", 4: "multipoint", 5: "multilinestring", 6: "multipolygon", 7: "collection"}
DIMS = {1: "xy", 2: "xyz", 3: "xym", 4: "xyzm"}


def check(pid, instances, **kw):
    names = [i.name for i in instances]
    assert len(set(names)) == len(names), (pid, [n for n in names if names.count(n) > 1])
    CHECKS[pid] = dict(instances=instances, **kw)


# ---------------------------------------------------------------- WKB reading
WKB = "wkb_read.c"
HDR = {  # the header bytes, little-endian then big-endian
    "coll": "1,7,0,0,0,", "mpoly": "1,6,0,0,0,", "mline": "1,5,0,0,0,", "mpoint": "1,4,0,0,0,", "poly": "1,3,0,0,0,",
    "bepoly": "0,0,0,0,3,", "ewkb": "1,2,0,0,224,", "zmpoint": "0,0,0,11,185,", "becoll": "0,0,0,0,7,"}


def wkb(mode, thorough):
    acc = ["accepted", "rejected"]
    out = [Inst("any%02d" % n, WKB, {"MODE": mode, "N": n}, ["rejected"] + (["accepted"] if n >= 9 else []), time=300,
                thorough=n not in (0, 1, 5, 9, 14, 18), bound="every byte string of %d bytes" % n) for n in list(range(0, 20)) + [22]]
    out += [Inst("any25", WKB, {"MODE": mode, "N": 25}, acc, time=1500, thorough=True, jobs=8, bound="every byte string of 25 bytes")]
    rest = {"coll": (17, 23), "mpoly": (17, 22), "mline": (17, 27), "mpoint": (17, 26), "poly": (28, 60), "bepoly": (28, 60), "ewkb": (44, 84),
            "zmpoint": (32, 40), "becoll": (17, 23)}
    for k, ns in rest.items():
        for n in ns:
            out.append(Inst("after_%s_%d" % (k, n), WKB, {"MODE": mode, "N": n, "PRE": HDR[k]}, ["accepted"], time=150 if n == ns[0] else 1500,
                            thorough=n != ns[0], jobs=1 if n == ns[0] else 8, bound="header %s then every %d bytes" % (k, n)))
    out += [Inst("one_point", WKB, {"MODE": mode, "N": 21, "PRE": "1,4,0,0,0,1,0,0,0,"}, acc, time=150, bound="multipoint of one, then every 21 bytes"),
            Inst("one_polygon", WKB, {"MODE": mode, "N": 26, "PRE": "1,6,0,0,0,1,0,0,0,1,3,0,0,0,"}, acc, time=150, bound="multipolygon of one polygon, then every 26 bytes")]
    for n in (253, 254, 255, 256, 100000 if mode == 0 else 700):
        out.append(Inst("nested_%d" % n, WKB, {"MODE": mode, "N": 9, "NEST": n, "EV_MAX": 1600}, ["rejected"] + (["accepted"] if n < 255 else []), time=150, thorough=n not in (254, 256, 100000, 700),
                        bound="%d nested collections, then every 9 bytes" % n))
        out.append(Inst("nested_point_%d" % n, WKB, {"MODE": mode, "N": 7, "PRE": "1,", "POST": "0,0,0,0,0,0,240,63,0,0,0,0,0,", "NEST": n, "EV_MAX": 1600}, ["rejected"] + (["accepted"] if n < 255 else []), time=150,
                        thorough=n not in (255, 256), bound="%d nested collections, then a geometry with every 7 bytes" % n))
    out.append(Inst("coll_line_z", WKB, {"MODE": mode, "N": 29, "PRE": "1,7,0,0,0,1,0,0,0,0,128,0,0,2,"}, ["accepted", "rejected"], time=150,
                    bound="collection header, Z line header, then every 29 bytes"))
    if mode == 1:
        for nm, pre, n, nv, le in (("line", "1,2,0,0,0,193,0,0,0,", 193, 2, 1), ("line_be", "0,0,0,0,2,0,0,1,129,", 385, 2, 0), ("line_zm_be", "0,0,0,11,186,0,0,0,97,", 97, 4, 0),
                                   ("line_z", "1,234,3,0,0,129,0,0,0,", 129, 3, 1), ("ring_be", "0,0,0,7,211,0,0,0,1,0,0,0,200,", 200, 3, 0), ("mline_zm", "1,5,0,0,192,1,0,0,0,1,2,0,0,192,64,1,0,0,", 320, 4, 1)):
            out.append(Inst("long_" + nm, WKB, {"MODE": 1, "LONG": n, "LNV": nv, "LE": le, "PRE": pre, "EV_MAX": 700}, acc, time=200,
                            bound="a sequence of %d coordinates, one of ten of them arbitrary, the last byte present or not" % n))
        pt, ln = "1,1,0,0,0,0,0,0,0,0,0,240,63,0,0,0,0,0,0,0,64", "0,0,0,0,2,0,0,0,1,63,240,0,0,0,0,0,0,64,0,0,0,0,0,0,0"
        for nm, pre, part in (("coll_points", "1,7,0,0,0,4,1,0,0,", pt), ("coll_lines_be", "0,0,0,0,7,0,0,1,4,", ln), ("mpoint", "0,0,0,0,4,0,0,1,4,", pt), ("mline", "1,5,0,0,0,4,1,0,0,", ln),
                              ("mpoly_empty", "1,6,0,0,0,4,1,0,0,", "1,3,0,0,0,0,0,0,0"), ("mpoly", "0,0,0,0,6,0,0,1,4,", "1,3,0,0,0,1,0,0,0,0,0,0,0")):
            out.append(Inst("many_" + nm, WKB, {"MODE": 1, "MANY": 260, "PRE": pre, "PART": part, "EV_MAX": 1600}, acc, time=200, bound="260 parts, one byte of the header and an ordinate of one of six of them arbitrary, the last byte present or not"))
    if thorough:
        out.append(Inst("coll_of_two", WKB, {"MODE": mode, "N": 42, "PRE": "1,7,0,0,0,2,0,0,0,"}, acc, time=1500, thorough=True, jobs=8,
                        bound="collection of two, then every 42 bytes"))
    return out


check("P01", wkb(0, True) + [
    Inst("two_inputs_%d_%d" % (a, b), WKB, {"MODE": 2, "N": a, "N2": b}, [], time=300, thorough=a + b > 18,
         bound="every %d-byte input then every %d-byte input on one reader" % (a, b))
    for a, b in ((9, 9), (9, 5), (5, 14), (10, 9), (14, 14))] + [
    Inst("two_inputs_poly", WKB, {"MODE": 2, "N": 12, "N2": 9, "PRE": "1,3,0,0,0,"}, [], time=300, bound="polygon header and 12 bytes, then every 9-byte input")],
    assumptions=["inputs longer than the stated sizes are outside the bound"])
check("P02", wkb(1, True), assumptions=["coordinate counts beyond the bytes present are covered, longer complete geometries are not"])

# ---------------------------------------------------------------- WKB writing
W = "wkb_write.c"
p03 = []
for t in range(1, 7):
    for d in DIMS:
        big = t == 6
        p03.append(Inst("%s_%s" % (GEOMS[t], DIMS[d]), W, {"TYPE": t, "DIM": d}, ["null", "coords", "allvalid"], time=200,
                        thorough=big and d in (2, 3), bound="one feature, <=2 coordinates per sequence, <=2 parts"))
p03 += [Inst("collection_%s" % DIMS[d], W, {"TYPE": 7, "DIM": d, "MAXC": 1, "MAXP": 1, "DEPTH": 3}, ["null", "coords"], time=200,
             bound="nested collections to depth 4, one part each") for d in DIMS]
p03 += [Inst("collection_wide", W, {"TYPE": 7, "DIM": 1, "MAXC": 1, "MAXP": 2, "DEPTH": 0}, ["null", "coords"], time=300,
             bound="collections of <=2 geometries with <=2 parts"),
        Inst("collection_deeper", W, {"TYPE": 7, "DIM": 1, "MAXC": 1, "MAXP": 2, "DEPTH": 1}, ["null", "coords"], time=1500, thorough=True, jobs=8,
             bound="collections of <=2 geometries nested twice")]
for t, nf, mc, mp in ((1, 9, 1, 1), (2, 4, 1, 1), (3, 3, 1, 1), (4, 3, 1, 1), (0, 2, 1, 1)):
    if nf == 9:
        continue
    p03.append(Inst("features_%d_%d" % (t, nf), W, {"TYPE": t, "NF": nf, "MAXC": mc, "MAXP": mp, "DIM": 3}, ["null", "coords"], time=200,
                    bound="%d features" % nf))
p03 += [Inst("points_10", W, {"TYPE": 1, "NF": 10, "MAXC": 1, "DIM": 2, "LAYOUT": 0}, ["null", "coords"], time=300, bound="10 features, validity past one byte"),
        Inst("batches", W, {"TYPE": 2, "NF": 2, "MAXC": 1, "BATCHES": 2, "DIM": 1}, ["null", "coords"], time=100, bound="2 batches of 2 features"),
        Inst("batches3", W, {"TYPE": 1, "NF": 2, "MAXC": 1, "BATCHES": 3, "DIM": 4}, ["null", "coords"], time=200, bound="3 batches of 2 points")]
p03 += [Inst("value_%s_%d" % (GEOMS[t], d), W, {"TYPE": t, "DIM": d, "MODE": 1, "MAXP": 1 if t > 5 else 2, "MAXC": 1 if t == 7 else 2, "DEPTH": 2}, ["null", "coords"], time=200,
             bound="one geometry value") for t, d in ((1, 2), (2, 4), (3, 1), (4, 3), (5, 2), (6, 4), (7, 1), (7, 3))]
p03 += [Inst("value_features", W, {"TYPE": 0, "DIM": 1, "MODE": 1, "MAXP": 1, "MAXC": 1, "NF": 2}, ["null", "coords"], time=200, bound="2 geometry values"),
        Inst("value_batches", W, {"TYPE": 2, "DIM": 2, "MODE": 1, "MAXC": 1, "NF": 2, "BATCHES": 2}, ["null", "coords"], time=200, bound="2 batches of 2 geometry values")]
p03 += [Inst("collection_mixed", W, {"TYPE": 7, "DIM": d, "MAXC": 1, "MAXP": 2, "DEPTH": 0, "MIXDIM": 2, "LAYOUT": 0, "NOSPLIT": 1}, ["null", "coords"], time=200,
             bound="collections whose members have dimensions of their own") for d in (2,)]
def longs(src, gts, n=300, extra=None, many=260, time=300, covers=("coords",)):
    """Long sequences and many parts: counts past one byte, buffers grown several times."""
    out = []
    for t, d in gts:
        c = {"TYPE": t, "DIM": d, "EV_MAX": 2400, "MAXC": 1, "MAXP": 1}
        c.update(extra or {})
        if t in (2, 3, 5, 6):
            out.append(Inst("long_%s" % GEOMS[t], src, dict(c, GEN_LONG=n), list(covers), time=time, bound="one sequence of %d coordinates" % n))
        if t > 2:
            out.append(Inst("many_%s" % GEOMS[t], src, dict(c, GEN_LONGP=many), list(covers), time=time, bound="%d parts" % many))
    return out
p03 += longs(W, ((2, 4), (3, 1), (4, 2), (5, 1), (6, 3), (7, 1)))
check("P03", p03, assumptions=["a point without coordinates is represented by NaN ordinates, WKB having no other form"])

# ---------------------------------------------------------------- geometry values
B = "geom_build.c"
p11 = [Inst("%s_%s" % (GEOMS[t], DIMS[d]), B, {"TYPE": t, "DIM": d}, ["coords", "empty"], time=200, thorough=t == 6 and d > 1,
            bound="<=2 coordinates per sequence, <=2 parts") for t in range(1, 7) for d in DIMS if t < 4 or d in (1, 4)]
p11 += [Inst("collection_nested", B, {"TYPE": 7, "DIM": 1, "MAXC": 1, "MAXP": 1, "DEPTH": 3}, ["coords", "empty"], time=200, bound="nested to depth 4"),
        Inst("collection_wide", B, {"TYPE": 7, "DIM": 2, "MAXC": 1, "MAXP": 2, "DEPTH": 0}, ["coords", "empty"], time=1500, thorough=True, bound="<=2 geometries, <=2 parts"),
        Inst("line_5", B, {"TYPE": 2, "DIM": 4, "MAXC": 5}, ["coords", "empty"], time=200, bound="<=5 coordinates"),
        Inst("polygon_3", B, {"TYPE": 3, "DIM": 1, "MAXC": 2, "MAXP": 3}, ["coords", "empty"], time=300, bound="<=3 rings"),
        Inst("mpoint_5", B, {"TYPE": 4, "DIM": 1, "MAXC": 1, "MAXP": 5}, ["coords", "empty"], time=200, bound="<=5 points")]
p11 += [Inst("reuse_%s_%s" % (GEOMS[a], GEOMS[b]), B, {"MODE": 1, "TYPE1": a, "DIM1": 4, "TYPE": b, "DIM": 1, "MAXC": 1, "MAXP": 1, "DEPTH": 1}, ["coords", "empty"], time=200,
             bound="a %s after a %s" % (GEOMS[b], GEOMS[a])) for a, b in ((3, 2), (7, 4), (6, 7), (1, 3))]
p11 += [Inst("long_%d_%d" % (n, d), B, {"MODE": 2, "LONG": n, "DIM": d, "EV_MAX": 6200 if n > 3000 else n + 10}, ["coords"], time=300, thorough=n > 400,
             bound="one sequence of %d coordinates" % n) for n, d in ((63, 1), (64, 2), (65, 1), (130, 4), (200, 3), (700, 1))]
p11 += [Inst("collection_mixed", B, {"TYPE": 7, "DIM": 1, "MAXC": 1, "MAXP": 2, "DEPTH": 0, "MIXDIM": 2, "LAYOUT": 0, "NOSPLIT": 1}, ["coords", "empty"], time=200,
             bound="collections whose members have dimensions of their own")]
p11 += longs(B, ((3, 2), (4, 3), (5, 4), (6, 1), (7, 2)))
check("P11", p11)

C = "geom_copy.c"
p10 = []
for m, mn in ((0, "deep"), (1, "shallow")):
    p10 += [Inst("%s_%s_%s" % (mn, GEOMS[t], DIMS[d]), C, {"MODE": m, "TYPE": t, "DIM": d, "MAXP": 1 if t == 6 else 2}, ["coords", "empty"], time=200,
                 bound="<=2 coordinates, <=2 parts, any layout, stride and byte order") for t in range(1, 7) for d in ((1, 4) if t > 2 else (1, 2, 3, 4))]
    p10 += [Inst("%s_collection" % mn, C, {"MODE": m, "TYPE": 7, "DIM": 2, "MAXC": 1, "MAXP": 1, "DEPTH": 2}, ["coords", "empty"], time=200, bound="nested collections"),
            Inst("%s_over_old" % mn, C, {"MODE": m, "TYPE": 0, "DIM": 1, "MAXC": 1, "MAXP": 1, "OLD": 3}, ["coords", "empty"], time=200, bound="over an existing polygon")]
p10 += [Inst("copy_of_copy", C, {"MODE": 0, "TYPE": 0, "DIM": 3, "MAXC": 1, "MAXP": 1, "AGAIN": 1}, ["coords", "empty"], time=200, bound="a copy of a copy")]
p10 += [Inst("%s_collection_mixed" % mn, C, {"MODE": m, "TYPE": 7, "DIM": 1, "MAXC": 1, "MAXP": 1, "DEPTH": 1, "MIXDIM": 4}, ["coords", "empty"], time=200,
             bound="collections whose members have dimensions of their own") for m, mn in ((0, "deep"), (1, "shallow"))]
p10 += [Inst("%s_%s" % (mn, i.name), C, dict(i.defs, MODE=m, NODES_MAX=700), ["coords"], time=300, bound=i.bound + ", any layout, stride and byte order")
        for m, mn in ((0, "deep"), (1, "shallow")) for i in longs(C, ((2, 4), (3, 2), (4, 3), (5, 1), (6, 2), (7, 1)))]
check("P10", p10)

check("P12", [Inst("nodes_%d" % n, "geom_nodes.c", {"NN": n}, ["typed", "accepted", "refused"], time=300, bound="every list of %d nodes, counts and types unrestricted" % n) for n in (1, 2, 3)] +
      [Inst("owned_%d" % n, "geom_nodes.c", {"NN": n, "OWNED": 1}, ["typed", "accepted", "refused"], time=300, bound="every list of %d nodes in an owning geometry" % n) for n in (2, 3)] +
      [Inst("nodes_4_xyz", "geom_nodes.c", {"NN": 4, "DIMS": 2}, ["typed", "accepted", "refused"], time=1500, thorough=True, jobs=8, bound="every list of 4 XYZ nodes")],
      assumptions=["nodes that can be read as a sequence have memory for their coordinates"])

A = "any_order.c"
p13 = []
for w, wn, k, dk in ((0, "wkb", 4, 3), (1, "wkt", 4, 3), (3, "geometry", 4, 3)):
    p13.append(Inst("%s_%d" % (wn, k), A, {"W": w, "K": k}, ["refused", "accepted"], time=300, bound="every sequence of %d callbacks" % k))
    p13.append(Inst("%s_%d" % (wn, k + 1), A, {"W": w, "K": k + 1, "FS": 1}, ["refused", "accepted"], time=1500, thorough=True, jobs=8, bound="feat_start then every sequence of %d callbacks" % (k + 1)))
    p13.append(Inst("%s_dims" % wn, A, {"W": w, "K": 2 if w != 3 else 3, "DIMALL": 1, "FS": 1}, ["refused", "accepted"], time=300, bound="feat_start then callbacks with any type and dimensions"))
    p13.append(Inst("%s_nested" % wn, A, {"W": w, "K": 3, "NEST": 30, "FS": 1}, ["refused", "accepted"], time=300, bound="30 nested collections then every 3 callbacks"))
    if w < 3:
        p13.append(Inst("%s_batches" % wn, A, {"W": w, "K": 2, "BATCH2": 2}, ["refused", "accepted", "finished"], time=300, bound="2 callbacks, finish, 2 callbacks, finish"))
p13.append(Inst("wkt_limit", A, {"W": 1, "K": 3, "MAXEL": 6, "FS": 1}, ["refused", "accepted"], time=300, bound="feat_start then every 3 callbacks, size limit 6"))
for t in (1, 2, 3, 4, 5, 6, 1001, 2006, 3003, 3005):
    p13.append(Inst("native_%d" % t, A, {"W": 2, "T": t, "K": 3}, ["accepted"], time=300, bound="every sequence of 3 callbacks on native type %d" % t))
    p13.append(Inst("native_%d_more" % t, A, {"W": 2, "T": t, "K": 4}, ["accepted"], time=1000, thorough=True, jobs=8, bound="every sequence of 4 callbacks on native type %d" % t))
    if t < 7:
        p13.append(Inst("native_%d_batches" % t, A, {"W": 2, "T": t, "K": 1, "BATCH2": 2, "FS": 1}, ["accepted", "finished"], time=300, bound="feat_start, 1 callback, finish, 2 callbacks, finish"))
check("P13", p13, assumptions=["coords() calls carry at most 2 coordinates"])

# ---------------------------------------------------------------- numbers
N = "num_parse.c"
p24 = []
for lib in ("full", "std"):
    ac = ["accepted", "refused"]
    p24 += [Inst("parse_%d_%s" % (n, lib), N, {"N": n}, ac, time=300, lib=lib, thorough=n == 4 and lib == "std", bound="every token of %d characters" % n) for n in (1, 2, 3, 4)]
    p24 += [Inst("parse_%s_%s" % (nm, lib), N, {"N": n, "PRE": '"%s"' % pre, "POST": '"%s"' % post, **({"MAYREFUSE": 1} if lib == "std" and n + len(pre) + len(post) > 62 else {}), **x},
                 cov if lib == "full" or n + len(pre) + len(post) <= 62 else ["refused"], time=300, lib=lib, thorough=th,
                 bound="%s, then %s, then %s" % (pre or "nothing", "%d %s" % (n, "characters of 0-9.e-" if x else "characters"), post or "nothing"))
            for nm, n, pre, post, x, cov, th in (
                ("tail", 2, "12.5", "", {}, ac, False), ("exp", 3, "1", "", {}, ac, False), ("mid", 2, "-1", "5", {}, ac, False), ("frac", 3, "0.", "", {}, ac, False),
                ("exponent", 3, "25e", "", {}, ac, False), ("before_point", 2, "", ".25", {}, ac, False), ("long", 2, "1234567890123", "", {}, ac, False),
                ("digits5", 5, "", "", {"NUMERIC": 1}, ac, lib == "std"), ("digits6", 6, "", "", {"NUMERIC": 1}, ac, True), ("tail4", 4, "12.5", "", {}, ac, True),
                ("zeros_before", 2, "0" * 330, "", {}, ac, False), ("zeros_behind", 2, "0." + "0" * 20, "0" * 60, {}, ac, False), ("zeros_after", 2, "12.5" + "0" * 300, "", {}, ac, False), ("many_digits", 2, "3." + "14159265358979" * 9, "", {}, ["refused"], False), ("wide_63", 2, "0" * 56 + "12.25", "", {}, ["refused"], False), ("wide_64", 2, "0" * 57 + "12.25", "", {}, ["refused"], False),
                ("zero_exponent", 2, "7" + "e" + "0" * 70, "", {}, ac, False))]
PR = "num_print.c"
for lib in ("full", "std"):
    for nm, d, th in (("small", {"K": -4, "P": 16, "BACK": 1}, 0), ("hundredths", {"K": -4, "P": 2}, 0), ("integers", {"K": 0, "P": 0}, 0), ("integers_16", {"K": 0, "P": 16, "BACK": 1}, 0),
                      ("halves", {"K": -1, "P": 0}, 0), ("sixteenths", {"K": -4, "P": 0}, 0), ("quarters_1", {"K": -2, "P": 1, "BASE": 3999}, 0), ("carry", {"K": -10, "P": 1, "BASE": 102300}, 0),
                      ("p4", {"K": -12, "P": 4}, 0), ("tiny", {"K": -40, "P": 16}, 0), ("tinier", {"K": -60, "P": 16}, 0), ("long_fraction", {"K": -12, "P": 11, "BASE": "0x10000"}, 0),
                      ("big", {"K": 36, "P": 16, "BACK": 1, "BASE": "0x10000"}, lib == "full"), ("max_mantissa", {"K": -20, "P": 16, "BACK": 1, "BASE": "0x1fffffffffff00"}, lib == "full"),
                      ("mantissa_8", {"K": -45, "P": 16, "BASE": "0x1fffffffffff00"}, 0), ("mantissa_8_p5", {"K": -45, "P": 5, "BASE": "0x1fffffffffff00"}, 0),
                      ("near_1e17", {"K": 4, "P": 16, "BASE": 6249999999999937, "BITS": 6, "BACK": 1}, 0), ("pi_like", {"K": -51, "P": 15, "BASE": 7074237752028440}, 0),
                      ("wide", {"K": -12, "P": 4, "BITS": 11}, 1), ("wide_0", {"K": -6, "P": 0, "BITS": 11}, 1)):
        if nm == "near_1e17" and lib == "std":
            continue
        p24.append(Inst("print_%s_%s" % (nm, lib), PR, d, ["printed"], time=300, lib=lib, thorough=bool(th),
                        bound="(%s + every %d-bit s) * 2^%s at precision %s" % (d.get("BASE", 0), d.get("BITS", 8), d["K"], d["P"])))
p24 += [Inst("print_sci_%d" % k, PR, {"K": k, "BASE": b, "BITS": 5, "SCI": 1}, ["printed"], time=300, bound="(%s + every 5-bit s) * 2^%d, above 1e17" % (b, k)) for k, b in ((60, 1), (10, "0x1fffffffffffe0"), (55, 77777))]
check("P24", p24, assumptions=["without fast_float tokens of 63 characters and more may be refused", "printf's %f is the exact correctly rounded model in rt/sx_libc.c", "below magnitude 1, 17 significant digits cannot fit 16 decimals: reading back is checked from 1 up"])

# ---------------------------------------------------------------- WKT
T = "wkt_read.c"


def wkt(name, n, pre="", post="", chars=None, mode=1, cov=("accepted", "rejected"), th=False, jobs=1, time=300, **x):
    d = {"MODE": mode, "N": n, "PRE": '"%s"' % pre, "POST": '"%s"' % post, **x}
    if chars:
        d["CHARS"] = '"%s"' % chars
    return Inst(name, T, d, list(cov), time=1500 if th else time, thorough=th, jobs=8 if th else jobs,
                bound="'%s' then every %d %s, then '%s'" % (pre, n, "characters of '%s'" % chars if chars else "characters", post))


LISTS = "(), 1EMPTY"
REJ = ("rejected",)
check("P04", [wkt("any_%d" % n, n, mode=0, cov=REJ) for n in (0, 1, 3, 5, 7)] + [
    wkt("after_point_%d" % n, n, "POINT", mode=0, cov=("rejected",) + (("accepted",) if n > 5 else ()), th=n > 4) for n in (3, 4, 6)] + [
    wkt("coords", 4, "POINT (1 2", mode=0), wkt("coords_z", 4, "LINESTRING Z (1 2", mode=0, cov=REJ), wkt("open", 4, "POINT (", mode=0, cov=REJ),
    wkt("multipoint", 4, "MULTIPOINT (", mode=0), wkt("polygon", 4, "POLYGON ((1 2, 3 4", mode=0),
    wkt("collection", 4, "GEOMETRYCOLLECTION (", mode=0, cov=REJ), wkt("collection_lists", 8, "GEOMETRYCOLLECTION (POINT", mode=0, chars=LISTS + "Z"),
    wkt("long_token", 3, "POINT (1111111111111111111111111111111111111111111", mode=0, cov=REJ),
    wkt("long_word", 3, "LINESTRINGLINESTRINGLINESTRINGLINESTRINGLINESTRINGLINESTRING", mode=0, cov=REJ),
    wkt("nested_300", 1, mode=3, NEST=300, cov=REJ), wkt("nested_100000", 1, mode=3, NEST=100000, cov=REJ),
    wkt("two_inputs", 2, "POINT (1 ", "", mode=2, N2=2, PRE2='"POINT "', cov=()), wkt("two_inputs_open", 3, "POINT (", "", mode=2, N2=2, PRE2='"POINT (1 2"', cov=()),
    wkt("two_inputs_lists", 5, "MULTIPOINT ((", "", chars=LISTS, mode=2, N2=3, PRE2='"LINESTRING (1 2"', cov=()),
    wkt("two_inputs_collection", 5, "GEOMETRYCOLLECTION (POINT (", "", chars=LISTS, mode=2, N2=3, PRE2='"POINT M (1 2 "', cov=()),
    wkt("coords_6", 6, "LINESTRING (1 2", mode=0, th=True), wkt("open_6", 6, "POINT (", mode=0, th=True)])
p05 = [wkt("word_%d" % n, n, cov=REJ) for n in (4, 5)] + [
    wkt("type_tail", 3, "POINT", " EMPTY", cov=("accepted", "rejected")), wkt("type_head", 3, "", "INT EMPTY", cov=REJ), wkt("type_head2", 2, "", "POINT EMPTY"),
    wkt("multi_type", 3, "MULTI", "STRING EMPTY", cov=REJ), wkt("dims", 3, "POINT ", "(1 2 3)"), wkt("dims4", 4, "LINESTRING ", "(1 2 3 4)"),
    wkt("empty", 5, "POLYGON "), wkt("empty_tail", 3, "POINT EMPT"), wkt("tail", 3, "POINT (1 2)"), wkt("open", 4, "POINT ("), wkt("ordinate", 3, "POINT (", " 2)"),
    wkt("ordinates", 3, "POINT (1", "2)"), wkt("z", 4, "POINT Z (1 2", ")"), wkt("zm", 3, "POINT ZM (1 2 3", "4)"), wkt("m_close", 4, "LINESTRING M (1 2 3"),
    wkt("close", 4, "POINT (1 2"), wkt("line", 4, "LINESTRING (1 2", ")"), wkt("line2", 3, "LINESTRING (1 2,", "4)"), wkt("ring", 3, "POLYGON ((1 2", ")"),
    wkt("rings", 3, "POLYGON ((1 2)", "(3 4))"), wkt("mp_flat", 3, "MULTIPOINT (1 2", "3 4)"), wkt("mp_nested", 3, "MULTIPOINT ((1 2)", "(3 4))"), wkt("mp_mixed", 3, "MULTIPOINT (1 2", "(3 4))"),
    wkt("coll", 3, "GEOMETRYCOLLECTION (POINT (1 2)", "POINT (3 4))"), wkt("coll_open", 3, "GEOMETRYCOLLECTION", "POINT (3 4))"), wkt("coll_end", 3, "GEOMETRYCOLLECTION (POINT EMPTY")] + [
    wkt("lists_" + k, n, pre, chars=c) for k, n, pre, c in (
        ("line", 8, "LINESTRING (1 2", "(), 1E"), ("polygon", 8, "POLYGON ", "(), 1E"), ("mpoint", 8, "MULTIPOINT ", LISTS), ("mpoly", 8, "MULTIPOLYGON (", LISTS),
        ("mline", 8, "MULTILINESTRING (", LISTS), ("coll", 8, "GEOMETRYCOLLECTION (POINT", LISTS + "Z"), ("mp_empty", 8, "MULTIPOINT (EMPTY, EMPTY", LISTS),
        ("coll_z", 7, "GEOMETRYCOLLECTION Z (POINT Z ", LISTS), ("space", 7, "POINT Z", " \\t\\n(1)EMPTY"))] + [
    wkt("open_5", 5, "POINT (", th=True), wkt("line_5", 5, "LINESTRING (1 2", th=True), wkt("word_7", 7, th=True, cov=REJ), wkt("lists_mpoly_10", 10, "MULTIPOLYGON (", chars=LISTS, th=True),
    wkt("lists_coll_10", 10, "GEOMETRYCOLLECTION (POINT", chars=LISTS + "Z", th=True)]
for i, (n, t) in enumerate((
        (2, "POINT (1 2)"), (2, "LINESTRING Z (1 2 3, 4 5 6)"), (2, "POLYGON M ((1 2 3), EMPTY)"), (2, "MULTIPOINT (1 2, 3 4)"), (1, "MULTIPOINT ZM ((1 2 3 4), EMPTY)"),
        (1, "MULTILINESTRING ((1 2, 3 4), EMPTY)"), (1, "MULTIPOLYGON ZM (((1 2 3 4)), EMPTY)"), (1, "GEOMETRYCOLLECTION Z (POLYGON Z EMPTY)"), (1, "GEOMETRYCOLLECTION (POINT (1 2), GEOMETRYCOLLECTION (LINESTRING EMPTY))"),
        (2, "POLYGON EMPTY"), (2, "MULTILINESTRING EMPTY"), (2, "MULTIPOLYGON M EMPTY"), (2, "GEOMETRYCOLLECTION EMPTY"), (2, "MULTIPOINT ZM EMPTY"), (1, "  POINT\\t ZM\\n(1.5  -2e3 +.5 7. ) "))):
    p05.append(Inst("edit_%02d" % i, T, {"MODE": 1, "EDIT": 1, "N": n, "PRE": '"%s"' % t}, ["accepted", "rejected"], time=300,
                    bound="'%s' with a character at any place removed, replaced or preceded by <=%d arbitrary characters" % (t, n)))
for n, nv, pre, post in ((64, 2, "LINESTRING (", ")"), (65, 3, "LINESTRING M (", ")"), (63, 4, "POLYGON ZM ((", "))"), (129, 2, "MULTILINESTRING (EMPTY, (", "), (5 6))"), (193, 3, "LINESTRING Z (", ")")):
    p05.append(Inst("long_%d" % n, T, {"MODE": 1, "LONG": n, "LNV": nv, "N": 1, "EV_MAX": 700, "PRE": '"%s"' % pre, "POST": '"%s"' % post}, ["accepted", "rejected"], time=300,
                    bound="%s then %d coordinates of %d ordinates, every character, %s" % (pre, n, nv, post)))
check("P05", p05, assumptions=["ordinates that are not exact decimals are compared by P24, not here", "type and dimension words are upper case, as the reader requires"])
U = "wkt_write.c"
wcov = ["coords", "empty", "null"]
p06 = [Inst("%s_%s" % (GEOMS[t], DIMS[d]), U, {"TYPE": t, "DIM": d, "LAYOUT": 0 if t > 4 else 2}, wcov, time=200, bound="one feature, <=2 coordinates per sequence, <=2 parts")
       for t in range(1, 7) for d in DIMS]
p06 += [Inst("collection_%s" % DIMS[d], U, {"TYPE": 7, "DIM": d, "MAXP": 1, "MAXC": 1, "DEPTH": 2}, wcov, time=200, bound="nested collections") for d in DIMS]
p06 += [Inst("collection_wide", U, {"TYPE": 7, "DIM": 1, "MAXP": 2, "MAXC": 1, "DEPTH": 0, "LAYOUT": 0}, wcov, time=300, bound="collections of <=2 geometries with <=2 parts"),
        Inst("line_4", U, {"TYPE": 2, "DIM": 4, "MAXC": 4}, wcov, time=200, bound="<=4 coordinates"), Inst("polygon_3", U, {"TYPE": 3, "DIM": 1, "MAXC": 1, "MAXP": 3, "LAYOUT": 0}, wcov, time=200, bound="<=3 rings"),
        Inst("line_60", U, {"TYPE": 2, "DIM": 4, "MAXC": 60, "LAYOUT": 0, "NOSPLIT": 1}, wcov, time=200, bound="<=60 coordinates"),
        Inst("features", U, {"TYPE": 0, "DIM": 2, "NF": 2, "MAXC": 1, "MAXP": 1, "DEPTH": 0, "LAYOUT": 0}, wcov, time=300, bound="2 features of any type"),
        Inst("points_9", U, {"TYPE": 1, "DIM": 1, "NF": 9, "MAXC": 1, "LAYOUT": 0, "FLAT": 1, "FEW": 1}, wcov, time=300, bound="9 points, nulls anywhere"),
        Inst("batches", U, {"TYPE": 2, "NF": 2, "BATCHES": 2, "MAXC": 1}, wcov, time=300, bound="2 batches of 2 features"),
        Inst("batches_mp", U, {"TYPE": 4, "NF": 1, "BATCHES": 3, "MAXC": 1, "MAXP": 1, "LAYOUT": 0}, wcov, time=300, bound="3 batches of 1 multipoint"),
        Inst("symbolic_ordinate", U, {"TYPE": 4, "DIM": 1, "SYMBITS": 6}, wcov, time=300, bound="an ordinate q/8-2 for every 6-bit q"),
        Inst("symbolic_ordinate_8", U, {"TYPE": 2, "DIM": 2, "SYMBITS": 8, "MAXC": 2, "LAYOUT": 0}, wcov, time=300, bound="an ordinate q/8-2 for every 8-bit q")]
p06 += [Inst("precision_%s" % str(p).replace("-", "m"), U, {"TYPE": t, "DIM": 4, "PREC": p, "LAYOUT": 0}, wcov, time=200, bound="precision %d" % p) for p, t in ((1, 2), (7, 4), (-1, 2), (17, 2), (16, 1))]
p06 += [Inst("std_%s" % GEOMS[t], U, {"TYPE": t, "DIM": 4, "LAYOUT": 0}, wcov, time=200, lib="std", bound="built without ryu and fast_float") for t in (1, 2, 3, 4)]
p06 += [Inst("collection_mixed", U, {"TYPE": 7, "DIM": 3, "MAXP": 2, "MAXC": 1, "DEPTH": 0, "MIXDIM": 2, "LAYOUT": 0, "NOSPLIT": 1}, wcov, time=200,
             bound="collections whose members have dimensions of their own")]
p06 += longs(U, ((2, 4), (3, 1), (4, 2), (5, 1), (6, 3), (7, 1)), extra={"LAYOUT": 0})
p06 += [Inst("default_precision_%d" % t, U, {"TYPE": t, "DIM": d, "T16": 1, "LAYOUT": 0}, wcov, time=200, bound="ordinates of 16 decimals") for t, d in ((1, 2), (2, 4), (4, 1))]
check("P06", p06, assumptions=["ordinates are those of a table (and one symbolic one): the printing of numbers is P24"])
lcov = ["cut", "whole"]
check("P07", [Inst("line", U, {"TYPE": 2, "LIMIT": 30}, lcov, time=300, bound="every limit 0..30"), Inst("line_z", U, {"TYPE": 2, "DIM": 2, "LIMIT": 40, "LIMITLO": 10, "MAXC": 3, "LAYOUT": 0}, lcov, time=300, bound="every limit 10..40"),
              Inst("polygon", U, {"TYPE": 3, "LIMIT": 40, "LAYOUT": 0}, lcov, time=300, bound="every limit 0..40"),
              Inst("multipoints", U, {"TYPE": 4, "NF": 2, "LIMIT": 20, "MAXC": 1, "LAYOUT": 0}, lcov + ["null"], time=300, bound="2 features, every limit 0..20"),
              Inst("point", U, {"TYPE": 1, "DIM": 4, "LIMIT": 40}, lcov, time=300, bound="every limit 0..40"),
              Inst("mline", U, {"TYPE": 5, "LIMIT": 44, "LIMITLO": 14, "LAYOUT": 0}, lcov, time=300, bound="every limit 14..44"),
              Inst("collection", U, {"TYPE": 7, "LIMIT": 50, "LIMITLO": 5, "MAXP": 1, "MAXC": 1, "LAYOUT": 0}, lcov, time=300, bound="every limit 5..50"),
              Inst("batches", U, {"TYPE": 1, "NF": 2, "BATCHES": 2, "LIMIT": 12, "LIMITLO": 9}, lcov + ["null"], time=300, bound="2 batches of 2 features"),
              Inst("lines_3", U, {"TYPE": 2, "NF": 3, "LIMIT": 19, "LIMITLO": 16, "MAXC": 2, "LAYOUT": 0}, lcov + ["null"], time=300, bound="3 features"),
              Inst("mpoly", U, {"TYPE": 6, "LIMIT": 40, "LIMITLO": 15, "MAXC": 1, "LAYOUT": 0}, lcov, time=300, bound="every limit 15..40"),
              Inst("long", U, {"TYPE": 2, "LIMITLO": 509, "LIMIT": 515, "EV_MAX": 2400, "MAXC": 1, "MAXP": 1, "GEN_LONG": 300, "LAYOUT": 0}, lcov, time=300, bound="a sequence of 300 coordinates, every limit 509..515"),
              Inst("many", U, {"TYPE": 4, "LIMITLO": 254, "LIMIT": 258, "EV_MAX": 2400, "MAXC": 1, "MAXP": 1, "GEN_LONGP": 260, "LAYOUT": 0}, lcov, time=300, bound="260 points, every limit 254..258"),
              Inst("batches_more", U, {"TYPE": 1, "NF": 2, "BATCHES": 2, "LIMIT": 14}, lcov + ["null"], time=900, thorough=True, bound="2 batches of 2 features, every limit 0..14")])

# ---------------------------------------------------------------- types
Y = "types.c"
check("P08", [Inst("parts", Y, {"MODE": 0}, ["type", "none"], time=100, bound="every geometry type, dimension and layout"),
              Inst("identifiers", Y, {"MODE": 1}, [], time=200, bound="all 58 identifiers"),
              Inst("any_value", Y, {"MODE": 2}, [], time=200, bound="every 32-bit value used as an identifier"),
              Inst("names", Y, {"MODE": 3}, ["type", "none"], time=200, bound="every 32-bit value of the enumerations of geometry types, dimensions, layouts, edges and CRS types")])

# ---------------------------------------------------------------- coordinates
Q = "coords.c"
p09 = [Inst("copy_%d" % n, Q, {"MODE": 0, "NC": n}, ["copied"], time=200, thorough=n > 3, bound="<=%d coordinates, all dimension pairs and layouts" % n) for n in (1, 2, 3, 5)]
p09 += [Inst("copy_70", Q, {"MODE": 0, "NFIX": 70}, ["copied"], time=300, bound="70 coordinates, all dimension pairs and layouts")]
p09 += [Inst("geometry_%s" % GEOMS[t], Q, {"MODE": 1, "TYPE": t, "NC": 2 if t < 6 else 1}, [], time=200, bound="all coordinates of one geometry, all dimension pairs") for t in range(1, 7)]
p09 += [Inst("geometry_collection", Q, {"MODE": 1, "TYPE": 7, "NC": 1, "MAXP": 1}, [], time=300, bound="all coordinates of one collection of one geometry")]
p09 += [Inst("line_4", Q, {"MODE": 1, "TYPE": 2, "NC": 4}, [], time=300, bound="lines of <=4 coordinates"),
        Inst("any_size", Q, {"MODE": 2}, [], time=100, bound="every claimed sequence size, dimension and buffer size"),
        Inst("sequence", Q, {"MODE": 3}, [], time=200, bound="sequences of <=2 coordinates"), Inst("sequence_4", Q, {"MODE": 3, "NC": 4}, [], time=300, bound="sequences of <=4 coordinates"),
        Inst("setters", Q, {"MODE": 4}, [], time=200, bound="<=2 coordinates"), Inst("setters_4", Q, {"MODE": 4, "NC": 4}, [], time=200, bound="<=4 coordinates")]
check("P09", p09)

# ---------------------------------------------------------------- metadata
M = "metadata_parse.c"


def cstr(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def md(name, n, pre="", post="", cov=("refused", "accepted"), chars=None, th=False, time=300):
    d = {"N": n, "PRE": cstr(pre), "POST": cstr(post)}
    if chars:
        d["CHARS"] = cstr(chars)
    return Inst(name, M, d, list(cov), time=1500 if th else time, thorough=th, jobs=8 if th else 1,
                bound="%s, %d %s, then %s" % (pre or "nothing", n, "of %s" % chars if chars else "characters", post or "nothing"))


LONG = "".join("%03d-abc(%s)" % (i, "xyzw"[i % 4] * 2) for i in range(27))  # 297 characters
JS = '{}[]":, a\\'
check("P18", [md("any_%d" % n, n, cov=("refused",) if n == 1 else ("refused", "accepted") if n else ("accepted",)) for n in (0, 1, 2, 4)] + [
    md("any_5", 5), md("any_6", 6), md("any_7", 7, th=True), md("edges", 4, '{"edges":', "}"), md("edge_name", 3, '{"edges":"plan', "}"), md("crs", 4, '{"crs_type":"srid","crs":', "}"),
    md("crs_type_tail", 3, '{"crs_type":"srid', ',"crs":"x"}'), md("crs_type", 4, '{"crs":"x","crs_type":"', '"}'), md("key_tail", 3, '{"crs', '"a"}'),
    md("crs_object", 4, '{"crs":{', "}}", th=False), md("list", 4, '{"a":[', "]}"), md("crs_object_5", 5, '{"crs":{', "}}"), md("list_5", 5, '{"a":[', "]}"), md("crs_object_6", 6, '{"crs":{', "}}", th=True), md("list_6", 6, '{"a":[', "]}", th=True),
    md("structure_8", 8, chars=JS), md("members_7", 7, '{"crs":"a"', "}", chars=JS), md("structure_10", 10, chars=JS), md("structure_12", 12, chars=JS, th=True), md("open_5", 5, '{"crs":"', chars=JS, cov=("refused", "accepted")),
    md("spherical", 3, '{"edges":"s', 'al"}', cov=("refused",)), md("after_value", 4, '{"edges":"vincenty"', '"crs":null}'), md("edge_andoyer", 3, '{"edges":"ando', 'r"}', cov=("refused",)),
    md("crs_type_authority", 3, '{"crs_type":"authority_', 'e"}', cov=("refused",))] + [
    Inst("edit_%02d" % i, M, {"EDIT": 1, "N": n, "PRE": cstr(t)}, ["accepted", "refused"], time=300,
         bound="%s with a character at any place removed, replaced or preceded by <=%d arbitrary characters" % (t, n))
    for i, (n, t) in enumerate((
        (2, '{"edges":"spherical","crs":"a"}'), (2, '{"edges":"vincenty"}'), (2, '{"edges":"thomas"}'), (2, '{"edges":"andoyer"}'), (2, '{"edges":"karney"}'), (2, '{"edges":"planar"}'),
        (1, '{"crs_type":"authority_code","crs":"OGC:CRS84"}'), (1, '{"crs":{"a":[1,{"b":null}]},"crs_type":"projjson"}'), (1, '{"crs_type":"wkt2:2019","crs":"G[\\"W\\"]"}'), (1, '{"crs_type":"srid","crs":"4326","edges":null}'),
        (2, '{"crs":null}'), (1, ' { "other" : [ true , {} ] , "crs" : "x" } ')))] + [
    md("long_crs", 2, '{"crs_type":"srid","crs":"' + LONG, LONG[:50] + '","edges":"karney"}'), md("long_key", 2, '{"' + LONG, '":"' + LONG + '","crs":"x"}'),
    md("many_members", 3, "{" + ",".join('"k%d":%s' % (i, ("null", "[1,{}]", '"\\""', "{}")[i % 4]) for i in range(40)) + ',"edges":"thomas"', "}", chars=JS, cov=("accepted", "refused")),
    md("long_list", 3, '{"a":[' + ",".join("[%d]" % i for i in range(70)), '],"crs":{"b":[' + ",".join("{}" for i in range(60)) + "]}}", chars=JS),
    Inst("nested", M, {"NEST": 3000}, ["refused"], time=300, steps=30000000, bound="3000 opening brackets"),
    Inst("nested_more", M, {"NEST": 20000}, ["refused"], time=900, steps=300000000, thorough=True, bound="20000 opening brackets")],
    assumptions=["texts that are not valid JSON or repeat a key: only memory safety, termination and an error message are claimed"])
Z = "metadata_ser.c"


def ms(name, n, kind=0, pre="", post="", mode=0, one=None, th=False, cov=None):
    d = {"N": n, "KIND": kind, "MODE": mode, "PRE": cstr(pre), "POST": cstr(post)}
    if one is not None:
        d["ONE"] = one
    return Inst(name, Z, d, cov or (["unescaped"] if mode else ["complete"] if one is not None else ["complete", "short"]), time=1500 if th else 300, thorough=th, jobs=8 if th else 1,
                bound="crs %s, %d characters, %s, %s" % (pre, n, post, "one combination of enumerators" if one is not None else "every buffer size" if mode else "all enumerators and buffer sizes"))


check("P19", [ms("plain_0", 0), ms("plain_1", 1), ms("plain_2", 2), ms("plain_3", 3, one=5), ms("plain_4", 4, one=23), ms("plain_5", 5, one=4, th=True),
              ms("string_0", 0, 1, '"', '"'), ms("string_3", 3, 1, '"', '"'), ms("string_5", 5, 1, '"', '"', one=5), ms("object_2", 2, 2, "{", "}"), ms("object_3", 3, 2, '{"a":', "}"),
              ms("object_5", 5, 2, "{", "}", one=12), ms("object_4", 4, 2, '{"a":', "}", th=True), ms("wkt2", 2, 0, 'GEOGCRS["WGS 84",ID["EPSG",', "]]", one=3),
              ms("projjson", 2, 2, '{"type":"GeographicCRS","id":{"authority":"OGC","code":"CRS', '"}}', one=12),
              ms("after_backslash", 2, 0, "a\\"), ms("in_quotes", 2, 0, 'a"', '"')] +
      [ms("long_plain", 2, 0, LONG, LONG[:40], one=23), ms("long_string", 2, 1, '"' + LONG, '"', one=14), ms("long_object", 2, 2, '{"' + LONG + '":"', '"}', one=12), ms("long_unescape", 2, mode=1, pre='"' + LONG[:280] + "\\", post='"')] +
      [ms("unescape_%d" % n, n, mode=1) for n in (0, 1, 3, 6)] + [ms("unescape_string_%d" % n, n, mode=1, pre='"', post=p) for n, p in ((0, ""), (6, ""), (5, '"'), (8, '"'))],
      assumptions=["a crs that begins with { or \" is JSON text, as in the library", "enumerators outside their range are not claimed"])
S = "schema.c"
check("P20", [Inst("roundtrip_crs_%d" % n, S, {"MODE": 0, "N": n}, ["roundtrip"], time=300, bound="all types, crs of %d characters" % n) for n in (0, 1)] +
      [Inst("roundtrip_crs_%d_%d" % (2, k), S, {"MODE": 0, "N": 2, "KLO": k, "KHI": k}, ["roundtrip"], time=300, bound="one type, crs of 2 characters") for k in (7, 29, 50, 53)] +
      [Inst("roundtrip_long_%d" % k, S, {"MODE": 0, "N": 1, "PRE": cstr(LONG), "KLO": k, "KHI": k}, ["roundtrip"], time=300, bound="one type, crs of 298 characters") for k in (3, 52)] +
      [Inst("name_%d" % n, S, {"MODE": 1, "N": n}, ["refused"] + (["accepted"] if n in (12, 14, 16, 19, 21, 24) else []), time=300, bound="every extension name of %d characters, all storages" % n)
       for n in (0, 1, 8, 11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 24, 25, 30)] +
      [Inst("format_%d" % n, S, {"MODE": 2, "N": n}, ["refused", "accepted"], time=1500 if n == 7 else 400, thorough=n == 7, jobs=8 if n == 7 else 1, bound="every format of <=%d characters at any node" % n) for n in (4, 6, 7)] +
      [Inst("child_name_%d" % n, S, {"MODE": 3, "N": n}, ["refused", "accepted"], time=300, bound="every name of <=%d characters at any node" % n) for n in (4, 6)] +
      [Inst("children", S, {"MODE": 4}, ["refused", "accepted"], time=300, bound="a child dropped, repeated or swapped at any node"), Inst("any_type", S, {"MODE": 5}, ["refused", "created"], time=300, bound="every 32-bit type identifier")],
      assumptions=["schemas are well-formed trees in memory", "fixed-size-list widths in formats are decimal digits"])

# ---------------------------------------------------------------- arrays
AR = "array_read.c"


def ar(name, t, cov=("coords", "null"), th=False, bound="", **d):
    return Inst(name, AR, {"T": t, **d}, list(cov), time=1500 if th else 300, thorough=th, jobs=8 if th else 1, bound="type %d, %s" % (t, bound))


p14 = []
for d in range(4):
    for c in (0, 10000):
        b = d * 1000 + c
        k = "%s_%s_" % (DIMS[d + 1], "inter" if c else "sep")
        p14 += [ar(k + "point", b + 1, bound="<=2 features, offsets 0/1 everywhere", **({"UNI": 1} if not c and d == 3 else {})),
                ar(k + "line", b + 2, bound="<=2 features of <=2 coordinates", **({"UNI": 1} if d > 0 else {})),
                ar(k + "mpoint", b + 4, UNI=1, bound="<=2 features of <=2 points"),
                ar(k + "polygon", b + 3, UNI=1, LEAN=1, bound="<=2 features, <=2 rings, <=2 coordinates"),
                ar(k + "mline", b + 5, UNI=1, LEAN=1, bound="<=2 features, <=2 lines, <=2 coordinates"),
                ar(k + "mpoly", b + 6, UNI=1, NF=1, LEAN=1, bound="<=1 feature, <=2 parts per level"),
                ar(k + "mpoly_2", b + 6, UNI=1, MAXS=1, LEAN=1, bound="<=2 features, <=1 part per level")]
p14 += [ar("polygon_ranges", 3, UNI=1, MAXS=1, bound="every range, <=1 part per level"), ar("mline_ranges", 13005, UNI=1, MAXS=1, bound="every range, <=1 part per level"),
        ar("bitmap_7", 11002, UNI=1, OFF=7, bound="offset 7"), ar("bitmap_8", 2, UNI=1, NF=3, OFF=8, bound="offset 8, <=3 features"), ar("bitmap_13", 1003, UNI=1, OFF=13, LEAN=1, MAXS=1, bound="offset 13"),
        ar("points_9", 10001, UNI=1, NF=9, LEAN=1, bound="<=9 features"), ar("lines_5", 2002, UNI=1, NF=5, LEAN=1, MAXS=1, bound="<=5 features"),
        ar("polygons_3", 10003, UNI=1, LEAN=1, NF=3, MAXS=1, bound="<=3 features"), ar("mpolys_more", 6, UNI=1, LEAN=1, th=True, bound="<=2 features, <=2 parts per level"),
        ar("rings_3", 3, UNI=1, LEAN=1, NF=1, MAXS=3, bound="<=3 rings of <=3 coordinates"), ar("box", 990, bound="<=2 boxes")]
p14 += [ar("box_%s" % DIMS[d + 1], 990 + 1000 * d, cov=("refused",), bound="boxes that have no polygon", UNI=1) for d in (1, 2, 3)]
p14 += [ar("serialized_%d" % t, t, MODE=1, bound="<=2 elements of 4 lengths") for t in range(100001, 100007)]
p14 += [ar("serialized_offset_%d" % t, t, MODE=1, OFF=9, NF=2, bound="offset 9") for t in (100001, 100003, 100004)]
for t_, nf, lp, lq in ((1, 140, 1, 1), (12001, 70, 1, 1), (2, 70, 20, 1), (13002, 3, 300, 1), (10003, 70, 4, 5), (1003, 2, 3, 130), (4, 70, 5, 1), (3004, 2, 270, 1), (2005, 2, 4, 130), (11005, 2, 270, 2),
                      (6, 70, 2, 2), (13006, 2, 3, 130), (10006, 2, 270, 2)):
    p14.append(ar("long_%d_%d_%d" % (t_, nf, lp if lp > lq else lq), t_, UNI=1, LEAN=1, OFF=5, LONGA=nf, LONGP=lp, LONGQ=lq, EV_MAX=4000, bound="%d features, one part of %d coordinates or %d parts" % (nf, lp, lq)))
for t_ in (100001, 100002, 100003, 100004, 100005, 100006):
    p14.append(ar("serialized_long_%d" % t_, t_, MODE=1, LONGA=70, EV_MAX=4000, bound="70 elements"))
check("P14", p14, assumptions=["the requested range lies in the array, offsets are those of a valid array"])
AS = "array_set.c"
check("P15", [Inst("other_type", AS, {"MODE": 0}, ["accepted", "refused"], time=300, bound="the array of any type attached to a view of any type")] +
      [Inst("perturbed_%d" % i, AS, {"MODE": 1, "TLO": lo, "THI": hi}, ["accepted", "refused"], time=300, bound="types %d..%d of the list, one node with 0..5 buffers and 0..9 children" % (lo, hi))
       for i, (lo, hi) in enumerate(((0, 11), (12, 23), (24, 47), (48, 57)))],
      assumptions=["the array's own structures are as large as its counts say"])

NW = "native_write.c"
p16 = []


def nw(name, t, cov=("coords", "null"), th=False, bound="", **d):
    for m in (0, 1):
        p16.append(Inst(name + ("_visitor", "_value")[m], NW, {"T": t, "MODE": m, **d}, [c for c in cov if not (c == "coords" and m == 1 and "LOOSE" in d)],
                        time=1500 if th else 300, thorough=th, jobs=8 if th else 1, bound="type %d, %s" % (t, bound)))


for d in range(4):
    for c in (0, 10000):
        b, k = d * 1000 + c, "%s_%s_" % (DIMS[d + 1], "inter" if c else "sep")
        nw(k + "point", b + 1, ("coords", "null", "empty"), NF=3, bound="<=3 features")
        nw(k + "line", b + 2, bound="<=2 features of <=2 coordinates")
        nw(k + "mpoint", b + 4, bound="<=2 features of <=2 points")
        nw(k + "polygon", b + 3, NF=1, bound="<=1 feature, <=2 rings, <=2 coordinates")
        nw(k + "mline", b + 5, NF=1, bound="<=1 feature, <=2 lines, <=2 coordinates")
        nw(k + "mpoly", b + 6, NF=1, MAXC=1, bound="<=1 feature, <=2 polygons of <=2 rings of <=1 coordinate")
        nw(k + "mpoly_2", b + 6, NF=2, MAXC=1, MAXP=1, bound="<=2 features, <=1 part per level")
for s_ in range(1, 5):  # source dimensions
    for d in range(4):
        if s_ != d + 1:
            nw("%s_from_%s" % (DIMS[d + 1], DIMS[s_]), d * 1000 + 2 + 10000 * (s_ % 2), DIM=s_, bound="features of %s" % DIMS[s_])
            nw("point_%s_from_%s" % (DIMS[d + 1], DIMS[s_]), d * 1000 + 1 + 10000 * (d % 2), ("coords", "null", "empty"), DIM=s_, NF=1, bound="features of %s" % DIMS[s_])
nw("polygon_2", 3, NF=2, MAXC=1, bound="<=2 features, <=2 rings, <=1 coordinate")
nw("mline_2", 11005, NF=2, MAXC=1, bound="<=2 features, <=2 lines, <=1 coordinate")
nw("mpoly_dense", 6, NF=2, MAXC=1, NOEMPTY=1, SPLIT=0, bound="<=2 features, 1..2 parts per level")
nw("lines_long", 2, NF=1, MAXC=5, bound="<=5 coordinates, grown over several reallocations")
nw("nulls_9", 1, NF=9, NOEMPTY=1, bound="9 features")
nw("nulls_9_line", 10002, NF=9, NOEMPTY=1, MAXC=1, SPLIT=0, bound="9 features")
nw("nulls_9_mline", 5, NF=9, NOEMPTY=1, MAXC=1, MAXP=1, SPLIT=0, bound="9 features")
nw("nulls_9_mpoly", 6, NF=9, NOEMPTY=1, MAXC=1, MAXP=1, SPLIT=0, bound="9 features")
nw("batches_point", 1, BATCHES=2, bound="2 batches of <=2 features")
nw("batches_line", 2, BATCHES=2, NF=1, bound="2 batches of <=1 feature")
nw("batches_mline", 1005, BATCHES=2, NF=1, MAXC=1, bound="2 batches of <=1 feature")
nw("batches_mpoly", 10006, BATCHES=3, NF=1, MAXC=1, MAXP=1, bound="3 batches of <=1 feature")
for t, s_, more in ((4, 1, {}), (5, 2, {}), (6, 3, {"NF": 1})):
    nw("%s_as_%s" % (GEOMS[s_], GEOMS[t]), t, S=s_, bound="single geometries into the collection type", **more)
for t, s_, more in ((1, 4, {}), (2, 5, {"NF": 2}), (3, 6, {"NF": 1, "MAXC": 1})):
    nw("%s_as_%s" % (GEOMS[s_], GEOMS[t]), t, ("coords", "null", "refused"), S=s_, bound="collections, held only when of one part", **more)
for t, s_, more in ((2, 1, {}), (2, 4, {}), (4, 2, {}), (5, 3, {"NF": 1}), (3, 5, {"NF": 1}), (6, 2, {"NF": 1}), (6, 5, {"NF": 1}), (6, 1, {}), (5, 1, {}), (3, 1, {})):
    nw("other_%s_as_%s" % (GEOMS[s_], GEOMS[t]), t, S=s_, LOOSE=1, bound="no coordinate lost or moved to another feature", **more)
for t in (1, 2, 3, 6):
    for e in (0, 1):
        p16.append(Inst("collection_%s_as_%s" % ("dense" if e else "empties", GEOMS[t]), NW, {"T": t, "S": 7, "MODE": 0, "LOOSE": 1, "NF": 1, "MAXC": 1, "NOEMPTY": e, "SPLIT": 0, "DEPTH": 0},
                        ["coords"], time=1500 if t == 6 and not e else 300, thorough=t == 6 and not e, bound="collections of <=2 geometries: no coordinate lost or moved"))
        if t != 1:
            p16.append(Inst("collection_%s_as_%s_nested" % ("dense" if e else "empties", GEOMS[t]), NW, {"T": t, "S": 7, "MODE": 0, "LOOSE": 1, "NF": 1, "MAXC": 1, "NOEMPTY": e, "SPLIT": 0},
                            ["coords"], time=1500, thorough=True, jobs=8, bound="collections nested once: no coordinate lost or moved"))
p16.append(Inst("any_type", NW, {"MODE": 2}, ["works", "refused"], time=100, bound="every type identifier of the library"))
p16.append(Inst("mpoly_2_full", NW, {"T": 6, "MODE": 0, "NF": 2, "MAXC": 1, "SPLIT": 0}, ["coords", "null"], time=1500, thorough=True, jobs=8, bound="<=2 features, <=2 parts per level, <=1 coordinate"))
for t in (2, 10002, 1003, 13003, 4, 11004, 5, 12005, 6, 10006):
    g_ = t % 1000
    if g_ not in (4,):
        p16.append(Inst("long_%d" % t, NW, {"T": t, "MODE": 0, "NF": 1, "MAXC": 1, "MAXP": 1, "EV_MAX": 2400, "GEN_LONG": 300}, ["coords"], time=300, bound="one sequence of 300 coordinates"))
    if g_ != 2:
        p16.append(Inst("many_%d" % t, NW, {"T": t, "MODE": 0, "NF": 1, "MAXC": 1, "MAXP": 1, "EV_MAX": 2400, "GEN_LONGP": 260}, ["coords"], time=300, bound="260 parts"))
        p16.append(Inst("many_%d_value" % t, NW, {"T": t, "MODE": 1, "NF": 1, "MAXC": 1, "MAXP": 1, "EV_MAX": 2400, "GEN_LONGP": 260}, ["coords"], time=300, bound="260 parts"))
check("P16", p16, assumptions=["features stay below 2^31 coordinates", "the visitor path leaves out parts without coordinates of features that have some; parts are compared without those",
                               "output after a refused feature is not claimed"])

# ---------------------------------------------------------------- builder
BU = "builder.c"


def bu(name, t, how, cov, th=False, bound="", **d):
    lo, hi = how
    return Inst(name, BU, {"T": t, "HOWLO": lo, "HOWHI": hi, **d}, list(cov), time=1500 if th else 300, thorough=th, jobs=8 if th else 1, bound="type %d, %s" % (t, bound))


bany, bgood, bref = ["array", "empty array", "refused"], ["array", "empty array"], ["empty array", "refused"]
p17 = [bu("calls_point", 1, (0, 0), bany, STEPS=3, bound="every 3 calls (append or reserve, any buffer), <=2 elements each"),
       bu("calls_line", 10002, (0, 0), bany, STEPS=3, MAXN=1, bound="every 3 calls, <=1 element each"),
       bu("calls_wkb", 100001, (0, 0), bany, STEPS=3, MAXN=1, bound="every 3 calls, <=1 element each"), bu("calls_large_wkt", 100004, (0, 0), bref, STEPS=2, MAXN=1, bound="every 2 calls"),
       bu("calls_box", 990, (0, 0), bref, STEPS=2, bound="every 2 calls"), bu("calls_mpolygon", 11006, (0, 0), bref, STEPS=2, MAXN=1, bound="every 2 calls"),
       bu("calls_batches", 10001, (0, 0), bgood, STEPS=2, BATCHES=2, MAXN=1, bound="2 batches of every 2 calls"),
       bu("calls_line_5", 2, (0, 0), bany, th=True, STEPS=4, MAXN=1, bound="every 4 calls"), bu("calls_point_5", 13001, (0, 0), bany, th=True, STEPS=4, MAXN=1, bound="every 4 calls")]
p17 += [bu("coords_%s" % n, t, (2, 2), ["coords"] + c, th=th, STEPS=st, MAXN=1, bound="every %d calls incl. coordinate appends of 0, 1, 2, 7 and reserves up to 17" % st, **x)
        for n, t, st, c, th, x in (("point_xy", 1, 3, bgood, False, {}), ("point_xyzm", 13001, 3, bgood, False, {}), ("line_xyz", 1002, 2, bref, False, {}), ("line_inter", 12002, 2, bref, False, {}),
                             ("mpoint", 3004, 2, bref, False, {}), ("polygon", 10003, 2, bref, False, {}), ("batches", 2001, 1, bgood, False, {"BATCHES": 2}), ("batches_more", 2001, 2, bgood, True, {"BATCHES": 2}), ("line_more", 2, 4, bany, True, {}), ("point_more", 11001, 4, bgood, True, {}))]
p17 += [bu("owned_%s" % n, t, (1, 1), c, MAXN=mx, bound="every buffer owned by the caller, <=%d elements each" % (mx + 1)) for n, t, c, mx in (
    ("point", 1, bany, 2), ("line", 2, bany, 1), ("line_inter", 11002, bany, 1), ("polygon", 10003, bany, 1), ("mpolygon", 10006, bany, 1), ("box", 1990, bany, 1), ("wkb", 100001, bany, 2), ("large_wkb", 100002, bany, 1))]
p17 += [bu("array_%s" % n, t, (3, 3), bgood, MAXN=mx, BATCHES=b, bound="%d batch(es) of valid arrays of <=%d features and parts, appended in two pieces" % (b, mx)) for n, t, mx, b in (
    ("point", 3001, 9, 1), ("point_batches", 10001, 3, 2), ("line", 1002, 3, 1), ("line_batches", 12002, 2, 2), ("polygon", 3, 2, 1), ("polygon_batches", 10003, 1, 2), ("mpoint", 2004, 3, 1),
    ("mline", 13005, 2, 1), ("mpolygon", 1006, 1, 1), ("mpolygon_batches", 10006, 1, 2), ("box", 3990, 9, 1), ("box_batches", 990, 2, 2), ("wkb", 100001, 3, 1), ("wkt_batches", 100003, 2, 2), ("large_wkt", 100004, 3, 1))]
p17 += [bu("array_mpolygon_2", 1006, (3, 3), bgood, th=True, MAXN=2, bound="valid arrays of <=2 features and parts"), bu("array_line_4", 2, (3, 3), bgood, th=True, MAXN=4, bound="valid arrays of <=4 features and parts")]
p17 += [bu("calls_many_%s" % n, t, (0, 0), c, STEPS=2, MAXN=1, MANYN=300, bound="every 2 calls, 0, 1 or 300 elements each") for n, t, c in (("line", 10002, bany), ("wkb", 100001, bany), ("box", 990, bref))]
p17 += [bu("coords_many_%s" % n, t, (2, 2), ["coords"] + c, STEPS=2, MAXN=1, MANYN=300, bound="every 2 calls incl. coordinate appends of 0, 1, 65, 300 and reserves up to 1000")
        for n, t, c in (("point", 1, bgood), ("point_inter", 13001, bgood), ("line", 1002, bany))]
p17 += [bu("array_many_%s" % n, t, (3, 3), ["array"], MAXN=1, MANYN=k, BATCHES=b, bound="%d batch(es) of %d features, appended in two pieces" % (b, k))
        for n, t, k, b in (("point", 3001, 300, 1), ("line", 12002, 140, 2), ("polygon", 3, 70, 1), ("mpolygon", 1006, 70, 1), ("wkt", 100003, 270, 1), ("large_wkb", 100002, 270, 2))]
check("P17", p17, assumptions=["coordinate buffers are filled either as buffers or through the coordinate calls, not both (as documented)", "data is appended, not read back while pending"])

# ---------------------------------------------------------------- kernels
KE = "kernel.c"


def ke(name, mode, src, cov, th=False, time=300, bound="", **d):
    return Inst(name, KE, {"MODE": mode, "SRC": src, **d}, list(cov), time=1500 if th else time, thorough=th, jobs=8 if th else 1,
                bound="source type %d, %d batches of <=%d features, %s" % (src, d.get("BATCHES", 2), d.get("NF", 2), bound))


bb, bn = ["bounds", "no bounds"], ["bounds", "no bounds", "null"]
p21 = [ke("box_point", 0, 1, bn, NF=1, bound="every double"), ke("box_point_z_3", 0, 1001, bn, NF=3, BATCHES=1, bound="every double"), ke("box_point_inter", 0, 13001, bn, NF=2, BATCHES=1, bound="every double"),
       ke("box_line", 0, 10002, bn, NF=1, BATCHES=1, bound="<=2 coordinates, every double"), ke("box_line_picked", 0, 2002, bn, NF=1, PICK=2, BATCHES=1, bound="<=2 coordinates"),
       ke("box_polygon", 0, 3, bn, NF=1, BATCHES=1, MAXC=1, bound="<=2 rings of <=1 coordinate, every double"), ke("box_mpoint", 0, 4, bn, NF=1, BATCHES=1, bound="<=2 points, every double"),
       ke("box_mline", 0, 10005, bn, NF=1, BATCHES=1, MAXC=1, bound="<=2 lines of <=1 coordinate, every double"), ke("box_mpoly", 0, 6, bn, NF=1, BATCHES=2, MAXC=1, MAXP=1, bound="<=1 part, every double"),
       ke("box_wkb", 0, 100001, bn, NF=1, BATCHES=1, MAXC=1, MAXP=1, bound="every geometry type, every double"), ke("box_wkb_z_batches", 0, 100001, bn, NF=1, G=2, DIM=2, bound="lines, every double", MAXC=1),
       ke("box_wkt", 0, 100003, bn, NF=1, BATCHES=1, MAXC=1, MAXP=1, PICK=2, bound="every geometry type"), ke("box_box", 0, 990, bn, NF=1, bound="boxes, every double"),
       ke("agg_point_3", 1, 1, bb, NF=1, BATCHES=3, bound="every double"), ke("agg_line", 1, 10002, bb, NF=1, MAXC=1, bound="<=1 coordinate, every double"),
       ke("agg_line_picked", 1, 2, bb, NF=1, PICK=3, MAXC=1, bound="ordinates picked from three"), ke("agg_wkb", 1, 100001, bb, NF=1, G=5, MAXC=1, MAXP=1, bound="multilinestrings, every double"),
       ke("agg_polygon", 1, 1003, bb, NF=2, BATCHES=1, MAXC=1, MAXP=1, bound="every double"), ke("agg_wkt", 1, 100003, bb, NF=1, G=7, MAXC=1, MAXP=1, PICK=2, bound="collections"), ke("agg_box", 1, 990, bb, NF=1, BATCHES=1, bound="boxes, every double"),
       ke("box_nulls_9", 0, 1, ["bounds", "null"], NF=9, NULLS=9, BATCHES=1, PICK=1, SLICE=0, NOEMPTY=1, bound="exactly 9 features") ,
       ke("start_box", 6, 1, ["started", "refused"], WLO=6, WHI=7, bound="every type, metadata documents with and without edges"),
       ke("box_point_deep", 0, 1, bn, th=True, NF=2, bound="every double"), ke("box_line_deep", 0, 10002, bn, th=True, NF=1, PICK=4, bound="ordinates picked from four incl. NaN"),
       ke("box_mpoly_deep", 0, 6, bn, th=True, NF=1, BATCHES=1, MAXC=2, bound="every double"), ke("agg_line_deep", 1, 10002, bb, th=True, NF=1, bound="<=2 coordinates, every double"), ke("box_wkb_deep", 0, 100001, bn, th=True, NF=2, BATCHES=1, MAXC=1, bound="every geometry type")]
LL = {"NF": 1, "BATCHES": 1, "MAXC": 1, "MAXP": 1, "EV_MAX": 2400, "SLICE": 0}
p21 += [ke("%s_long_%d" % ("agg" if m else "box", t), m, t, ["bounds"], bound="sequences of 100 coordinates, one of three of them arbitrary", GEN_LONG=100, GEN_FEW=1, **dict(LL, **x))
        for m, t, x in ((0, 10002, {}), (1, 2, {}), (0, 100001, {"G": 3, "NOEMPTY": 1}), (1, 1005, {}))]
check("P21", p21, assumptions=["ordinates of null features count for nothing", "after a refused batch and after a second start nothing is claimed"])
cn, cnr = ["coords", "null"], ["coords", "null", "refused"]
p22 = [ke("as_%s_from_%d" % (dn, src), 3, src, cov, DST=dst, bound="to type %d" % dst, **x) for src, dn, dst, cov, x in (
    (2, "wkb", 100001, cn, {}), (13002, "wkb", 100001, cn, {"BATCHES": 1}), (1006, "wkb", 100001, cn, {"NF": 1, "MAXC": 1, "MAXP": 1}), (10001, "wkb", 100001, cn, {}), (3, "wkb", 100001, cn, {"NF": 1, "MAXC": 1}), (4, "wkb", 100001, cn, {"NF": 1}),
    (990, "wkb", 100001, cn, {"NF": 1}), (990, "polygon", 3, cn, {"NF": 1}), (990, "line", 2, cn, {"NF": 1, "BATCHES": 1}), (2, "mline", 5, cn, {"NF": 1}), (1, "mpoint", 4, cn, {}), (10003, "mpoly", 6, cn, {"NF": 1, "MAXC": 1}),
    (2, "line_inter", 10002, cn, {}), (11003, "polygon_sep", 1003, cn, {"NF": 1, "MAXC": 1}), (1, "point_zm", 3001, cn, {}), (3001, "point_m", 12001, cn, {}), (10005, "mline", 5, cn, {"NF": 1, "MAXC": 1}),
    (2, "point", 1, cnr, {"NF": 1}), (100001, "polygon_z", 1003, cn, {"DIM": 2, "G": 3, "NF": 1, "MAXC": 1}), (100001, "mpoly", 10006, cn, {"NF": 1, "MAXC": 1, "MAXP": 1, "BATCHES": 1}), (100001, "point", 1, cn, {"NF": 1, "G": 7, "MAXC": 1, "MAXP": 1, "BATCHES": 1}), (100001, "point_b", 1, cnr, {"NF": 1, "G": 4, "BATCHES": 1}), (100001, "mpoint_m", 2004, cn, {"G": 4, "DIM": 3, "NF": 1}),
    (100001, "wkb", 100001, cn, {"NF": 1, "MAXC": 1, "MAXP": 1, "BATCHES": 1}), (100003, "wkb", 100001, cn, {"NF": 1, "MAXC": 1, "MAXP": 1}), (100003, "wkt", 100003, cn, {"NF": 1, "MAXC": 1, "MAXP": 1, "BATCHES": 1}), (100003, "mline", 5, cn, {"G": 5, "NF": 1}),
    (6, "wkt", 100003, cn, {"NF": 1, "MAXC": 1, "BATCHES": 1}), (100001, "wkt", 100003, cn, {"NF": 1, "MAXC": 1, "MAXP": 1, "NOEMPTY": 1}), (100001, "wkt_poly", 100003, cn, {"NF": 1, "G": 3, "MAXC": 1}))]
p22 += [ke("format_%s" % n, 2, src, c, bound="", **x) for n, src, c, x in (
    ("line", 2, cn, {"NF": 1}), ("wkb", 100001, cn, {"NF": 1, "MAXC": 1, "MAXP": 1, "NOEMPTY": 1}), ("wkb_mline", 100001, cn, {"NF": 1, "G": 5, "MAXC": 1}), ("wkt", 100003, cn, {"NF": 1, "MAXC": 1, "MAXP": 1}), ("box", 990, cn, {"PICK": 2, "NF": 1, "BATCHES": 1}), ("mpoly_zm", 3006, cn, {"NF": 1, "MAXC": 1, "MAXP": 1}),
    ("limit_polygon", 3, cn + ["cut"], {"LIMIT": 45, "NF": 1, "MAXC": 1, "MAXP": 1}), ("limit_wkb", 100001, cn + ["cut"], {"LIMIT": 22, "NF": 1, "MAXC": 1, "MAXP": 1, "BATCHES": 1}), ("limit_wkt", 100003, cn + ["cut"], {"LIMIT": 30, "NF": 1, "G": 4, "MAXP": 1}))]
p22 += [ke("types_%s" % n, 4, src, c, bound="", **x) for n, src, c, x in (
    ("line", 2, ["none"], {"MAXC": 1}), ("mline", 1005, ["none"], {"NF": 1, "MAXC": 1}), ("point_zm", 13001, ["none"], {}), ("wkb", 100001, ["none", "several"], {"MAXP": 1, "MAXC": 1, "NF": 1}), ("wkb_zm", 100001, ["none", "several"], {"MAXP": 1, "MAXC": 1, "DIM": 4, "NF": 1}),
    ("wkb_mixed", 100001, ["none"], {"NF": 1, "MIXDIM": 2, "G": 7, "BATCHES": 1, "MAXC": 1}), ("wkt_z", 100003, ["none", "several"], {"MAXP": 1, "MAXC": 1, "DIM": 2, "NF": 1}), ("wkt_m", 100003, ["none"], {"MAXP": 1, "MAXC": 1, "DIM": 3, "NF": 1, "BATCHES": 1}), ("box", 990, ["none"], {"NF": 1}))]
p22 += [ke("void_wkt", 5, 100003, [], G=3, NF=1, MAXC=1), ke("void_line", 5, 2, [], NF=1), ke("void_wkb", 5, 100001, [], G=6, NF=1, MAXC=1, MAXP=1),
        ke("names", 6, 1, ["known", "unknown"], NAME=1, bound="every name one byte away from a kernel's"), ke("options", 6, 1, ["started", "refused"], WLO=0, WHI=5, bound="every kernel, source type and target type, missing and malformed options, metadata documents"),
        ke("options_all", 6, 1, ["started", "refused"], th=True, ALL=1, WLO=0, WHI=7, bound="every kernel, source type, target type and metadata document"),
        ke("as_wkb_deep", 3, 100001, cn, th=True, DST=100001, NF=1, MAXC=1, bound="every geometry type, <=2 parts"), ke("as_mpoly_deep", 3, 6, cn, th=True, DST=10006, NF=1, MAXC=1, bound="<=2 parts"),
        ke("types_deep", 4, 100001, ["none", "several"], th=True, NF=2, MAXC=1, MAXP=1, bound="every geometry type"), ke("format_wkb_deep", 2, 100001, cn, th=True, NF=1, MAXC=1, NOEMPTY=1, bound="every geometry type, <=2 parts"),
        ke("limit_deep", 2, 100001, cn + ["cut"], th=True, LIMIT=40, NF=1, BATCHES=1, MAXC=1, bound="every geometry type, every limit up to 40")]
p22 += [ke("as_%d_from_%d_%s" % (dst, src, nm), 3, src, ["coords"], DST=dst, bound="to type %d, %s" % (dst, "a sequence of 300 coordinates" if nm == "long" else "260 parts"),
           **dict(LL, **{"GEN_LONG" if nm == "long" else "GEN_LONGP": 300 if nm == "long" else 260}, **x))
        for src, dst, nm, x in ((2, 100001, "long", {}), (100001, 10003, "long", {"G": 3}), (1005, 13005, "long", {}), (4, 100001, "many", {}), (100001, 10006, "many", {"G": 6, "NOEMPTY": 1}), (100001, 100003, "many", {"G": 7, "NOEMPTY": 1}),
                                (100003, 100001, "many", {"G": 7}), (100003, 3, "many", {"G": 3}), (100003, 5, "long", {"G": 5}), (10006, 6, "many", {}), (3, 100003, "many", {}))]
p22 += [ke("as_%d_from_%d_nulls_9" % (dst, src), 3, src, ["coords", "null"], DST=dst, NF=9, NULLS=9, BATCHES=1, SLICE=0, NOEMPTY=1, MAXC=1, MAXP=1, G=g, bound="exactly 9 features", **x)
        for src, dst, g, x in ((1, 100001, 0, {}), (100001, 2, 2, {}), (10002, 4, 0, {"LOOSE": 1}), (100001, 100003, 1, {}))]
p22 += [ke("format_default_precision", 2, 2, ["coords"], T16=1, NF=1, bound="ordinates of 16 decimals"), ke("as_wkt_default_precision", 3, 100001, ["coords"], DST=100003, T16=1, NF=1, G=4, DIM=2, NOEMPTY=1, MAXC=1, bound="to WKT, ordinates of 16 decimals"),
        ke("wkb_default_precision", 3, 100003, ["coords"], DST=100001, T16=1, NF=1, G=4, DIM=2, NOEMPTY=1, MAXC=1, bound="from WKT, ordinates of 16 decimals")]
check("P22", p22, assumptions=["after a refused batch and after a second start nothing is claimed", "text outputs are compared for ordinates of known decimal form", "conversions that need another geometry type may refuse; otherwise no coordinate is lost or moved to another feature"])

# ---------------------------------------------------------------- allocation failures
O = "oom.c"
AW, RP = "all allocations worked", "reported"


def oo(name, op, cov, t=None, fails=2):
    return Inst(name if fails == 2 else "%s_%d_failures" % (name, fails), O, dict({"OP": op, "FAILS": fails}, **({"T": t} if t is not None else {})), cov, time=300 if fails == 2 else 1500, thorough=fails > 2,
                bound="any %d allocations of the scenario fail" % fails)


def p23(fails):
    out = [oo("schemas", 0, [AW, RP], None, fails), oo("text_writer", 3, [AW, RP], 100003, fails), oo("binary_writer", 3, [AW, RP], 100001, fails), oo("readers", 4, [AW, RP, "again"], None, fails),
           oo("geometries", 5, [AW, RP], None, fails), oo("scalar_functions", 8, [AW, RP], None, fails)]
    out += [oo("builder_%d" % t, 1, [AW, RP, "again"] + ([] if t % 10 == 1 else ["reserve failed"]), t, fails) for t in (1, 2, 3004, 10001, 1003, 12005, 6, 13006, 990)]
    out += [oo("native_writer_%d" % t, 2, [AW, RP], t, fails) for t in (1, 1002, 3, 3004, 2005, 6, 10001, 11002, 10003, 13004, 12005, 11006)]
    out += [oo("array_writer_%d" % t, 6, [AW, RP], t, fails) for t in (10002, 1, 3, 4, 5, 6, 100001, 100003)]
    return out + [oo("kernels_%d" % t, 7, [AW, RP], t, fails) for t in (1, 2, 3, 4, 6, 10002, 100001, 100003, 5)]


check("P23", p23(2) + p23(3),
      assumptions=["the inputs of the scenarios are fixed, which allocations fail is arbitrary"])

# ---------------------------------------------------------------- C++ WKB
X = "hpp_wkb.cc"
xe = ["accepted", "too few bytes"]


def xw(name, n, cov, pre=None, **kw):
    d = {"N": n}
    if pre:
        d["PRE"] = pre
    th = kw.pop("thorough", False)
    j = kw.pop("jobs", 1)
    d.update(kw)
    return Inst(name, X, d, cov, time=1500 if th else 300, thorough=th, jobs=j, lib="std", bound="%severy byte string of %d bytes" % ("bytes %s then " % pre if pre else "%d nested collections, then " % kw["NEST"] if "NEST" in kw else "", n))


PRE25 = [("coll", 17, False), ("mpoint", 17, False), ("poly", 28, False), ("bepoly", 28, False), ("becoll", 17, False), ("ewkb", 84, False), ("zmpoint", 40, False), ("mpoly", 17, False),
         ("mline", 22, True), ("coll", 23, True), ("mpoint", 26, True), ("poly", 60, True)]
check("P25", [xw("any_%d" % n, n, ["too few bytes"] + (["byte order", "type", "unspecified"] if n > 4 else []) + (["trailing"] if n > 9 else ["accepted"] if n == 9 else [])) for n in (0, 1, 4, 5, 9, 13, 14)] +
      [xw("any_17", 17, ["trailing"], jobs=4, thorough=True), xw("any_21", 21, ["trailing"], jobs=8, thorough=True), xw("large", 21, ["large"], MODE=3),
       xw("twice_9", 9, [], MODE=1, N2=9), xw("twice_10", 10, [], MODE=1, N2=9, thorough=True, jobs=8), xw("blobs", 9, ["malformed", "null"], MODE=2),
       xw("nested_254", 9, ["accepted"], NEST=254, MAXDEPTH=254), xw("nested_255", 9, ["too deep"], NEST=255, MAXDEPTH=254), xw("nested_20000", 0, ["refused"], NEST=20000, MODE=4)] +
      [Inst("long_" + nm, X, {"LONG": n, "LNV": nv, "LE": le, "PRE": pre, "EV_MAX": 700}, xe, time=300, lib="std", bound="a sequence of %d coordinates, one of seven of them arbitrary, the last byte present or not" % n)
       for nm, pre, n, nv, le in (("line", "1,2,0,0,0,193,0,0,0,", 193, 2, 1), ("line_be", "0,0,0,0,2,0,0,1,129,", 385, 2, 0), ("line_zm_be", "0,0,0,11,186,0,0,0,97,", 97, 4, 0), ("ring_z", "1,235,3,0,0,1,0,0,0,129,0,0,0,", 129, 3, 1))] +
      [Inst("many_" + nm, X, {"MANY": 260, "PRE": pre, "PART": part, "EV_MAX": 1600}, xe, time=300, lib="std", bound="260 parts, the first byte and an ordinate of one of four of them arbitrary, the last byte present or not")
       for nm, pre, part in (("coll_points", "1,7,0,0,0,4,1,0,0,", "1,1,0,0,0,0,0,0,0,0,0,240,63,0,0,0,0,0,0,0,64"), ("mline_be", "0,0,0,0,5,0,0,1,4,", "0,0,0,0,2,0,0,0,1,63,240,0,0,0,0,0,0,64,0,0,0,0,0,0,0"), ("mpoly", "1,6,0,0,0,4,1,0,0,", "1,3,0,0,0,1,0,0,0,0,0,0,0"),
                             ("rings", "1,3,0,0,0,4,1,0,0,", "1,0,0,0,0,0,0,0,0,0,240,63,0,0,0,0,0,0,0,64"))] +
      [xw("after_%s_%d" % (k, n), n, ["trailing"], HDR[k], thorough=th, jobs=8 if th else 1) for k, n, th in PRE25],
      assumptions=["type codes with the value 4000 and more that look like known types are not compared", "a geometry nested too deeply that is malformed further on may get either status"])

# ---------------------------------------------------------------- C++ arrays
A2 = "hpp_array.cc"


def ha(t, nf=2, th=False, **kw):
    d = {"MODE": 0, "TY": t, "UNI": 1, "NF": nf}
    d.update(kw)
    return Inst("type_%d" % t + ("" if not (th or kw) else "_more"), A2, d, ["null", "vertices", "edges"], time=1500 if th else 300, thorough=th, jobs=8 if th else 1, lib="std",
                bound="%d features, <=%d parts each, all validity bitmaps and ordinates, offsets everywhere or nowhere" % (nf, kw.get("MAXS", 2)))


check("P26", [Inst("sequences", A2, {"MODE": 1}, ["algebra", "coordinates"], time=300, lib="std", bound="every raw coordinate sequence of <=4 coordinates, every stride and offset")] +
      [ha(t) for t in (1, 1001, 3001, 10001, 12001, 2, 1002, 2002, 13002, 4, 3004, 11004)] + [ha(t, 1) for t in (3, 2003, 10003, 13003, 5, 1005, 12005, 6, 13006)] +
      [Inst("box_%d" % d, A2, {"MODE": 2, "TY": 990 + 1000 * d, "UNI": 1}, ["null", "bounds"], time=300, lib="std", bound="every box array of <=2 boxes with offsets") for d in range(4)] +
      [Inst("long_%d_%d" % (t, nf), A2, {"MODE": 0, "TY": t, "UNI": 1, "LONGA": nf, "LONGP": lp, "LONGQ": lq, "OFF": 5, "EV_MAX": 4000}, ["null", "vertices"] + (["edges"] if t % 10 not in (4,) else []), time=600, thorough=t in (12001, 2003, 13002), lib="std",
            bound="%d features, one part of %d coordinates or %d parts, an ordinate of every buffer arbitrary" % (nf, lp, lq))
       for t, nf, lp, lq in ((1, 70, 1, 1), (12001, 70, 1, 1), (2, 70, 20, 1), (13002, 3, 100, 1), (10003, 3, 70, 3), (2003, 3, 3, 70), (1004, 3, 70, 1), (5, 3, 70, 2), (13006, 3, 2, 70))] +
      [ha(t, 1 if t % 10 in (3, 5, 6) else 2, True) for t in (2001, 11001, 13001, 3002, 10002, 11002, 12002, 1004, 2004, 10004, 12004, 13004, 1003, 3003, 11003, 12003, 2005, 3005, 10005, 11005, 13005, 1006, 2006, 3006, 10006, 11006, 12006)] +
      [ha(2, 3, True), ha(3, 2, True), ha(5, 2, True)],
      assumptions=["array contents are valid Arrow data, as the views require"])

# ---------------------------------------------------------------- C++ type descriptor
D = "hpp_type.cc"


def ht(name, defs, cov, bound, th=False, jobs=1):
    return Inst(name, D, defs, cov, time=1500 if th else 300, thorough=th, jobs=jobs, lib="std", bound=bound)


mr = ["modified", "refused"]
ar_ = ["accepted", "refused"]
check("P27", [ht("one_step", {"MODE": 0, "N": 2}, mr, "every type, every operation, crs of 2 characters"), ht("one_step_preset", {"MODE": 0, "N": 1, "PRESET": 1}, mr, "every type with crs and edges set, every operation"),
              ht("parts", {"MODE": 2}, ar_, "every combination of geometry type, dimensions and layout, every identifier")] +
      [ht("two_steps_%d" % k, {"MODE": 0, "N": 1, "KLO": k, "KHI": k if k < 58 else 57, "STEPS": 2, "PRESET": pre}, mr, "every two operations on one type") for k, pre in ((58, 0), (50, 0), (53, 1), (7, 1), (28, 1))] +
      [ht("two_steps_long", {"MODE": 0, "N": 1, "KLO": 9, "KHI": 9, "STEPS": 2, "PRESET": 1, "PRE": '"a_crs_that_is_too_long_for_its_place_in_the_text_"'}, mr, "every two operations with a crs of 50 characters")] +
      [ht("one_step_long", {"MODE": 0, "N": 1, "KLO": 22, "KHI": 22, "STEPS": 1, "PRESET": 1, "PRE": cstr(LONG)}, mr, "every operation with a crs of 298 characters")] +
      [ht("two_steps_%d_more" % k, {"MODE": 0, "N": 2, "KLO": k, "KHI": k, "STEPS": 2, "PRESET": 1}, mr, "every two operations on one type", True, 8) for k in (0, 9, 17, 33, 47, 49, 55)] +
      [ht("three_steps", {"MODE": 0, "N": 1, "KLO": 4, "KHI": 4, "STEPS": 3, "PRESET": 1}, mr, "every three operations on one type", True, 8)] +
      [ht("metadata_%d" % n, {"MODE": 1, "N": n}, ar_, "every metadata text of %d characters" % n) for n in (2, 3, 5, 6)] +
      [ht("metadata_crs", {"MODE": 1, "N": 4, "PRE": cstr('{"crs":"'), "POST": cstr('"}')}, ar_, "every 4 characters within a crs"),
       ht("metadata_edges", {"MODE": 1, "N": 5, "PRE": cstr('{"edges":"spher'), "POST": cstr('"}')}, ar_, "every 5 characters within an edge type"),
       ht("storages", {"MODE": 3}, ar_, "every storage with every extension name")],
      assumptions=["a crs set through the descriptor is plain text, not JSON text", "texts are shortened to at least 7 characters"])

# ---------------------------------------------------------------- contracts of functions, readers and writers
K2 = "contracts.c"
check("P28", [Inst("dispatch", K2, {"MODE": 0}, ["reader", "reader refuses", "writer", "writer refuses", "visitor refused", "builder", "builder refuses", "view", "view refuses"], time=300, bound="every type identifier for readers, writers, builders and views"),
              Inst("scalar_functions", K2, {"MODE": 1}, ["executed", "refused"], time=300, bound="every scalar function, storage and input of <=2 rows"), Inst("moved_children", K2, {"MODE": 3}, ["schema child", "array child"], time=300, bound="any child moved out before the release")] +
      [Inst("writer_%d" % t, K2, {"MODE": 2, "T": t, "STEPS": 4}, ["second array"], time=300, bound="every 4 calls on one writer") for t in (2, 10001, 11006, 100001, 100003)] +
      [Inst("reread_%d" % t, "array_read.c", dict({"MODE": m, "T": t, "DIRTY": 1}, **kw), ["earlier"], time=300, bound="an earlier array attached to the same reader or view")
       for t, m, kw in ((1, 0, {"UNI": 1}), (13002, 0, {"UNI": 1}), (2006, 0, {"UNI": 1, "NF": 1, "MAXS": 1}), (10003, 0, {"UNI": 1, "NF": 1, "MAXS": 1}), (990, 0, {"UNI": 1, "NF": 1}),
                        (100001, 1, {}), (100002, 1, {}), (100003, 1, {}), (100005, 1, {}), (100006, 1, {"NF": 1}))],
      assumptions=["type identifiers outside the enumeration are not claimed for readers and views"])

# ---------------------------------------------------------------- C++ reader, writer, builder
RW = "hpp_rw.cc"


def rw(name, defs, cov, bound, th=False):
    return Inst(name, RW, defs, cov, time=1500 if th else 300, thorough=th, jobs=8 if th else 1, lib="std", bound=bound)


check("P30", [rw("reader_point", {"MODE": 0, "TY": 1}, ["visited", "view", "second array", "array refused", "no reader"], "every 3 calls on one reader of points"),
              rw("reader_wkt", {"MODE": 0, "TY": 100003}, ["visited", "view", "second array", "array refused", "malformed"], "every 3 calls on one reader of WKT"),
              rw("reader_point_5", {"MODE": 0, "TY": 1, "STEPS": 5}, ["visited", "view", "second array", "array refused"], "every 5 calls on one reader of points", True),
              rw("reader_wkt_4", {"MODE": 0, "TY": 100003, "STEPS": 4}, ["visited", "view", "second array", "array refused"], "every 4 calls on one reader of WKT", True),
              rw("builder", {"MODE": 1}, ["built", "abandoned", "buffer refused", "no builder"], "every way of filling the buffers of <=2 linestrings"),
              rw("writer_point", {"MODE": 2, "TY": 1}, ["written", "second array", "setting refused"], "<=2 settings, <=2 arrays of <=2 features"),
              rw("writer_wkt", {"MODE": 2, "TY": 100003}, ["written", "second array"], "<=2 settings, <=2 arrays of <=2 features"),
              rw("writer_wkb", {"MODE": 2, "TY": 100001}, ["written", "second array", "setting refused"], "<=2 settings, <=2 arrays of <=2 features")],
      assumptions=["calls on a reader whose last array was refused are not claimed", "the classes are not copied"])

# ---------------------------------------------------------------- failed calls
ER = "errors.c"


def er(name, defs, cov, bound, th=False):
    return Inst(name, ER, defs, cov, time=1500 if th else 300, thorough=th, jobs=8 if th else 1, bound=bound)


FW = ["failed", "worked"]
check("P31", [er("schema_%d" % lo, {"MODE": 0, "KLO": lo, "KHI": hi, "N": n}, FW, "%d arbitrary characters as format, name or extension name at any node, children dropped, of types %d..%d" % (n, lo, hi))
              for lo, hi, n in ((0, 5, 3), (6, 17, 1), (18, 31, 1), (32, 47, 1), (48, 57, 2))] +
      [er("metadata", {"MODE": 1, "N": 6}, FW, "every metadata text of 6 characters"),
       er("metadata_crs", {"MODE": 1, "PRE": '"{\\"crs\\":"', "POST": '"}"', "N": 3}, FW, "every CRS member of 3 characters"),
       er("metadata_edges", {"MODE": 1, "PRE": '"{\\"edges\\":\\""', "POST": '"\\"}"', "N": 3}, ["failed"], "every edge type of 3 characters"),
       er("metadata_long", {"MODE": 1, "N": 2, "PAD": 1500}, ["failed"], "1500 letters, longer than a message"),
       er("types", {"MODE": 2}, FW, "every 32-bit type identifier"),
       er("wkb", {"MODE": 3, "N": 10}, FW, "every WKB of 10 bytes"),
       er("wkb_14", {"MODE": 3, "N": 14}, FW, "every WKB of 14 bytes"),
       er("wkt", {"MODE": 4, "N": 5}, ["failed"], "every text of 5 characters"),
       er("wkt_polygon", {"MODE": 4, "PRE": '"POLYGON"', "N": 4}, ["failed"], "POLYGON and 4 characters"),
       er("wkt_number", {"MODE": 4, "PRE": '"POINT (1 "', "N": 3}, FW, "an ordinate and what follows, 3 characters"),
       er("wkt_long", {"MODE": 4, "PRE": '"POINT("', "N": 2, "PAD": 1500}, ["failed"], "1500 letters, longer than a message"),
       er("arrays", {"MODE": 5}, FW, "arrays of every type attached to views and readers of every type"),
       er("kernel_options", {"MODE": 7, "N": 1}, FW, "every kernel, type and option of one character"),
       er("kernel_options_3", {"MODE": 7, "N": 3}, FW, "every kernel, type and option of 3 characters"),
       er("kernel_batch", {"MODE": 8, "N": 3, "OUT": 49}, ["failed"], "one of two features 3 arbitrary characters or bytes"),
       er("names", {"MODE": 9, "N": 4}, FW + ["no number"], "names of scalar functions and kernels, numbers, 4 characters"),
       er("builder", {"MODE": 10, "KLO": 0, "KHI": 47}, FW, "arbitrary offsets at any level"),
       er("error_object", {"MODE": 11}, FW, "messages of 0 to 3004 characters"),
       er("schema_th", {"MODE": 0, "KLO": 0, "KHI": 57, "N": 3}, FW, "as schema_*, 3 characters, every type", True),
       er("metadata_8", {"MODE": 1, "N": 8}, FW, "every metadata text of 8 characters", True),
       er("wkb_18", {"MODE": 3, "N": 18}, FW, "every WKB of 18 bytes", True),
       er("kernel_batch_5", {"MODE": 8, "N": 5, "OUT": 49}, ["failed"], "one of two features 5 arbitrary characters or bytes", True),
       er("names_6", {"MODE": 9, "N": 6}, ["failed", "no number"], "6 characters", True)] +
      [er("writer_%d" % t, {"MODE": 6, "T": t, "STEPS": st}, ["worked"], "every %d callbacks, then finish" % st) for t, st in ((100001, 3), (100003, 3), (1, 2), (3, 2), (10006, 2))],
      assumptions=["widths of string and binary arrays cannot be told apart and are assumed to match",
                   "functions that initialise an object in place (views, builders, readers) are only claimed to give the same result and a message"])
