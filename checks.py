"""What is built and which scenarios decide which property."""
RT = ["sim/simfs.cpp"]
LIBS = ["-lembree4", "-lassimp", "-lcfitsio", "-lfftw3f", "-lturbojpeg", "-lpng", "-ltiff", "-ljpeg", "-lz"]
IMG = ["-lcfitsio", "-lturbojpeg", "-lpng", "-ltiff", "-ljpeg", "-lz"]
TARGETS = {
    "spice": dict(flavour="tsan", src=["harness/spice.cpp"], rt=RT + ["sim/simspice.cpp"]),
    "render": dict(flavour="tsan", src=["harness/render.cpp"], rt=RT + ["sim/simspice.cpp", "sim/libs.cpp"], link=LIBS),
    "catalog": dict(flavour="asan", src=["harness/catalog.cpp"], rt=RT),
    "imgio": dict(flavour="asan", src=["harness/imgio.cpp"], rt=RT, link=IMG),
    "imgio_plain": dict(flavour="plain", src=["harness/imgio.cpp"], rt=RT, link=IMG),
    "scene": dict(flavour="asan", src=["harness/scene.cpp"], rt=RT + ["sim/simspice.cpp", "sim/libs.cpp"], link=LIBS),
    "scene_plain": dict(flavour="plain", src=["harness/scene.cpp"], rt=RT + ["sim/simspice.cpp", "sim/libs.cpp"], link=LIBS),
    "logger": dict(flavour="tsan", src=["harness/logger.cpp"], rt=RT),
}
PROPS = {
    "L01": dict(scenarios=[dict(name="l01_log", target="logger")]),
    "L02": dict(scenarios=[dict(name="l02_dump", target="logger")]),
    "L03": dict(scenarios=[dict(name="l03_crash", target="logger")]),
}
for _i, _n in (("S01", "s01_calls"), ("S02", "s02_leapseconds"), ("S03", "s03_folder")):
    PROPS[_i] = dict(scenarios=[dict(name=_n, target="spice")])
for _i, _n in (("D01", "d01_schedule"), ("D02", "d02_pure"), ("D03", "d03_races"), ("D04", "d04_independent"), ("D06", "d06_fixed"), ("D07", "d07_batch"), ("D08", "d08_bulk"), ("D05", "d05_points"), ("N01", "n01_noise")):
    PROPS[_i] = dict(scenarios=[dict(name=_n, target="render")])
for _i, _n in (("F01", "f01_read"), ("F02", "f02_write"), ("F03", "f03_tycho2")):
    PROPS[_i] = dict(scenarios=[dict(name=_n, target="catalog")])
for _i, _n in (("F04", "f04_read"), ("F05", "f05_write")):
    PROPS[_i] = dict(scenarios=[dict(name=_n, target="imgio")])
PROPS["F06"] = dict(scenarios=[dict(name="f06_damage", target="imgio", weight=3), dict(name="f06_garbage", target="imgio_plain", weight=1)])
PROPS["F07"] = dict(scenarios=[dict(name="f07_after", target="imgio_plain", weight=2), dict(name="f07_after", target="imgio", weight=1)])
PROPS["S04"] = dict(scenarios=[dict(name="s04_ephemeris", target="scene")])
PROPS["G01"] = dict(scenarios=[dict(name="g01_names", target="scene")])
PROPS["G02"] = dict(scenarios=[dict(name="g02_delete", target="scene")])
PROPS["G03"] = dict(scenarios=[dict(name="g03_memory", target="scene")])
PROPS["G04"] = dict(scenarios=[dict(name="g04_poses", target="scene", weight=2), dict(name="g04_poses", target="scene_plain", weight=1)])
PROPS["P01"] = dict(scenarios=[dict(name="p01_points", target="scene")])
PROPS["P02"] = dict(scenarios=[dict(name="p02_surfaces", target="scene_plain")])
PROPS["P03"] = dict(scenarios=[dict(name="p03_light", target="scene_plain")])
PROPS["W01"] = dict(scenarios=[dict(name="w01_model", target="scene")])
_PURE = ("A pure function of its arguments: no concurrency, time, I/O, randomness or multi-party behaviour for a "
         "simulator to control, so deterministic simulation has nothing to vary.")
NOT_APPLICABLE = {i: _PURE for i in ("M01", "M02", "M03", "M04", "M05")}
