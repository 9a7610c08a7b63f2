"""Which simulated system decides which property, and how much of it is run."""
COMMON = {
    "asan": {
        "unit": ["-O1", "-g1", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard"],
        "core": ["-O1", "-g1", "-fsanitize=address"],
        "link": ["-fsanitize=address"],
        "srcs": ["simcore.cpp"],
    },
}

UNITS = {
    "line2": {"src": "hist_main.cpp", "defs": ["-DHIST_CFG=cfg_line2"], "cost": 1},
    "tri2":  {"src": "hist_main.cpp", "defs": ["-DHIST_CFG=cfg_tri2"], "cost": 2},
    "quad2": {"src": "hist_main.cpp", "defs": ["-DHIST_CFG=cfg_quad2"], "cost": 3},
    "tet3":  {"src": "hist_main.cpp", "defs": ["-DHIST_CFG=cfg_tet3"], "cost": 8},
    "hull3": {"src": "hist_main.cpp", "defs": ["-DHIST_CFG=cfg_hull3"], "cost": 2},
    "hex3":  {"src": "hist_main.cpp", "defs": ["-DHIST_CFG=cfg_hex3"], "cost": 9},
}

UNITS["plc3"] = {"src": "plc_main.cpp", "defs": [], "cost": 1}
for _c, _k in (("tri2", 3), ("tet3", 9), ("quad2", 4), ("hex3", 10)):
    UNITS["d_" + _c] = {"src": "hist_main.cpp", "defs": ["-DHIST_CFG=cfg_" + _c, "-DHIST_DERIVE"], "cost": _k}

for _c, _k in (("line1", 1), ("line3", 1), ("tri2", 2), ("tri3", 3), ("quad2", 3), ("tet3", 6), ("hex3", 7)):
    UNITS["io_" + _c] = {"src": "io_main.cpp", "defs": ["-DIO_CFG=cfg_" + _c], "cost": _k}
for _c, _k in (("line1", 1), ("tri2", 2), ("quad2", 3), ("tet3", 6), ("hex3", 7)):
    UNITS["ser_" + _c] = {"src": "ser_main.cpp", "defs": ["-DIO_CFG=cfg_" + _c], "cost": _k, "libs": ["-l:libboost_serialization.a"]}
UNITS["io_plc"] = {"src": "io_main.cpp", "defs": ["-DIO_PLC"], "cost": 1}

HIST = [("line2", 3000, 60000), ("tri2", 3000, 60000), ("quad2", 2000, 40000), ("tet3", 1200, 24000), ("hex3", 200, 4000), ("plc3", 2000, 40000)]
HIST_ASSUME = [
    "meshes stay small (at most 14 vertices, 48 in one of 40 runs, or a 3x2x2 hexahedron grid); no facet has more than two cells",
    "explicit ids are fresh; elements of a mesh are not erased while a segmentation refers to them",
    "one thread at a time",
]

PROPS = {}
for p in ("P07", "P08", "P09", "P10", "P11", "P12", "P13"):
    PROPS[p] = {"units": HIST, "level": "exploration", "assumptions": HIST_ASSUME, "chunk": 50}
for p in ("P08", "P11", "P12"):
    PROPS[p] = dict(PROPS[p], units=HIST + [("hull3", 2000, 40000)])
PROPS["P13"] = dict(PROPS["P13"], units=[(u, 3 * q, 3 * t) for u, q, t in HIST if u != "plc3"])
PROPS["P11"] = dict(PROPS["P11"], units=[(u, 2 * q, 2 * t) for u, q, t in PROPS["P11"]["units"]])
PROPS["P14"] = {"units": HIST, "level": "exploration", "assumptions": HIST_ASSUME, "chunk": 50}



PROPS["P16"] = {"units": [("d_tri2", 4000, 80000), ("d_tet3", 2000, 40000)], "level": "exploration", "assumptions": HIST_ASSUME, "chunk": 50}
PROPS["P17"] = {"units": [("d_tri2", 3000, 60000), ("d_quad2", 2000, 40000), ("d_tet3", 1200, 24000), ("d_hex3", 200, 4000)], "level": "exploration", "assumptions": HIST_ASSUME, "chunk": 50}


PROPS["P18"] = {"units": [("d_tri2", 3000, 60000), ("d_quad2", 2000, 40000), ("d_tet3", 1500, 30000), ("d_hex3", 400, 8000)], "level": "exploration", "assumptions": HIST_ASSUME + ["Voronoi quantities are checked on regular grids cut into boxes, right or acute simplices"], "chunk": 50}


def _io(n, plc):
    u = [("io_" + c, n, 20 * n) for c in ("line1", "line3", "tri2", "tri3", "quad2", "tet3", "hex3")]
    if plc: u.append(("io_plc", plc, 20 * plc))
    return u


IO_ASSUME = [
    "the simulated disk stands for the real one: open, read, write and close of libstdc++ file streams are answered by the simulator",
    "meshes are small (at most 36 lattice cells, 40 points of a facet complex)",
    "one thread at a time",
]
IO_STATE = "hash of the result of each read (canonical mesh text or error) and of the disk image after each write"
for p, n, plc in (("P01", 4000, 12000), ("P02", 8000, 12000), ("P03", 4000, 8000), ("P04", 6000, 0), ("P05", 6000, 0), ("P06", 4000, 0), ("P15", 6000, 0)):
    PROPS[p] = {"units": _io(n, plc), "level": "exploration", "assumptions": IO_ASSUME, "chunk": 200, "state_measure": IO_STATE,
                "real": "all readers and writers of /repo/viennagrid/io that compile, the mesh library and libstdc++ streams", "stub": "file system below /sim (libc open/read/write/close), operator new"}

PROPS["P19"] = {"units": [("ser_line1", 3000, 60000), ("ser_tri2", 3000, 60000), ("ser_quad2", 2000, 40000), ("ser_tet3", 2000, 40000), ("ser_hex3", 1000, 20000)], "level": "exploration", "chunk": 100,
                "assumptions": IO_ASSUME + ["Boost.Serialization text and binary archives; only the part of an archive behind Boost's own header is damaged"],
                "state_measure": "hash of the mesh (vertices and cells in order) after each load", "real": "mesh_serializer, the mesh library, Boost.Serialization, libstdc++ streams",
                "stub": "file system below /sim (libc open/read/write/close), operator new"}

_H = ("Seeded search over histories of mesh operations, queries and faults on five mesh types; every answer is compared with a small reference model. "
      "Not exhaustive: says nothing about histories outside the searched ones; trusts the reference model, clang and AddressSanitizer.")
NOTES = {p: _H for p in ("P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P16", "P17", "P18")}

_I = ("Seeded search over file contents, damages, disk faults, crash points and allocation failures; readers and writers run unmodified on a simulated disk and every result is compared with "
      "the description the file was made from. Not exhaustive: says nothing about files, faults and sequences outside the searched ones; trusts the description, clang and AddressSanitizer.")
NOTES.update({p: _I for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P15", "P19")})

NOT_APPLICABLE = {
    "P20": "Pure arithmetic on given points: no schedule, clock, I/O, allocation-order or history dependence, so simulation with fault injection adds nothing over plain input generation.",
    "P23": "Pure coordinate arithmetic without any environment.",
}
