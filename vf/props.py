from . import conc, effects, heaps, logic, ownership as o, tokens, types

CHECKS = {
    "P01": o.persistence("hash", 1000),
    "P02": o.persistence("vector", 1000),
    "P03": o.persistence("array", 100),
    "R01": o.conservation("hash", 500),
    "R02": o.conservation("vector", 500),
    "R03": o.conservation("array", 100),
    "X01": o.exceptions("hash", 200),
    "X02": o.exceptions("vector", 200),
    "X03": o.exceptions("array", 60),
    "S01": o.sizes(["hash", "array", "vector"], 1000),
    "E01": o.propagate(["hash", "array", "vector"], 200),
    "A01": conc.a01,
    "A02": conc.a02,
    "A03": conc.a03,
    "A04": effects.a04,
    "K01": effects.k01,
    "K02": effects.k02,
    "K03": effects.k03,
    "T01": tokens.t01,
    "H01": logic.h01,
    "B01": logic.b01,
    "L01": logic.l01,
    "G01": types.g01,
    "I01": types.i01,
    "M01": heaps.m01,
}
