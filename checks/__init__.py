MC = "model_checking"
REGISTRY = {
    "L01": ("lru", "L01", MC),
    "L02": ("lru", "L02", MC),
    "S01": ("sdv", "S01", MC),
    "S02": ("sdv", "S02", MC),
    "S03": ("sdv", "S03", MC),
    "S04": ("sdv", "S04", MC),
    "S05": ("sdv", "S05", MC),
    "A01": ("threads", "A01", MC),
    "A02": ("threads", "A02", MC),
    "A03": ("threads", "A03", MC),
    "T01": ("tcp", "T01", MC),
    "T02": ("tcp", "T02", MC),
    "T03": ("tcp", "T03", MC),
    "T04": ("tcp", "T04", MC),
    "D01": ("databuf", "D01", MC),
    "D02": ("databuf", "D02", MC),
    "D03": ("databuf", "D03", MC),
    "D04": ("databuf", "D04", MC),
    "D05": ("databuf", "D05", MC),
    "D06": ("databuf", "D06", MC),
    "E01": ("pure", "E01", MC),
    "E02": ("pure", "E02", MC),
    "N01": ("pure", "N01", MC),
    "B01": ("pure", "B01", MC),
    "X01": ("pure", "X01", MC),
    "X02": ("pure", "X02", MC),
    "B02": ("pure", "B02", MC),
    "H01": ("pure", "H01", MC),
    "H02": ("pure", "H02", MC),
    "K01": ("pure", "K01", MC),
    "K02": ("pure", "K02", MC),
    "M01": ("pure", "M01", MC),
    "M02": ("pure", "M02", MC),
    "A05": ("threads", "A05", MC),
    "A04": ("pure", "A04", MC),
    "Z01": ("pure", "Z01", MC),
    "N02": ("pure", "N02", MC),
    "N03": ("pure", "N03", MC),
    "R01": ("pure", "R01", MC),
    "F01": ("pure", "F01", MC),
    "F03": ("pure", "F03", MC),
    "F04": ("pure", "F04", MC),
    "Q01": ("pure", "Q01", MC),
    "Q02": ("pure", "Q02", MC),
    "I01": ("pure", "I01", MC),
    "W01": ("pure", "W01", MC),
    "C01": ("pure", "C01", MC),
    "C02": ("pure", "C02", MC),
    "C03": ("pure", "C03", MC),
    "C04": ("pure", "C04", MC),
    "C05": ("pure", "C05", MC),
    "U01": ("pure", "U01", MC),
    "U02": ("threads", "U02", MC),
    "U03": ("pure", "U03", MC),
    "F02": ("threads", "F02", MC),
    "G01": ("pure", "G01", MC),
    "P01": ("pure", "P01", MC),
    "G02": ("pure", "G02", MC),
}
DRIVERS = {  # name: (variant, extra sources, defines, link flags)
    "lru": ("asan", [], [], []),
    "sdv": ("plain", [], [], []),
    "errs": ("asan", [], [], []),
    "strs": ("asan", [], [], []),
    "ident": ("asan", [], [], []),
    "hash": ("asan", [], [], []),
    "data": ("asan", [], [], []),
    "console": ("asan", [], [], []),
    "scope": ("asan", [], [], []),
    "serial": ("asan", [], [], []),
    "misc": ("plain", [], [], []),
    "prof": ("asan", [], [], []),
    "exe": ("asan", [], [], []),
    "sql": ("plain", [], [], []),
    "proc": ("asan", [], [], []),
    "crypt": ("asan", [], [], []),
    "secret": ("asan", [], [], []),
    "rnd": ("asan", [], [], []),
    "logs": ("log", [], [], ["-lutil"]),
    "active": ("cov", ["vsched.cc"], [], ["-rdynamic"]),
    "tcpconn": ("cov", ["vsched.cc"], [], ["-rdynamic"]),
    "tcplisten": ("cov", ["vsched.cc"], [], ["-rdynamic"]),
    "rndcalls": ("cov", ["vsched.cc"], [], ["-rdynamic"]),
    "secmem": ("cov", ["vsched.cc"], [], ["-rdynamic"]),
    "iopool": ("cov", ["vsched.cc"], [], ["-rdynamic"]),
    "databuf": ("cov", ["vsched.cc"], [], ["-rdynamic"]),
    "spin": ("cov", ["vsched.cc"], [], ["-rdynamic"]),
    "spinfree": ("free", [], [], []),
    "squeue": ("cov", ["vsched.cc"], [], ["-rdynamic"]),
}

EXTRA_BUILDS = ["sdv@asan"]


def build(*names):
    """'x' builds drivers/x.cc in its default variant, 'x@v' in variant v."""
    from vlib import build as b
    out = {}
    by = []
    for n in names:
        base, _, var = n.partition("@")
        v, extra, defs, link = DRIVERS[base]
        by.append((n, (base, var or v, extra, defs, link)))
    for var in sorted({d[1] for _, d in by}):
        r = b.build([d for _, d in by if d[1] == var])
        for n, d in by:
            if d[1] == var:
                out[n] = r[d[0]]
    return out
