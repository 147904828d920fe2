"""Which scenarios, trace specifications and design models decide which property."""

COMMON = ["the projection of Go values to specification values in harness/proj.go",
          "TLC 1.8.0 and its Json/IOUtils modules", "the go toolchain of the sandbox"]


def P(runs, mc=(), assume=(), inside=()):
    return lambda Run, MC: dict(inside=tuple(inside), runs=[Run(**r) for r in runs], mc=[MC(**m) for m in mc], assume=list(assume) + COMMON)


def R(scen, spec, nq, nt, **k):
    return dict(scen=scen, spec=spec, nq=nq, nt=nt, **k)


def M(mod, **k):
    return dict(mod=mod, **k)


Q, T = ("quick",), ("thorough",)
BAD = dict(expect="violation")
WIRE = [M("MCScale"), M("MCWire", corpus=True, tiers=Q), M("MCWire", cfg="MCWireX", corpus=True, tiers=T)]
DEC = WIRE + [M("MCDecoder", corpus=True)]

PROPS = {
    "C01": P([R("C01", "TraceCodec", 40000, 400000)], WIRE),
    "C02": P([R("C02", "TraceCodec", 40000, 400000)], WIRE),
    "C03": P([R("C03", "TraceCodec", 50000, 500000)], WIRE),
    "C04": P([R("C04", "TraceCodec", 80000, 800000)], WIRE),
    "C05": P([R("C05", "TraceCodec", 80000, 800000)], DEC),
    "C06": P([R("C06", "TraceCodec", 80000, 800000)], DEC + [M("MCDecoder", cfg="MCDecoderEager", **BAD)]),
    "C07": P([R("C07", "TraceCodec", 40000, 400000)], DEC),
    "C08": P([R("C08", "TraceStream", 6000, 60000)], [M("MCScale"), M("Channel", cfg="MCChannel", corpus=True), M("Channel", cfg="MCChannel3", tiers=T), M("Channel", cfg="MCChannelBad", **BAD)]),
    "C09": P([R("C09", "TraceHeap", 500, 5000), R("C09c", "TraceHeap", 60, 500, race=True)],
             [M("CodecHeap", cfg="MCCodecHeap", corpus=True, tiers=Q), M("CodecHeap", cfg="MCCodecHeapX", corpus=True, tiers=T)]
             + [M("CodecHeap", cfg="MCCodecHeap_" + x, **BAD) for x in ("alias", "scratch", "append", "clobber", "memo", "reuse", "dedupe")]),
    "C10": P([R("C10", "TraceOid", 80000, 800000)], [M("MCOid", corpus=True, tiers=Q), M("MCOid", cfg="MCOidX", corpus=True, tiers=T), M("MCGrow")]),
    "C11": P([R("C11", "TraceOidHeap", 10000, 100000)], [M("MCOidHeap")] + [M("MCOidHeap", cfg="MCOidHeapBad%d" % i, **BAD) for i in (1, 2, 3)]),
    "C12": P([R("C12", "TraceOid", 80000, 800000)], [M("MCOid", corpus=True), M("MCOid", cfg="MCParse", corpus=True, tiers=Q), M("MCOid", cfg="MCParseX", corpus=True, tiers=T)]),
    "C13": P([R("C13", "TraceTree", 4000, 40000)], [M("MCTree", corpus=True), M("MCTree", cfg="MCTreeD"), M("MCGrow")]),
    "C14": P([R("C14", "TraceLeaf", 2500, 25000)], [M("MCTree", cfg="MCNext", corpus=True, tiers=Q), M("MCTree", cfg="MCNextX", corpus=True, tiers=T), M("MCGrow")]),
    "C15": P([R("C15", "TraceLeaf", 4000, 40000)], [M("MCTree", corpus=True), M("MCGrow")]),
    "C16": P([R("C16", "TraceLin", 2500, 20000, lin=True), R("C16", "TraceLin", 600, 5000, lin=True, race=True)],
             [M("OidTreeConc", cfg="MCConc"), M("OidTreeConc", cfg="MCConc2"), M("OidTreeConc", cfg="MCConcLive"), M("OidTreeConc", cfg="MCConc3", tiers=T)]
             + [M("OidTreeConc", cfg="MCConc" + x, **BAD) for x in ("BadRem", "BadRead", "BadAdd", "Revisit")]),
    "C17": P([R("C17", "TraceText", 30000, 300000)], [M("MCHex", corpus=True, tiers=Q), M("MCHex", cfg="MCHexX", corpus=True, tiers=T)]),
    "C18": P([R("C18", "TraceText", 30000, 300000)], WIRE + [M("MCShow")]),
    "C19": P([R("C19", "TraceText", 1, 1)], [M("MCShow")]),
    "C21": P([R("C21o", "TraceOid", 4000, 40000), R("C21t", "TraceText", 4000, 40000),
              R("C21oc", "TraceOid", 300, 3000, race=True), R("C21tc", "TraceText", 300, 3000, race=True)],
             [M("Pure", cfg="MCPure", corpus=True)] + [M("Pure", cfg="MCPure_" + x, **BAD) for x in ("alias", "scratch", "memo", "shared", "lazy")]),
    "C22": P([R("C22", "TraceStruct", 12000, 120000)], [M("MCStruct", corpus=True, tiers=Q), M("MCStruct", cfg="MCStructX", corpus=True, tiers=T)]),
    "C23": P([R("C23", "TraceBulk", 4000, 40000)], [M("MCBulk", corpus=True, tiers=Q), M("MCBulk", cfg="MCBulkX", corpus=True, tiers=T)], inside=("next.go", "prune.go")),
    "C20": P([R("C20", "TraceText", 30000, 250000)], DEC),
}
