"""Which modules hold the oracles of each property."""
PLAIN = ["Objects, queues and converters are observed through the public gsp API",
         "Single threaded use (the library has no thread support)"]
MPL = ["matplotlib's Agg backend rasterises deterministically in the same sandbox",
       "Drawn items are observed through matplotlib's public artist API"]
INDEX = {}
for _p in ("P01", "P02", "P03", "P04", "P06", "P07", "P08", "P10"):
    INDEX[_p] = {"modules": ["protocol"], "assumptions": PLAIN}
INDEX["P09"] = {"modules": ["buffers"], "assumptions": PLAIN}
INDEX["P05"] = {"modules": ["buffers", "transforms"], "assumptions": PLAIN + MPL}
for _p in ("T01", "T02", "T03", "T04", "T05"):
    INDEX[_p] = {"modules": ["transforms"], "assumptions": PLAIN + MPL}
for _p in ("R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08"):
    INDEX[_p] = {"modules": ["rendering"], "assumptions": PLAIN + MPL}
for _p in ("R01", "R02", "R03", "R05", "R08"):
    INDEX[_p]["modules"] = INDEX[_p]["modules"] + ["scale"]
for _p in ("G01", "G02", "G03", "G04", "G09"):
    INDEX[_p] = {"modules": ["arrays"], "assumptions": PLAIN[1:]}
for _p in ("G05", "G06", "G07", "G08"):
    INDEX[_p] = {"modules": ["geometry"], "assumptions": PLAIN[1:]}
INDEX["S01"] = {"modules": ["svg"], "assumptions": PLAIN[1:]}
INDEX["P11"] = {"modules": ["extras"], "assumptions": PLAIN}
INDEX["P12"] = {"modules": ["extras"], "assumptions": PLAIN}
INDEX["P13"] = {"modules": ["extras"], "assumptions": PLAIN}
VOLUME = ("P01 P03 P04 P06 P07 P09 P10 P12 T01 T02 T03 T04 T05 G01 G02 G03 G04 R04 R06 R07").split()
for _p in VOLUME:
    INDEX[_p]["modules"] = INDEX[_p]["modules"] + ["volume"]
