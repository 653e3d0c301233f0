"""Which test binary decides which property."""
PROGRAMS = {"server": "./cmd/server", "tabular": "./cmd/tabular"}
CHECKS = {}
for _i in ("H01", "H02", "H03", "H04", "H06", "H07", "H08", "H09", "H10", "H11", "H12", "H13"):
    CHECKS[_i] = dict(runs=[("handlers", False)])
CHECKS["H05"] = dict(runs=[("handlers", True), ("handlers", False)])
for _i in ("R01", "C01"):
    CHECKS[_i] = dict(runs=[("creators", False), ("creators", True)])
for _i in ("C02",):
    CHECKS[_i] = dict(runs=[("creators", False)])
for _i in ("G01", "G02"):
    CHECKS[_i] = dict(runs=[("gintest", False), ("gintest", True)])
for _i in ("W01", "W02", "W03"):
    CHECKS[_i] = dict(runs=[("warns", False)])
CHECKS["W01"] = dict(runs=[("warns", False), ("warns", True)])
CHECKS["J01"] = dict(runs=[("parse", False)])
CHECKS["D01"] = dict(runs=[("warns", False)])
CHECKS["D02"] = dict(runs=[("warns", False), ("server", False)], programs=["server", "tabular"])
for _i in ("S01", "S02", "S03", "S04"):
    CHECKS[_i] = dict(runs=[("scoring", False)])
CHECKS["P01"] = dict(runs=[("server", False)], programs=["server"])
CHECKS["P02"] = dict(runs=[("server", False)], programs=["server", "server.race"])
CHECKS["V01"] = dict(runs=[("suites", False)])
CHECKS["T01"] = dict(runs=[("server", False)], programs=["tabular"])
CHECKS["B01"] = dict(runs=[("suites", False)])
# Each test runs in several processes with other random cases (4 unless given here);
# with split they share the number of cases, else each makes all of them.
CHECKS["S04"].update(shards=4, split=True)
CHECKS["P01"].update(shards=6, split=True)
CHECKS["P02"].update(shards=2)
CHECKS["H05"].update(shards=2)
CHECKS["D02"].update(shards=2)
# Tests which the coverage-guided stage of the thorough tier leaves out: they start
# processes or goroutines, or use state of the process.
NOFUZZ = r"Concurrent|Volume|Process|Server|Tabular|Pages|Links|^TestH13|^TestV01|^TestB01"
