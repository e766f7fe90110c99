"""C03."""
from sim import scenario

ID = 'C03'
TECHNIQUE = ('deterministic simulation: seeded search over whole simulation programs (sources, pointings, apertures, optics, assemblies, '
             'detectors) run several times on one shared instrument, with injected failures of user functions and extreme '
             'but legal random draws; invariants on row bookkeeping, untouched columns, header and probability product after every stage, against an independent ray/surface and probability model')
RULE = 'an instrument met photons that hit and photons that miss some element; distinct = distinct event log of the runs'
STATE_MEASURE = 'hash of (element type, any hit, any miss, identifier column) and of the sequence of component types'
ASSUMPTIONS = ['user functions are deterministic except for the faults injected into them',
               'photons within 1e-7 (relative) of an edge are not judged as hit or missed']
REAL = ['marxs.source', 'marxs.optics', 'marxs.simulator', 'marxs.missions.mitsnl', 'marxs.missions.chandra', 'marxs.missions.lynx', 'marxs.missions.arcus', 'marxs.missions.athena.spo']
STUB = ['user-supplied filter, reflectivity, spectrum and order functions', 'calibration data base of Arcus (synthetic)']
N = {'quick': 2200, 'thorough': 60000}
gen = scenario.gen


def run(plan, obs):
    scenario.run(plan, obs, {ID})
