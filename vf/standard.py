"""The sets of values of the standard (RP66 V1: appendix B, figures of chapter 5), kept apart from the library's own tables.

UNCLEAR: spellings that differ between editions; the checks demand nothing of them.
"""

Unit = """A K cd dAPI dB gAPI kg m mol nAPI rad s sr Btu C D GPa Gal Hz J L MHz MPa MeV Mg Mpsi N Oe P Pa S T V W Wb a
acre atm b bar bbl c cP cal cm cu d daN deg degC degF dm eV fC ft g gal h in kHz kPa kV keV kgf km lbf lbm mA
mC mD mGal mL mS mT mV mW mg min mm mohm ms nC nW ns ohm pC pPa ppdk ppk ppm psi pu t ton uA uC uPa uV um uohm
upsi us""".split()

Property = """AVERAGED CALIBRATED CHANGED-INDEX COMPUTED DEPTH-MATCHED DERIVED FILTERED HOLE-SIZE-CORRECTED
INCLINOMETRY-CORRECTD LITHOLOGY-CORRECTED LOCAL-COMPUTATION LOCALLY-DEFINED MODELLED MUDCAKE-CORRECTED
NORMALIZED OVER-SAMPLED PATCHED PRESSURE-CORRECTED RE-SAMPLED SALINITY-CORRECTED SAMPLED-DOWNWARD
SAMPLED-UPWARD SPEED-CORRECTED SPLICED SQUARED STACKED STANDARD-DEVIATION STANDOFF-CORRECTED
TEMPERATURE-CORRECTED UNDER-SAMPLED""".split()

CalibrationMeasurementPhase = """AFTER BEFORE MASTER""".split()

EquipmentType = """Adapter Board Bottom-Nose Bridle Cable Calibrator Cartridge Centralizer Chamber Cushion Depth-Device Display
Drawer Excentralizer Explosive-Source Flask Geophone Gun Head Housing Jig Joint Nuclear-Detector Packer Pad
Pane Positioning Printer Radioactive-Source Shield Simulator Skid Sonde Spacer Standoff System Tool
Tool-Module Transducer Vibration-Source""".split()

EquipmentLocation = """Logging-System Remote Rig Well""".split()

FrameIndexType = """ANGULAR-DRIFT BOREHOLE-DEPTH NON-STANDARD RADIAL-DRIFT VERTICAL-DEPTH""".split()

ProcessStatus = """COMPLETE ABORTED IN-PROGRESS""".split()

ZoneDomain = """BOREHOLE-DEPTH TIME VERTICAL-DEPTH""".split()

UNCLEAR = {"Pane", "Panel", "INCLINOMETRY-CORRECTD", "INCLINOMETRY-CORRECTED"}


def of(cls):
    """The standard's values for one of the library's enumerations."""
    return [v for v in globals()[cls.__name__] if v not in UNCLEAR]


def foreign(cls):
    """Values the library allows although the standard does not."""
    std = set(of(cls)) | UNCLEAR
    return [m.value for m in cls if m.value not in std]


def pick(rng, cls):
    """A value of the standard, as text or as the member of the library's enumeration."""
    v = rng.choice(of(cls))
    if rng.random() < 0.4:
        for m in cls:
            if m.value == v:
                return m
    return v
