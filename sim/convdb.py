"""A hand-written SOFA convention database (the stub for the git submodule
``sofar/sofa_conventions``, which is empty in this checkout).

The tables below follow the structure and naming of AES69-2022.  They are the
*environment* of the system under test: the simulated disk serves them under
the path at which sofar expects its submodule.  From one table both the csv
source text and the compiled json dictionary are derived (by code independent
of sofar), so the tables are also the reference model for
``update_conventions``.
"""
import json
import zlib

COORD_C = "cartesian"


def _g(name, default, flags=None, comment=""):
    return (f"GLOBAL:{name}", default, flags, None, "attribute", comment)


def _pos(name, default, dims, typ="cartesian", units="metre", flags="m"):
    return [(name, default, flags, dims, "double", ""),
            (f"{name}:Type", typ, flags, None, "attribute", ""),
            (f"{name}:Units", units, flags, None, "attribute", "")]


def _globals(conv, version, datatype, room="free field", sofa="2.1",
             extra=()):
    rows = [
        _g("Conventions", "SOFA", "rm"),
        _g("Version", sofa, "rm"),
        _g("SOFAConventions", conv, "rm"),
        _g("SOFAConventionsVersion", version, "rm"),
        _g("APIName", "", "rm"),
        _g("APIVersion", "", "rm"),
        _g("ApplicationName", ""),
        _g("ApplicationVersion", ""),
        _g("AuthorContact", "", "m"),
        _g("Comment", ""),
        _g("DataType", datatype, "rm",
           "We store data of this type here"),
        _g("History", ""),
        _g("License", "No license provided, ask the author for permission",
           "m"),
        _g("Organization", "", "m"),
        _g("References", ""),
        _g("RoomType", room, "m",
           "The room information can be arbitrary"),
        _g("Origin", ""),
        _g("DateCreated", "", "m"),
        _g("DateModified", "", "m"),
        _g("Title", "", "m"),
    ]
    rows += [_g(*e) for e in extra]
    return rows


def _geometry(listener_view=True, receivers=2, emitters=1, source_mc="IC, MC",
              recv=None, sph_source=False):
    recv = recv if recv is not None else (
        [[0, 0.09, 0], [0, -0.09, 0]] if receivers == 2
        else [[0, 0, 0]] * receivers if receivers > 1 else [0, 0, 0])
    rows = _pos("ListenerPosition", [0, 0, 0], "IC, MC")
    if listener_view:
        rows += [("ListenerView", [1, 0, 0], None, "IC, MC", "double", ""),
                 ("ListenerView:Type", "cartesian", None, None,
                  "attribute", ""),
                 ("ListenerView:Units", "metre", None, None, "attribute", ""),
                 ("ListenerUp", [0, 0, 1], None, "IC, MC", "double", "")]
    rows += _pos("ReceiverPosition", recv, "rCI, rCM")
    rows += (_pos("SourcePosition", [0, 0, 1], source_mc, "spherical",
                  "degree, degree, metre") if sph_source
             else _pos("SourcePosition", [0, 0, 1], source_mc))
    em = [0, 0, 0] if emitters == 1 else [[0, 0, 0]] * emitters
    rows += _pos("EmitterPosition", em, "eCI, eCM")
    return rows


def _fir(default, dims="mRn", delay=None, delay_dims="IR, MR", rate=48000):
    return [("Data.IR", default, "m", dims, "double", "Impulse responses"),
            ("Data.SamplingRate", rate, "m", "I, M", "double", ""),
            ("Data.SamplingRate:Units", "hertz", "m", None, "attribute", ""),
            ("Data.Delay", delay if delay is not None else [0, 0], "m",
             delay_dims, "double", "")]


def _tf(default, dims="mRn"):
    return [("N", 0, "m", "N", "double", "Frequency values"),
            ("N:LongName", "frequency", None, None, "attribute", ""),
            ("N:Units", "hertz", "m", None, "attribute", ""),
            ("Data.Real", default, "m", dims, "double", ""),
            ("Data.Imag", default, "m", dims.upper(), "double", "")]


def _sos(default, delay):
    return [("Data.SOS", default, "m", "mRn", "double", "SOS coefficients"),
            ("Data.SamplingRate", 48000, "m", "I", "double", ""),
            ("Data.SamplingRate:Units", "hertz", "m", None, "attribute", ""),
            ("Data.Delay", delay, "m", "IR, MR", "double", "")]


def tables():
    """name_version -> (deprecated, rows)."""
    t = {}

    def add(name, version, rows, deprecated=False):
        t[f"{name}_{version}"] = (deprecated, rows)

    add("GeneralFIR", "1.0",
        _globals("GeneralFIR", "1.0", "FIR")
        + _geometry(receivers=1, listener_view=False)
        + _fir([0], delay=[0]))
    add("GeneralTF", "2.0",
        _globals("GeneralTF", "2.0", "TF")
        + _geometry(receivers=1, listener_view=False) + _tf([1]))
    add("GeneralTF", "1.0",
        _globals("GeneralTF", "1.0", "TF", sofa="1.0")
        + _geometry(receivers=1, listener_view=False) + _tf([1]),
        deprecated=True)
    add("GeneralSOS", "1.0",
        _globals("GeneralSOS", "1.0", "SOS")
        + _geometry(receivers=1, listener_view=False)
        + _sos([[[0, 0, 0, 1, 0, 0]]], [0]))
    add("GeneralFIR-E", "2.0",
        _globals("GeneralFIR-E", "2.0", "FIR-E")
        + _geometry(receivers=1, listener_view=False)
        + _fir([0], dims="mRnE", delay=[0], delay_dims="IRI, MRI, MRE"))
    add("SimpleFreeFieldHRIR", "1.0",
        _globals("SimpleFreeFieldHRIR", "1.0", "FIR",
                 extra=[("ListenerShortName", "", "m"),
                        ("DatabaseName", "", "m")])
        + _geometry() + _fir([0, 0])
        + [("SourceUp", [0, 0, 1], None, "IC, MC", "double", ""),
           ("SourceView", [1, 0, 0], None, "IC, MC", "double", ""),
           ("SourceView:Type", "cartesian", None, None, "attribute", ""),
           ("SourceView:Units", "metre", None, None, "attribute", "")])
    add("SimpleFreeFieldHRIR", "0.4",
        _globals("SimpleFreeFieldHRIR", "0.4", "FIR", sofa="0.6",
                 extra=[("SubjectID", ""), ("DatabaseName", "", "m")])
        + _geometry() + _fir([0, 0]), deprecated=True)
    add("FreeFieldHRIR", "1.0",
        _globals("FreeFieldHRIR", "1.0", "FIR-E",
                 extra=[("ListenerShortName", "", "m"),
                        ("DatabaseName", "", "m")])
        + _geometry()
        + _fir([0, 0], dims="mRnE", delay=[0, 0],
               delay_dims="IRI, MRI, MRE"))
    add("SimpleFreeFieldHRTF", "1.0",
        _globals("SimpleFreeFieldHRTF", "1.0", "TF",
                 extra=[("ListenerShortName", "", "m"),
                        ("DatabaseName", "", "m")])
        + _geometry() + _tf([0, 0]))
    add("SimpleFreeFieldTF", "1.0",
        _globals("SimpleFreeFieldTF", "1.0", "TF", sofa="1.0",
                 extra=[("ListenerShortName", "", "m"),
                        ("DatabaseName", "", "m")])
        + _geometry() + _tf([0, 0]), deprecated=True)
    add("SimpleFreeFieldTF", "0.4",
        _globals("SimpleFreeFieldTF", "0.4", "TF", sofa="0.6",
                 extra=[("DatabaseName", "", "m")])
        + _geometry() + _tf([0, 0]), deprecated=True)
    add("SimpleFreeFieldHRSOS", "1.0",
        _globals("SimpleFreeFieldHRSOS", "1.0", "SOS",
                 extra=[("ListenerShortName", "", "m"),
                        ("DatabaseName", "", "m")])
        + _geometry()
        + _sos([[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]], [0, 0]))
    add("SimpleHeadphoneIR", "1.0",
        _globals("SimpleHeadphoneIR", "1.0", "FIR",
                 extra=[("ListenerShortName", "", "m"),
                        ("ListenerDescription", "", "m"),
                        ("SourceDescription", "", "m"),
                        ("EmitterDescription", "", "m"),
                        ("DatabaseName", "", "m")])
        + _geometry(emitters=2)
        + [("SourceManufacturer", [""], None, "MS", "string", ""),
           ("SourceModel", [""], None, "MS", "string", ""),
           ("SourceURI", [""], None, "MS", "string", ""),
           ("ReceiverDescriptions", [""], None, "MS", "string", ""),
           ("EmitterDescriptions", [""], None, "MS", "string", ""),
           ("MeasurementDate", 0, None, "M", "double", "")]
        + _fir([0, 0]))
    add("SingleRoomMIMOSRIR", "1.0",
        _globals("SingleRoomMIMOSRIR", "1.0", "FIR-E", room="shoebox",
                 extra=[("RoomShortName", ""), ("RoomDescription", ""),
                        ("DatabaseName", "", "m")])
        + _geometry(receivers=1, emitters=1)
        + [("RoomCornerA", [0, 0, 0], None, "IC", "double", ""),
           ("RoomCornerB", [1, 2, 3], None, "IC", "double", ""),
           ("RoomCorners", 0, None, "II", "double", ""),
           ("RoomCorners:Type", "cartesian", None, None, "attribute", ""),
           ("RoomCorners:Units", "metre", None, None, "attribute", ""),
           ("RoomTemperature", 0, None, "I, M", "double", ""),
           ("RoomTemperature:Units", "kelvin", None, None, "attribute", ""),
           ("RoomVolume", 6, None, "II, MI", "double", ""),
           ("RoomVolume:Units", "cubic metre", None, None, "attribute", "")]
        + _fir([0], dims="mRnE", delay=[0], delay_dims="IRI, MRI, MRE"))
    add("MultiSpeakerBRIR", "0.3",
        _globals("MultiSpeakerBRIR", "0.3", "FIRE", room="reverberant",
                 sofa="0.6",
                 extra=[("RoomDescription", "some room", "m"),
                        ("DatabaseName", "", "m")])
        + _geometry(receivers=2, emitters=1)
        + [("Data.IR", [0, 0], "m", "mREn", "double", ""),
           ("Data.SamplingRate", 48000, "m", "I", "double", ""),
           ("Data.SamplingRate:Units", "hertz", "m", None, "attribute", ""),
           ("Data.Delay", [0, 0], "m", "IRE, MRE", "double", "")],
        deprecated=True)
    add("FreeFieldDirectivityTF", "1.1",
        _globals("FreeFieldDirectivityTF", "1.1", "TF",
                 extra=[("DatabaseName", "", "m"), ("Musician", ""),
                        ("Description", ""), ("SourceType", ""),
                        ("SourceManufacturer", ""),
                        ("EmitterDescription", "")])
        + _geometry(receivers=1, listener_view=False) + _tf([0])
        + [("EmitterMidiNote", 0, None, "EI, MI", "double", ""),
           ("Descriptions", [""], None, "MS", "string", ""),
           ("SourceTuningFrequency", 440, None, "I, M", "double", ""),
           ("SourceTuningFrequency:Units", "hertz", None, None,
            "attribute", "")])
    add("FreeFieldDirectivityTF", "1.0",
        _globals("FreeFieldDirectivityTF", "1.0", "TF", sofa="2.0",
                 extra=[("DatabaseName", "", "m"), ("Musician", ""),
                        ("Description", ""), ("SourceType", ""),
                        ("EmitterDescription", "")])
        + _geometry(receivers=1, listener_view=False) + _tf([0])
        + [("EmitterDescriptions", [""], None, "MS", "string", "")],
        deprecated=True)
    add("SingleRoomDRIR", "0.3",
        _globals("SingleRoomDRIR", "0.3", "FIR", room="reverberant",
                 extra=[("RoomDescription", "", "m"),
                        ("DatabaseName", "", "m")])
        + _geometry(receivers=1) + _fir([0], delay=[0]))
    add("SingleRoomDRIR", "0.2",
        _globals("SingleRoomDRIR", "0.2", "FIR", room="reverberant",
                 sofa="1.0",
                 extra=[("RoomDescription", "", "m")])
        + _geometry(receivers=1) + _fir([0], delay=[0]), deprecated=True)
    return t


# ---------------------------------------------------------------------------
# derived representations
# ---------------------------------------------------------------------------
def _num(x):
    return repr(x)


def csv_cell(v):
    if v is None:
        return ""
    if isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return _num(v)
    if v == [""]:
        return "{''}"
    if v and isinstance(v[0], list):
        if v[0] and isinstance(v[0][0], list):
            if v == [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]]:
                return "permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);"
            if v == [[[0, 0, 0, 1, 0, 0]]]:
                return "permute([0 0 0 1 0 0], [3 1 2]);"
            # the csv syntax has two dimensions only
            return "[" + "; ".join(
                " ".join(_num(x) for x in sum(
                    ([r] if not isinstance(r, list) else r
                     for r in row), [])) for row in v) + "]"
        return _array([[_num(x) for x in row] for row in v])
    return _array([[_num(x) for x in v]])


def _array(rows):
    """Arrays are written in different ways (which depends on the content)."""
    h = zlib.crc32(repr(rows).encode())
    sep, end, pad = (" ", ",")[h % 5 == 0], ("; ", ";", " ; ")[h // 5 % 3], \
        ("", "", " ")[h // 15 % 3]
    return "[" + pad + end.join(sep.join(r) for r in rows) + pad + "]"


def csv_text(rows, crlf=False, trailing_tabs=False):
    lines = ["\t".join(["Name", "Default", "Flags", "Dimensions", "Type",
                        "Comment"])]
    for name, default, flags, dims, typ, comment in rows:
        cells = [name, csv_cell(default), flags or "", dims or "", typ,
                 comment]
        h = zlib.crc32(repr(cells).encode())
        if h % 7 == 0:          # white space around cells has no meaning
            cells[h // 7 % 5] += "  "
            cells[h // 35 % 5] = " " + cells[h // 35 % 5]
        lines.append("\t".join(cells))
    text = "\n".join(x.rstrip("\t") for x in lines) + "\n"
    if trailing_tabs:
        text = text.replace("\n", "\t" * int(trailing_tabs) + "\n")
    if crlf:
        text = text.replace("\n", "\r\n")
    return text


def json_dict(rows):
    d = {}
    for name, default, flags, dims, typ, comment in rows:
        d[name] = {"default": default, "flags": flags, "dimensions": dims,
                   "type": typ, "comment": comment}
    first = [k for k in d if "GLOBAL" in k]
    rest = [k for k in d if "GLOBAL" not in k and not k.startswith("Data")]
    data = [k for k in d if k.startswith("Data")]
    return {k: d[k] for k in first + rest + data}


UNIT_ALIASES = {
    "metre": "metre", "metres": "metre", "meter": "metre", "meters": "metre",
    "degree": "degree", "degrees": "degree", "hertz": "hertz",
    "kelvin": "kelvin", "cubic metre": "cubic metre",
    "cubic meter": "cubic metre", "cubic": "cubic",
    "cubic metres": "cubic metre", "cubic meters": "cubic metre",
    "radian": "radian", "second": "second", "seconds": "second",
    "hz": "hertz", "kelvins": "kelvin"}


def _coord(name, types=("cartesian", "spherical"), general=()):
    """Rules for Type/Units of one position-like variable."""
    spec = {}
    for t in types:
        spec[t] = {f"{name}:Units": ["metre"] if t == "cartesian"
                   else ["degree, degree, metre"]}
    return {f"{name}:Type": {"value": list(types), "general": [name],
                             "specific": spec}}


def rules():
    r = {}
    r["GLOBAL:Conventions"] = {"value": ["SOFA"]}
    r["GLOBAL:Version"] = {"value": ["1.0", "2.0", "2.1", "0.6"]}
    r["GLOBAL:DataType"] = {
        "value": ["FIR", "FIR-E", "FIRE", "TF", "TF-E", "SOS"],
        "specific": {
            "FIR": {"Data.IR": None, "Data.Delay": None,
                    "Data.SamplingRate": None,
                    "Data.SamplingRate:Units": ["hertz"]},
            "FIR-E": {"Data.IR": None, "Data.Delay": None,
                      "Data.SamplingRate": None,
                      "Data.SamplingRate:Units": ["hertz"]},
            "TF": {"Data.Real": None, "Data.Imag": None, "N": None,
                   "N:Units": ["hertz"]},
            "TF-E": {"Data.Real": None, "Data.Imag": None, "N": None},
            "SOS": {"Data.SOS": None, "Data.Delay": None,
                    "Data.SamplingRate": None,
                    "Data.SamplingRate:Units": ["hertz"],
                    "_dimensions": {"N": {
                        "value": list(range(6, 601, 6)),
                        "value_str": "an integer multiple of 6 greater 0"}}},
        }}
    r["GLOBAL:RoomType"] = {
        "value": ["free field", "reverberant", "shoebox", "dae"],
        "specific": {
            "reverberant": {"GLOBAL:RoomDescription": None},
            "shoebox": {"RoomCornerA": None, "RoomCornerB": None},
            "dae": {"GLOBAL:RoomGeometry": None}}}
    conv = {
        "GeneralFIR": {"GLOBAL:DataType": ["FIR"]},
        "GeneralTF": {"GLOBAL:DataType": ["TF"]},
        "GeneralSOS": {"GLOBAL:DataType": ["SOS"]},
        "GeneralFIR-E": {"GLOBAL:DataType": ["FIR-E"]},
        "SimpleFreeFieldHRIR": {
            "GLOBAL:DataType": ["FIR"], "GLOBAL:RoomType": ["free field"],
            "EmitterPosition:Type": ["cartesian", "spherical"],
            "_dimensions": {"E": {"value": [1], "value_str": "1"}}},
        "FreeFieldHRIR": {
            "GLOBAL:DataType": ["FIR-E"], "GLOBAL:RoomType": ["free field"]},
        "SimpleFreeFieldHRTF": {
            "GLOBAL:DataType": ["TF"], "GLOBAL:RoomType": ["free field"],
            "_dimensions": {"E": {"value": [1], "value_str": "1"}}},
        "SimpleFreeFieldHRSOS": {
            "GLOBAL:DataType": ["SOS"], "GLOBAL:RoomType": ["free field"],
            "_dimensions": {"E": {"value": [1], "value_str": "1"}}},
        "SimpleHeadphoneIR": {"GLOBAL:DataType": ["FIR"]},
        "FreeFieldDirectivityTF": {"GLOBAL:DataType": ["TF"]},
        "SingleRoomMIMOSRIR": {"GLOBAL:DataType": ["FIR-E"]},
        "SingleRoomDRIR": {"GLOBAL:DataType": ["FIR"],
                           "GLOBAL:RoomType": ["reverberant"]},
    }
    names = sorted(set(conv) | {"SimpleFreeFieldTF", "MultiSpeakerBRIR"})
    r["GLOBAL:SOFAConventions"] = {"value": names, "specific": conv}
    for n in ["ListenerPosition", "SourcePosition"]:
        r.update(_coord(n))
    for n in ["ReceiverPosition", "EmitterPosition"]:
        r.update(_coord(n, ("cartesian", "spherical", "spherical harmonics")))
        letter = n[0]
        r[f"{n}:Type"]["specific"]["spherical harmonics"]["_dimensions"] = {
            letter: {"value": [i * i for i in range(1, 30)],
                     "value_str": "a square number"}}
    for n in ["ListenerView", "SourceView", "ReceiverView", "EmitterView"]:
        r.update(_coord(n))
        r[n] = {"value": None, "general": [f"{n}:Type", f"{n}:Units"]}
        r[n.replace("View", "Up")] = {"value": None, "general": [n]}
    r["Data.SamplingRate"] = {"value": None,
                              "general": ["Data.SamplingRate:Units"]}
    r["RoomTemperature"] = {"value": None,
                            "general": ["RoomTemperature:Units"]}
    r["RoomTemperature:Units"] = {"value": ["kelvin"]}
    r["RoomVolume"] = {"value": None, "general": ["RoomVolume:Units"]}
    r["RoomVolume:Units"] = {"value": ["cubic metre"]}
    r["RoomCornerA"] = {"value": None, "general": ["RoomCornerB",
                                                   "RoomCorners:Type",
                                                   "RoomCorners:Units"]}
    r["RoomCornerB"] = {"value": None, "general": ["RoomCornerA"]}
    r["N:Units"] = {"value": ["hertz"]}
    r["N:LongName"] = {"value": ["frequency"]}
    return r


def deprecations():
    return {"GLOBAL:SOFAConventions": {
        "SimpleFreeFieldTF": "SimpleFreeFieldHRTF",
        "MultiSpeakerBRIR": "SingleRoomMIMOSRIR"}}


def upgrades():
    return {
        "GeneralTF": {
            "from_to": [[["1.0"], ["GeneralTF_2.0"], "GTF_1"]],
            "GTF_1": {"move": {}, "remove": [], "message": None}},
        "SimpleFreeFieldHRIR": {
            "from_to": [[["0.4"], ["SimpleFreeFieldHRIR_1.0"], "A"]],
            "A": {"move": {"GLOBAL:SubjectID": {
                "target": "GLOBAL:ListenerShortName", "moveaxis": None,
                "deprecated_dimensions": None}},
                "remove": [],
                "message": "Consider to add the optional data 'SourceUp'"}},
        "SimpleFreeFieldTF": {
            "from_to": [[["0.4", "1.0"], ["SimpleFreeFieldHRTF_1.0"], "A"]],
            "A": {"move": {}, "remove": [], "message": None}},
        "MultiSpeakerBRIR": {
            "from_to": [[["0.3"], ["SingleRoomMIMOSRIR_1.0"], "A"]],
            "A": {"move": {
                "Data.IR": {"target": "Data.IR", "moveaxis": [2, 3],
                            "deprecated_dimensions": None}},
                "remove": ["ListenerUp"],
                "message": None}},
        "FreeFieldDirectivityTF": {
            "from_to": [[["1.0"], ["FreeFieldDirectivityTF_1.1"], "A"]],
            "A": {"move": {"EmitterDescriptions": {
                "target": "Descriptions", "moveaxis": None,
                "deprecated_dimensions": ["I"]}},
                "remove": ["GLOBAL:SourceType"], "message": None}},
        "SingleRoomDRIR": {
            "from_to": [[["0.2"], ["SingleRoomDRIR_0.3",
                                   "SingleRoomMIMOSRIR_1.0"], "A"]],
            "A": {"move": {}, "remove": [], "message": None}},
    }


def files(tabs=None, with_csv=False):
    """Relative path -> text of a complete sofa_conventions directory."""
    tabs = tables() if tabs is None else tabs
    out = {"VERSION": "2.1\n"}
    for nv, (deprecated, rows) in tabs.items():
        base = "conventions/" + ("deprecated/" if deprecated else "") + nv
        out[base + ".json"] = json.dumps(json_dict(rows), indent=4)
        if with_csv:
            out[base + ".csv"] = csv_text(rows)
    out["rules/rules.json"] = json.dumps(rules())
    out["rules/unit_aliases.json"] = json.dumps(UNIT_ALIASES)
    out["rules/deprecations.json"] = json.dumps(deprecations())
    out["rules/upgrade.json"] = json.dumps(upgrades())
    return out


def write(path, tabs=None, with_csv=False):
    import os
    for rel, text in files(tabs, with_csv).items():
        full = os.path.join(path, rel)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w", encoding="windows-1252") as f:
            f.write(text)
