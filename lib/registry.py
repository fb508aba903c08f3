"""Which recorders and specifications decide which property."""
ASSUMPTIONS = {}

def board(group, n):
    return dict(gen="BoardModel", cfg="BoardGen.cfg", env={"SCENES": ("scenes.%s.quick.ndjson" % group, "scenes.%s.thorough.ndjson" % group)}, rec="mboard",
                mod="BoardTrace", n=n)


MATCHES = {"MATCHES": ("matches.quick.ndjson", "matches.thorough.ndjson")}
DESIGN = dict(design="BoardModel", cfg="BoardModel.cfg", env={"SCENES": "scenes.design.ndjson"})
CHECKS = {
    "P01": [dict(rec="p01", mod="BoardTrace", n=(1500, 12000), screen=(60, 600)), board("rules", (3000, 20000))],
    "P02": [dict(rec="p02", mod="BoardTrace", n=(1200, 9000), screen=(12, 100))],
    "P03": [dict(rec="p03", mod="BoardTrace", n=(1500, 9000), screen=(30, 300)), DESIGN],
    "P04": [dict(rec="p04", mod="BoardTrace", n=(500, 4000), screen=(12, 120)), board("undo", (3000, 40000))],
    "P05": [dict(rec="p05", mod="BoardTrace", n=(900, 7000), screen=(30, 300)), board("rep", (4000, 60000))],
    "P06": [dict(rec="p06", mod="BoardTrace", n=(800, 6000), screen=(12, 100))],
    "P07": [dict(rec="p07", mod="BoardTrace", n=(6000, 40000), screen=(40, 400))],
    "P08": [dict(rec="p08", mod="BoardTrace", n=(9000, 60000), screen=(14, 80))],
    "P09": [dict(rec="p09", mod="BoardTrace", n=(2500, 15000), screen=(3, 20))],
    "P10": [dict(rec="p10", mod="BoardTrace", n=(1500, 10000), screen=(20, 200))],
    "P11": [dict(rec="p11", mod="BoardTrace", n=(1000, 8000), screen=(20, 200))],
    "P12": [dict(rec="p12", mod="BoardTrace", n=(1000, 8000), screen=(12, 120))],
    "P13": [dict(rec="p13", mod="RecordTrace", n=(2400, 10000), screen=(40, 300))],
    "P14": [dict(rec="p14", mod="RecordTrace", n=(2400, 10000), screen=(40, 300))],
    "P15": [dict(rec="p15", mod="RecordTrace", n=(2400, 6000), screen=(20, 200))],
    "P16": [dict(rec="p16", mod="RecordTrace", n=(2400, 8000), screen=(10, 100))],
    "P17": [dict(rec="p17", mod="UsiTrace", n=(1500, 12000)),
            dict(gen="UsiModel", cfg=("UsiGen3.cfg", "UsiGen4.cfg"), rec="musi", mod="UsiTrace", n=(1200, 20000))],
    "P18": [dict(rec="p18", mod="MatchTrace", n=(600, 5000)), dict(rec="p18c", mod="MatchTrace", n=(160, 1500)),
            dict(gen="MatchModel", cfg="MatchGen.cfg", env=MATCHES, rec="mmatch", mod="MatchTrace", n=(700, 20000)),
            dict(design="MatchModel", cfg="MatchModel.cfg", env=MATCHES, tiers=("thorough",))],
    "P21": [dict(rec="p21", mod="EloTrace", n=(3000, 40000))],
    "P20": [dict(rec="p20", mod="WebTrace", n=(600, 5000))],
    "P19": [dict(rec="p19", mod="EnvTrace", n=(800, 6000)),
            dict(gen="EnvModel", cfg="EnvGen.cfg", env={"SCENES": ("scenes.env.quick.ndjson", "scenes.env.thorough.ndjson")}, rec="menv", mod="EnvTrace",
                 n=(1100, 4000))],
}
